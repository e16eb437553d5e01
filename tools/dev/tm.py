import sys,time; sys.path.insert(0,'/verif/engine')
import faulthandler
from checker import *
from relate import *
from paths import *
import contract
ref=load('/tmp/ref.json'); cur=Program('/tmp/cur.json')
c=contract.Conformance(ref,cur)
for rn in sorted(ref.fns):
    if rn not in cur.fns: continue
    t=time.time(); print(rn,flush=True)
    faulthandler.dump_traceback_later(200,exit=True)
    try: b=c.check(rn,rn)
    except Exception as e: b=repr(e)
    faulthandler.cancel_dump_traceback_later()
    if time.time()-t>3: print('   SLOW',time.time()-t,flush=True)
