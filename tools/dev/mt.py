"""mt.py FILE.. [-f name-substr] : apply each edit block to a copy of /repo, compare with reference"""
import sys,re,os,shutil,tempfile,subprocess
sys.path.insert(0,'/verif/engine')
os.environ['VERIF_BUILD']='/tmp/vb'
from concurrent.futures import ProcessPoolExecutor
import multiprocessing
REF=os.environ.get('REF','/tmp/ref.json')
def parse(p):
    out=[]
    txt=open(p).read()
    for blk in re.split(r'(?m)^### ',txt)[1:]:
        head,body=blk.split('\n',1)
        name,kind=[x.strip() for x in head.split('|')]
        eds=[];f=None
        for m in re.finditer(r'(?ms)^@@ (\S+)\n|^<<<<\n(.*?)^====\n(.*?)^>>>>\n',body):
            if m.group(1): f=m.group(1)
            else: eds.append((f,m.group(2),m.group(3)))
        out.append((name,kind,eds))
    return out
def edit(s,a,b):
    if s.count(a)!=1 and s.count(a[:-1])==1: a,b=a[:-1],b[:-1]
    if s.count(a)==1: return s.replace(a,b),1
    # comments between and after the lines
    ls=[l for l in a.rstrip('\n').split('\n')]
    gap=r'[ \t]*(?://[^\n]*)?\n(?:[ \t]*//[^\n]*\n)*'
    ms=list(re.finditer(gap.join(re.escape(l) for l in ls)+r'(?=[ \t]*(?://|\n))',s))
    if len(ms)!=1: return s,len(ms)
    m=ms[0]
    return s[:m.start()]+b.rstrip('\n')+s[m.end():],1
def one(job):
    name,kind,eds=job
    wid=multiprocessing.current_process()._identity
    tgt='/tmp/vt%s'%(wid[0] if wid else 0)
    d=tempfile.mkdtemp(prefix='mt')
    try:
        shutil.copytree('/repo/src',d+'/src'); shutil.copy('/repo/Cargo.toml',d); shutil.copy('/repo/Cargo.lock',d)
        for f,a,b in eds:
            p=d+'/'+f; s=open(p).read()
            s2,n=edit(s,a,b)
            if n!=1: return name,kind,'BADEDIT %s count=%d %r'%(f,n,a[:80]),[]
            open(p,'w').write(s2)
        import extract
        try: js=extract.extract(d,tgt)
        except extract.ExtractError as e: return name,kind,'NOCOMPILE '+'\n'.join(l for l in str(e).splitlines() if l.startswith('error') or '-->' in l)[:1500],[]
        import pickle
        from checker import run_all, run_rules
        return name,kind,None,run_rules(REF,js)+([] if os.environ.get("RULES") else run_all(REF,js))
    finally: shutil.rmtree(d,ignore_errors=True)
if __name__=='__main__':
    fs=[a for a in sys.argv[1:] if not a.startswith('-')]
    flt=[a[2:] for a in sys.argv[1:] if a.startswith('-f')]
    jobs=[j for f in fs for j in parse(f) if not flt or any(x in j[0] for x in flt)]
    verbose=bool(flt)
    bad=0
    with ProcessPoolExecutor(8) as ex:
        for name,kind,err,res in ex.map(one,jobs):
            if err: print('!!',name,err); bad+=1; continue
            ok=(not res) if kind=='R' else bool(res)
            if not ok or verbose:
                bad+=not ok
                print('%s %s %s'%('ok' if ok else 'XX',kind,name))
                for r in res[:6 if verbose else 3]: print('     ',r[:1600 if verbose else 420])
            elif kind=='B': print('ok B',name,'|',' ; '.join(sorted({r.split(' ')[0] for r in res}))[:150])
    print(len(jobs),'jobs',bad,'bad')
