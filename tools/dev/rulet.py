import sys,re,json
sys.path[:0]=['/verif/engine','/verif/spec']
import contract,rules
ref=contract.load_reference()
print(type(ref.adts),type(ref.impls),type(ref.statics))
for r in ('lock_protocol','send_sync','hash_eq','determinism','unsafe_forms'):
    print(r,getattr(rules,r)(ref,ref))
L=rules.Locks(ref)
print(L.edges()); print(L.twice()); print(L.acq); print(L.leaks)
print({k:v for k,v in L.trans.items() if v})
print([x for x in rules.unsafe_forms(contract.load_reference(),ref)])
class E: pass
e=E(); e.fns={}; print(rules.unsafe_forms(e,ref)[0])
