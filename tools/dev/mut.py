"""mut.py N SEED [file-substr]: random mechanical mutants over src; prints missed ones"""
import sys,re,os,random,json
sys.path.insert(0,'/tmp'); sys.path.insert(0,'/verif/engine')
import mt
from concurrent.futures import ProcessPoolExecutor
OPS=[(r' == ',' != '),(r' != ',' == '),(r' < ',' <= '),(r' <= ',' < '),(r' > ',' >= '),(r' >= ',' > '),(r' && ',' || '),(r' \|\| ',' && '),
 (r' \+ 1\b',' - 1'),(r' \+ 1\b',''),(r' - 1\b',''),(r' \+ ',' - '),(r'\btrue\b','false'),(r'\bfalse\b','true'),(r'!(?=[a-z(])',''),(r'\b0\b','1'),(r'\b1\b','0'),(r'\b1\b','2'),(r'-1\b','-2'),
 (r' \+= ',' -= '),(r' -= ',' += '),(r'\bbreak;','continue;'),(r'\bcontinue;','break;'),(r'\bif (?!let)',"if !"),(r'\bNone\b','Some(Default::default())'),
 (r'\.min\(','.max('),(r'\.max\(','.min('),(r'\.any\(','.all('),(r'\.all\(','.any('),(r'is_some\(\)','is_none()'),(r'is_none\(\)','is_some()'),(r'is_empty\(\)','is_empty() == false'),
 (r'\.rev\(\)',''),(r'\.\.=','..'),(r'\bleft\b','right'),(r'\bstart\b','stop'),(r'\bline\b','column'),(r'unwrap_or\(0\)','unwrap_or(1)'),(r'\.first\(\)','.last()'),(r'\.last\(\)','.first()'),(r'push_front','push_back'),(r'\.skip\(1\)','')]
EXTRA=bool(os.environ.get('EXTRA')); rnd=random.Random(5)
KW=set('let mut if else for in while loop match return self fn pub impl use as ref move true false where type struct enum break continue unsafe dyn const crate super box'.split())
def cands(flt):
    out=[]
    for root,_,fs in os.walk('/repo/src'):
        for f in sorted(fs):
            p=os.path.join(root,f); rel=os.path.relpath(p,'/repo')
            if flt and flt not in rel or rel.endswith('test.rs'): continue
            L=open(p).read().split('\n')
            for i,l in enumerate(L):
                if re.match(r'\s*#\[cfg\(test\)\]',l): break
                s=l.strip()
                if rel.endswith('context_factory.rs') or s.startswith('* ') or not s or s.startswith(('//','#[','use ','pub use','extern','#!')): continue
                if 'debug_assert' in s or 'println' in s or s.startswith(('pub const','const','pub(crate) const')) : continue
                code=l.split('//')[0]
                for a,b in OPS:
                    for m in re.finditer(a,code):
                        out.append((rel,i,l[:m.start()]+b+l[m.end():]))
                if EXTRA:
                    if 'fn ' in code or 'panic!' in code or 'rewriter' in rel or s.startswith(('/**','*')) or re.match(r'(pub )?\w+: [^=]*,$',s) or s.startswith('type ') or 'unimplemented' in code: continue
                    for m in re.finditer(r' (&&|\|\|) ',code):
                        if code.rstrip().endswith('{'): out.append((rel,i,code[:m.start()]+' {'))
                        h=re.match(r'(.*?\b(?:if|while|return) )(.*?) (?:&&|\|\|) (.*)$',code)
                        if h: out.append((rel,i,h.group(1)+h.group(3)))
                    ids=re.findall(r'\b[a-z_][a-z_0-9]{1,}\b',code)
                    pool=sorted({x for k in L[max(0,i-12):i+12] for x in re.findall(r'\b[a-z_][a-z_0-9]{2,}\b',k.split('//')[0])}-KW)
                    for m in re.finditer(r'\b[a-z_][a-z_0-9]{1,}\b(?!\()',code):
                        if m.group(0) in KW or not pool: continue
                        x=rnd.choice(pool)
                        if x!=m.group(0): out.append((rel,i,l[:m.start()]+x+l[m.end():]))
                    if re.match(r'\s+[\w.*&()\[\] ]+.*;\s*$',code) and i+1<len(L) and re.match(r'\s+[\w.*&()\[\] ]+.*;\s*$',L[i+1]) and not L[i+1].strip().startswith(('return','break','continue','let')) and code.count('(')==code.count(')') and L[i+1].count('(')==L[i+1].count(')'):
                        out.append((rel,i,('SWAP',l,L[i+1])))
                    continue
                if re.match(r'\s+[\w.*&()\[\] ]+.*;\s*$',code) and not s.startswith(('let ','return','}','fn ','pub ','type ','impl','break','continue')) and code.count('(')==code.count(')') and code.count('{')==code.count('}'):
                    out.append((rel,i,''))
                    if 'continue' not in code and '?' not in code: out.append((rel,i,l+' '+l.strip()))
    return out
def one(m):
    rel,i,new=m
    import tempfile,shutil,multiprocessing
    wid=multiprocessing.current_process()._identity
    tgt='/tmp/vt%s'%(wid[0] if wid else 0)
    d=tempfile.mkdtemp(prefix='mt')
    try:
        shutil.copytree('/repo/src',d+'/src'); shutil.copy('/repo/Cargo.toml',d); shutil.copy('/repo/Cargo.lock',d)
        L=open(d+'/'+rel).read().split('\n'); old=L[i]
        if isinstance(new,tuple): L[i],L[i+1]=L[i+1],L[i]
        else: L[i]=new
        open(d+'/'+rel,'w').write('\n'.join(L))
        import extract
        try: js=extract.extract(d,tgt)
        except extract.ExtractError: return m,old,'nc',[]
        from checker import run_all
        try: r=run_all(mt.REF,js)
        except Exception as e: return m,old,'EXC %r'%e,[]
        return m,old,'caught' if r else 'MISSED',r
    finally: shutil.rmtree(d,ignore_errors=True)
if __name__=='__main__':
    n=int(sys.argv[1]); random.seed(int(sys.argv[2])); c=cands(sys.argv[3] if len(sys.argv)>3 else '')
    print(len(c),'candidates')
    c=random.sample(c,min(n,len(c)))
    cnt={}
    with ProcessPoolExecutor(8) as ex:
        for m,old,st,r in ex.map(one,c):
            cnt[st[:6]]=cnt.get(st[:6],0)+1
            if st[:6] not in('nc','caught'): print(st,m[0],m[1]+1,'\n   -',old.strip(),'\n   +',(m[2].strip() if isinstance(m[2],str) else m[2]),flush=True)
    print(cnt)
