import sys,re,subprocess
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
txt=open(sys.argv[1]).read(); flt=[a[2:] for a in sys.argv[2:] if a.startswith('-f')]
sys.argv=['x','/dev/null']
src=open('/tmp/seedtool.py').read()
GEN=re.search(r"(?s)GEN='''(.*?)'''",src).group(1)
for blk in re.split(r'(?m)^### ',txt)[1:]:
    head,body=blk.split('\n',1); sid=head.split('|')[0].strip()
    if flt and sid not in flt: continue
    code=re.search(r'(?ms)^```rust\n(.*?)^```',body).group(1)
    edits=body[:body.index('```rust')]
    sh('git -C /tmp/rp2 checkout -- .')
    f=None
    for m in re.finditer(r'(?ms)^@@ (\S+)\n|^<<<<\n(.*?)^====\n(.*?)^>>>>\n',edits):
        if m.group(1): f='/tmp/rp2/'+m.group(1); continue
        s=open(f).read(); assert s.count(m.group(2))==1,(sid,s.count(m.group(2)))
        open(f,'w').write(s.replace(m.group(2),m.group(3)))
    if 'mod probe' in code: code=GEN+code
    outs=[]
    for d in ('/tmp/pd','/tmp/pd2'):
        open(d+'/src/main.rs','w').write(code)
        if d=='/tmp/pd': sh('cp /tmp/demo/src/probe.rs /tmp/demo/src/mini.rs '+d+'/src/')
        else: sh('cp /tmp/demo/src/probe.rs /tmp/demo/src/mini.rs '+d+'/src/')
        r=sh('timeout 120 cargo run --offline --quiet 2>&1 | grep -v "^warning\\|^ *|\\|^ *-->\\|^ *[0-9]* |\\|^$\\|^ *= "',cwd=d)
        outs.append(r.stdout)
    print('=====',sid,'SAME' if outs[0]==outs[1] else 'DIFF'); print(outs[0][-3000:]); 
    if outs[0]!=outs[1]: print('--- patched'); print(outs[1][-3000:])
sh('git -C /tmp/rp2 checkout -- .')
