"""seedtool.py FILE [-fNAME]: build, validate and store planted bugs; blocks:
### id | property
needs: ...
breaks: ...
@@ src/x.rs
<<<< ==== >>>>
```rust
main.rs
```
"""
import sys,re,os,subprocess,shutil,json
MINI=open('/tmp/demo/src/mini.rs').read()
PROBE=open('/tmp/demo/src/probe.rs').read()
GEN='''mod gen {
    pub mod labelslexer; pub mod labelslistener; pub mod labelsparser;
    pub mod simplelrlexer; pub mod simplelrlistener; pub mod simplelrparser;
    pub mod visitorcalclexer; pub mod visitorcalclistener; pub mod visitorcalcparser; pub mod visitorcalcvisitor;
    pub mod visitorbasiclexer; pub mod visitorbasiclistener; pub mod visitorbasicparser; pub mod visitorbasicvisitor;
    pub mod referencetoatnlexer; pub mod referencetoatnlistener; pub mod referencetoatnparser;
}
'''
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
DEMO='''#!/bin/bash
# builds a small program against the crate in the current directory and runs it
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here"/*.rs "$d/src/"
cp -r "$repo/tests/gen" "$d/src/gen"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
antlr-rust = { path = "$repo" }
bit-set = "=0.5.3"
[workspace]
EOF
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$d/Cargo.lock"
export REPO_DIR="$repo"
cd "$d" || exit 3
CARGO_TARGET_DIR="$d/target" timeout 250 cargo run --offline --quiet 2> "$d/err" 
rc=$?
[ $rc -ne 0 ] && tail -25 "$d/err"
exit $rc
'''
def main():
    txt=open(sys.argv[1]).read(); flt=[a[2:] for a in sys.argv[2:] if a.startswith('-f')]
    for blk in re.split(r'(?m)^### ',txt)[1:]:
        head,body=blk.split('\n',1)
        sid,prop=[x.strip() for x in head.split('|')]
        if flt and sid not in flt: continue
        code=re.search(r'(?ms)^```rust\n(.*?)^```',body).group(1)
        edits=body[:body.index('```rust')]
        needs=re.search(r'(?m)^needs: (.*)',edits).group(1); br=re.search(r'(?m)^breaks: (.*)',edits).group(1)
        d='/verif/seeded/'+sid
        assert not sh('git -C /repo status --short --untracked-files=no').stdout.strip()
        try:
            f=None;ok=True
            for m in re.finditer(r'(?ms)^@@ (\S+)\n|^<<<<\n(.*?)^====\n(.*?)^>>>>\n',edits):
                if m.group(1): f='/repo/'+m.group(1); continue
                s=open(f).read()
                if s.count(m.group(2))!=1: print('BADEDIT',sid,s.count(m.group(2)),m.group(2)[:60]); ok=False; break
                open(f,'w').write(s.replace(m.group(2),m.group(3)))
            if not ok: continue
            os.makedirs(d,exist_ok=True)
            patch=sh('git -C /repo diff').stdout
            open(d+'/patch.diff','w').write(patch)
            if 'mod probe' in code: open(d+'/probe.rs','w').write(PROBE); code=GEN+code
            open(d+'/main.rs','w').write(code)
            if 'mod mini' in code: open(d+'/mini.rs','w').write(MINI)
            open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
            json.dump(dict(property=prop,needs=needs,what_it_breaks=br),open(d+'/meta.json','w'),indent=1)
            r=sh('bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seedt.json')
            try: t=json.load(open('/tmp/seedt.json')); tests=(len(t['passed']),len(t['failed']))
            except Exception: tests='NOBUILD '+r.stdout[-800:]
            dm=sh('bash %s/demo.sh'%d,cwd='/repo')
            ck=sh('python3 /verif/check.py %s'%prop,cwd='/verif')
        finally:
            sh('git -C /repo checkout -- .')
        d0=sh('bash %s/demo.sh'%d,cwd='/repo')
        good=d0.returncode==0 and dm.returncode!=0 and tests==(59,0) and "could not compile" not in r.stdout
        print('%s %s %s tests=%s demo patched=%d clean=%d check=%d'%('OK ' if good else 'BAD',sid,prop,tests,dm.returncode,d0.returncode,ck.returncode))
        if not good:
            print('   patched:',dm.stdout[-600:]); print('   clean:',d0.stdout[-1500:])
        elif ck.returncode!=1: print('   MISSED', ck.stdout[-300:])
        elif flt: print(ck.stdout[-1500:])
    sh('bash /opt/vp/build.sh')
main()
