"""mkseed.py FILE...: builds /verif/seeded/<id> from seed description files (python: dict SEED)."""
import sys, os, subprocess, json, shutil, re
R='/tmp/seed/repo'
B=os.environ.get('SEED_REPO','/repo')   # scratch copies can be given for work while /repo must not be touched
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO='''#!/bin/sh
# Builds and runs main.rs against the crate in the current directory.
here=$(cd "$(dirname "$0")" && pwd) || exit 2
repo=$(pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" && cp "$here/main.rs" "$t/src/main.rs" && cp "$here/Cargo.lock" "$t/Cargo.lock" || exit 2
cat > "$t/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
little_exif = { path = "$repo" }
[workspace]
EOF
mkdir "$t/work" && cd "$t/work" || exit 2
export PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable RUST_BACKTRACE=0
CARGO_TARGET_DIR="$t/target" cargo run --offline -q --manifest-path "$t/Cargo.toml"
'''
def blame(path, line):
    o=sh(f"git -C {B} blame -L {line},{line} --porcelain HEAD -- {path}").stdout
    return o.split()[0]
def make(S):
    ID=S['id']; d=f'/verif/seeded/{ID}'
    if os.path.exists(R): shutil.rmtree(R)
    sh(f"mkdir -p {R}; git -C {B} archive HEAD | tar x -C {R}; cd {R}; git init -q; git add -A; git -c user.email=a@b -c user.name=x commit -qm x")
    base=sh(f"git -C {B} rev-list --max-parents=0 HEAD").stdout.strip()
    for f,old,new in S['edits']:
        s=open(f'{R}/{f}').read()
        n=s.count(old)
        if n!=1: print(ID,'edit matches',n,f,old[:60]); return False
        s2=s.replace(old,new); open(f'{R}/{f}','w').write(s2)
    diff=sh(f"git -C {R} diff").stdout
    # blame of removed lines
    f=None; own=[]; orig=0
    for l in diff.splitlines():
        if l.startswith('--- a/'): f=l[6:]
        m=re.match(r'@@ -(\d+)',l)
        if m: ln=int(m[1]); continue
        if f and l.startswith('-') and not l.startswith('---'):
            b=blame(f,ln); 
            if b==base: orig+=1
            else: own.append((f,ln,l))
            ln+=1
        elif f and l.startswith(' '): ln+=1
    os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
    shutil.copy(B+'/Cargo.lock', d+'/Cargo.lock')
    open(d+'/main.rs','w').write(S['demo'])
    json.dump({"property":S['property'],"needs":S['needs'],"what_it_breaks":S['breaks']},open(d+'/meta.json','w'),indent=1)
    print(ID,'orig',orig,'own',own)
    # clean demo
    r=sh(f"cd {B} && {d}/demo.sh"); clean=r.returncode
    if clean: print(r.stdout[-1500:])
    r=sh(f"cd {R} && {d}/demo.sh"); bad=r.returncode
    print('  clean',clean,'patched',bad,r.stdout.strip().splitlines()[-3:] )
    return clean==0 and bad!=0
if __name__=='__main__':
    ok=[]
    for p in sys.argv[1:]:
        ns={}; exec(open(p).read(),ns)
        for S in ns['SEEDS']:
            ok.append((S['id'],make(S)))
    print(ok)
