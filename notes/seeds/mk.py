"""mk.py [ids]: build and validate planted bugs from list*.py into /verif/seeded."""
import os,sys,json,subprocess,shutil,glob,importlib.util
N=os.path.dirname(os.path.abspath(__file__)); OUT="/verif/seeded"; SC="/tmp/sc"
S=[]
for f in sorted(glob.glob(N+"/list*.py")):
    sp=importlib.util.spec_from_file_location("l",f); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m); S+=m.S
ids=sys.argv[1:]
DEMO='''#!/bin/bash
# run with cwd = the repository
D=$(cd "$(dirname "$0")" && pwd); R=$PWD
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"; cp "$D"/*.rs "$T/src/"
cp "$R/crates/cfg-noodle/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
cfg-noodle = { path = "$R/crates/cfg-noodle" }
critical-section = { version = "1.2.0", features = ["std"] }
embassy-time-driver = "0.2.1"
embedded-storage-async = "0.4.1"
minicbor = { version = "2.0.0", default-features = false, features = ["derive", "std"] }
[profile.dev]
debug = 0
incremental = false
EOF
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TERM_COLOR=never
cd "$T" && cargo build --offline -q 2> "$T/log" || { cat "$T/log"; exit 3; }
timeout 100 "$T/target/debug/demo"
'''
E=dict(os.environ,RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",CARGO_NET_OFFLINE="true",CARGO_INCREMENTAL="1",CARGO_PROFILE_DEV_DEBUG="line-tables-only")
def sh(c,cwd,to=150): 
    r=subprocess.run(["timeout","-k5",str(to),"bash","-c",c],cwd=cwd,env=E,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True); return r.returncode,r.stdout
if not os.path.exists(SC): sh(f"cp -a /repo {SC}","/")
sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD",SC)
# lines added by our own commits
base="7e122c7"
bad=0
for s in S:
    if ids and s["id"] not in ids: continue
    if not ids and os.path.exists(f"{OUT}/{s['id']}/meta.json"): continue
    sh("git checkout -q -- .",SC)
    d=f"{OUT}/{s['id']}"
    err=None
    for f,a,b in s["edits"]:
        p=f"{SC}/{f}"; t=open(p).read()
        if t.count(a)!=1: err=f"edit matches {t.count(a)} times: {a[:60]!r}"; break
        open(p,"w").write(t.replace(a,b))
    if err: print(s["id"],"EDIT",err); bad+=1; continue
    os.makedirs(d,exist_ok=True)
    _,diff=sh("git diff",SC); open(d+"/patch.diff","w").write(diff)
    own=set()
    for f in {e[0] for e in s["edits"]}:
        _,bl=sh(f"git blame -s -l HEAD -- {f}","/repo")
        com=[l.split()[0].lstrip("^") for l in bl.splitlines()]
        ln=0; hit=0
        for l in sh(f"git diff -- {f}",SC)[1].splitlines():
            if l.startswith("@@"): ln=int(l.split()[1][1:].split(",")[0]); continue
            if ln==0 or l.startswith("\\"): continue
            if l.startswith("-"):
                orig=sh(f"git merge-base --is-ancestor {com[ln-1]} {base}","/repo")[0]==0
                if not orig: own.add((f,ln,l))
                else: hit+=1
            if l[0] in "- ": ln+=1
        if not hit: print(s["id"],"note: changes no original line of",f)
    if own: print(s["id"],"note: touches own lines",own)
    open(d+"/main.rs","w").write(s["main"].lstrip("\n")); shutil.copy(N+"/c.rs",d+"/c.rs")
    for k,v in s["extra"].items(): open(f"{d}/{k}","w").write(v.lstrip("\n"))
    open(d+"/demo.sh","w").write(DEMO); os.chmod(d+"/demo.sh",0o755)
    # removed lines must be original
    rc,o=sh("cargo build --offline -q && cargo build --offline -q --no-default-features --features defmt && cargo test --locked --offline --features std --no-fail-fast 2>&1 | grep -E '^test |error'",SC+"/crates/cfg-noodle")
    stable=json.load(open("/opt/vp/BASELINE.json"))
    fails=[l for l in o.splitlines() if "FAILED" in l or "error" in l]
    rc1,o1=sh(f"bash {d}/demo.sh",SC,300)
    sh("git checkout -q -- .",SC)
    rc0,o0=sh(f"bash {d}/demo.sh",SC,300)
    good=rc0==0 and rc1 not in(0,3) and not fails
    print(s["id"],"OK" if good else f"BAD clean={rc0} patched={rc1} fails={fails}",flush=True)
    if not good: print((o0 if rc0 else "")[-1500:], o1[-600:] if rc1 in (0,3) else ""); shutil.rmtree(d); bad+=1; continue
    json.dump(dict(property=s["prop"],needs=s["needs"],what_it_breaks=s["breaks"]),open(d+"/meta.json","w"),indent=1)
sys.exit(bad>0)
