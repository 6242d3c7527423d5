#!/usr/bin/env python3
"""Plants the bugs of seedsrc/*.py one by one: writes seeded/<id>/, confirms that each builds, passes the
stable tests and is shown by its demo, runs the property's check against it and undoes it.
usage: tools_seed.py [--check-only|--no-check] [--tier quick|thorough] id..."""
import sys,os,json,subprocess,glob,importlib.util,shutil,time
R='/repo'; V='/verif'
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
def load():
    out={}
    for f in sorted(glob.glob(V+'/seedsrc/*.py')):
        sp=importlib.util.spec_from_file_location('m',f); m=importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        for b in m.BUGS: out[b['id']]=b
    return out
DEMO='''#!/bin/bash
# Run with cwd = the repository. Exit 0: the property holds in this demonstration; nonzero: it does not.
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"
T=/tmp/z80demo-@ID@
rm -rf /tmp/z80demo-@ID@
mkdir -p "$T/src" && cp "$D/main.rs" "$T/src/main.rs" || exit 3
[ -e "$R/Cargo.lock" ] && cp "$R/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
z80emu = { path = "$R" }
@DEPS@
EOF
cd "$T" || exit 3
export CARGO_TARGET_DIR="$T/target" RUSTFLAGS="-Awarnings"
@RUN@
rc=$?
cd / ; rm -rf /tmp/z80demo-@ID@
exit $rc
'''
def write(b):
    d=f"{V}/seeded/{b['id']}"; os.makedirs(d,exist_ok=True)
    common='' if b.get('nocommon') else open(V+'/seedsrc/common.rs').read()
    open(d+'/main.rs','w').write(common+b['demo'].lstrip('\n'))
    run=b.get('run') or 'timeout 280 cargo run --offline --quiet'
    if '\n' in run: run='(\n'+run+'\n)'
    demo=DEMO.replace('@RUN@',run)
    if b.get('nodefault'): demo=demo.replace('z80emu = { path = "$R" }','z80emu = { path = "$R", default-features = false }')
    open(d+'/demo.sh','w').write(demo.replace('@ID@',b['id']).replace('@DEPS@',b.get('deps','').replace('$R','$R')))
    os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['what']},open(d+'/meta.json','w'),indent=1)
    return d
def apply(b):
    for f,o,n in b['edits']:
        p=f'{R}/{f}'; s=open(p).read()
        if s.count(o)!=1: sh(f'git -C {R} checkout -- .'); raise SystemExit(f"{b['id']}: {f}: {s.count(o)} matches for {o[:60]!r}")
        open(p,'w').write(s.replace(o,n))
def main():
    a=sys.argv[1:]; nocheck='--no-check' in a; only='--check-only' in a
    tier='thorough' if '--thorough' in a else 'quick'
    ids=[x for x in a if not x.startswith('--')]; bugs=load()
    if not ids: ids=list(bugs)
    res={}
    for i in ids:
        b=bugs[i]; st=sh(f'git -C {R} status --short').stdout
        assert st=='' , st
        d=write(b); out=[]
        try:
            if not only:
                r=sh(d+'/demo.sh',cwd=R); out.append(f'clean={r.returncode}')
                if r.returncode: print(r.stdout[-2500:])
            apply(b)
            open(d+'/patch.diff','w').write(sh(f'git -C {R} diff').stdout)
            if not only:
                r=sh('bash /opt/vp/build.sh'); out.append(f'build={r.returncode}')
                if r.returncode: print(r.stdout[-2500:])
                r=sh('bash /opt/vp/test.sh /tmp/seedtest.json'); out.append(f'test={r.returncode}')
                if r.returncode: print(r.stdout[-1500:])
                r=sh(d+'/demo.sh',cwd=R); out.append(f'demo={r.returncode}')
                if r.returncode==0 or 'error[' in r.stdout: print(r.stdout[-2500:])
                else: print(i,'demo says:',[l for l in r.stdout.splitlines() if l.strip()][-3:])
            if not nocheck:
                t=time.time(); r=sh(f"{V}/check.sh {b['property']} {tier}",cwd=V)
                v=[l for l in r.stdout.splitlines() if 'VIOLATION' in l]
                out.append(f"check={r.returncode} {time.time()-t:.0f}s {v[:1]}")
                if r.returncode!=1: print(r.stdout[-800:])
        finally:
            sh(f'git -C {R} checkout -- .')
        print(i,b['property'],*out,flush=True)
main()
