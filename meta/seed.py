#!/usr/bin/env python3
"""Make and try planted bugs.  seed.py FILE.py  -- FILE defines BUGS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], crate, main)]
Each becomes /verif/seeded/<id>/; it is tried against /repo (build, tests, demo, check) and undone."""
import os, subprocess, sys, json, shutil, runpy
R='/repo'
HELP=open('/verif/meta/demo_onnx_help.rs').read()
CRATES={'io':('jstprove-io = { path = "@REPO@/rust/jstprove_io" }\nserde = { version = "1", features = ["derive"] }\nrmp-serde = "1.3"\nzstd = "0.13"\ncrc32c = "0.6"\nanyhow = "1"\n','io'),
 'onnx':('jstprove-onnx = { path = "@REPO@/rust/jstprove_onnx" }\njstprove-io = { path = "@REPO@/rust/jstprove_io" }\nprost = "0.13"\nserde = { version = "1", features = ["derive"] }\nanyhow = "1"\n','onnx')}
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def clean(): sh(f'git -C {R} checkout -- .')
DEMO='''#!/usr/bin/env bash
# exit 0: behaves as stated; nonzero: it does not.  Run with the repository as working directory.
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
w="$(mktemp -d)"
trap 'rm -rf "$w"' EXIT
cp -r "$here/demo/." "$w/"
find "$w" -name Cargo.toml -exec sed -i "s#@REPO@#$repo#g" {} +
export RUSTUP_TOOLCHAIN=nightly-2025-03-27 CARGO_NET_OFFLINE=true PROTOC="${PROTOC:-/usr/bin/protoc}" CARGO_TARGET_DIR="$w/target" DEMO_SCRATCH="$w/scratch"
mkdir -p "$w/scratch"
cd "$w"
timeout 280 cargo run --offline -q
'''
def make(b):
    d=f'/verif/seeded/{b["id"]}'
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d+'/demo/src')
    clean()
    for f,o,n in b['edits']:
        p=f'{R}/{f}'; t=open(p).read()
        assert t.count(o)>=1,(b['id'],f,'not found')
        k=b.get('nth',{}).get(f)
        if k is None:
            assert t.count(o)==1,(b['id'],f,'ambiguous',t.count(o)); t=t.replace(o,n)
        else:
            parts=t.split(o); t=o.join(parts[:k+1])+n+o.join(parts[k+1:])
        open(p,'w').write(t)
    open(d+'/patch.diff','w').write(sh(f'git -C {R} diff').stdout)
    clean()
    deps,lock=CRATES[b['crate']]
    lk=d+'/demo/Cargo.lock'
    if 'toml' in b:
        open(d+'/demo/Cargo.toml','w').write(b['toml'])
    else:
        open(d+'/demo/Cargo.toml','w').write(f'[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n\n[workspace]\n\n[dependencies]\n{deps}')
    shutil.copy(f'/verif/harness/{b.get("lock",lock)}/Cargo.lock',d+'/demo/Cargo.lock')
    if 'lock' in b: s=open(lk).read(); open(lk,'w').write(s.replace(f'h-{b["lock"]}','demo'))
    for src,dst in b.get('copy',[]):
        dd=f'{d}/demo/{dst}'; os.makedirs(os.path.dirname(dd),exist_ok=True)
        (shutil.copytree(src,dd,ignore=shutil.ignore_patterns('target','Cargo.lock')) if os.path.isdir(src) else shutil.copy(src,dd))
    open(d+'/demo/src/main.rs','w').write((HELP if b['crate']=='onnx' else '')+b['main'].lstrip())
    open(d+'/demo.sh','w').write(DEMO); os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':b['prop'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
def try_(bid,prop,tests=True):
    d=f'/verif/seeded/{bid}'; clean(); r={}
    shutil.rmtree('/tmp/sd',ignore_errors=True); shutil.copytree(d,'/tmp/sd'); 
    p=sh('bash /tmp/sd/demo.sh',cwd=R); r['demo_clean']=p.returncode
    if p.returncode: print(p.stdout[-800:],p.stderr[-1500:])
    a=sh(f'git -C {R} apply {d}/patch.diff'); r['apply']=a.returncode
    try:
        if tests:
            p=sh('bash /opt/vp/build.sh'); r['build']=p.returncode
            if p.returncode: print(p.stderr[-1500:])
            p=sh('bash /opt/vp/test.sh /tmp/o.json'); r['tests']=(p.stdout+p.stderr).strip().splitlines()[-1:]
        p=sh('bash /tmp/sd/demo.sh',cwd=R); r['demo_bug']=p.returncode; r['demo_out']=(p.stdout+p.stderr)[-160:].replace('\n',' | ')
        p=sh(f'VERIF_SEED=1 VERIF_TIER=quick ./run.sh {prop}',cwd='/verif'); r['check']=p.returncode
        v=[l for l in p.stdout.splitlines() if 'VIOLATION' in l]; r['viol']=v[:1]
        if p.returncode==2: print(p.stderr[-1500:])
    finally: clean()
    ok=r['demo_clean']==0 and r.get('build',0)==0 and r['demo_bug']!=0 and ('0 failed' in str(r.get('tests','0 failed')))
    q='/verif/meta/seed_results.json'; J=json.load(open(q)) if os.path.exists(q) else {}
    J[bid]=('caught' if r['check']==1 and v else 'missed') if ok else 'invalid'; json.dump(J,open(q,'w'),indent=1,sort_keys=True)
    print(('VALID' if ok else 'INVALID'),('CAUGHT' if r['check']==1 and v else 'MISSED'),bid,prop,r,flush=True)
if __name__=='__main__':
    bugs=runpy.run_path(sys.argv[1])['BUGS']; only=sys.argv[2:]
    for b in bugs:
        if only and b['id'] not in only: continue
        try: make(b); try_(b['id'],b['prop'])
        except AssertionError as e: clean(); print('EDIT-ERROR',b['id'],e)
