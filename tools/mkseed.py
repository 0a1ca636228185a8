#!/usr/bin/env python3
"""mkseed.py NAME PROP FILE OLD NEW NEEDS BREAKS DEMO_CC  (fields from a python dict file)
Creates /verif/seeded/NAME from a one-file edit and a demo, confirms it builds, passes the
stable tests, the demo passes without and fails with the patch."""
import sys, os, subprocess, json, shutil
V='/verif'; R='/repo'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
DEMO='''#!/bin/bash
# builds demo.cc against the libraries of the current build and runs it
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$W"' EXIT
O=_build/out
G=$(dirname "$(dirname "$(dirname "$(find $O -name raft.pb.h | head -1)")")")
g++ -std=c++17 -g -O1 %s -I"$G" -I. -I"$O" "$D/demo.cc" -o "$W/demo" -Wl,--start-group $(ls $O/lib*.a | grep -v test_util) -Wl,--end-group -lprotobuf -lpthread || exit 2
timeout 120 "$W/demo"
'''
def main():
    spec={}
    exec(open(sys.argv[1]).read(), spec)
    name=spec['name']; d=f'{V}/seeded/{name}'
    assert not sh('git status --porcelain', cwd=R).stdout.strip()
    try:
        for f,old,new in spec['edits']:
            s=open(f'{R}/{f}').read()
            assert s.count(old)==1, (f, s.count(old), old)
            open(f'{R}/{f}','w').write(s.replace(old,new))
        diff=sh('git diff', cwd=R).stdout
    finally:
        sh('git checkout -- .', cwd=R)
    os.makedirs(d, exist_ok=True)
    open(d+'/patch.diff','w').write(diff)
    open(d+'/demo.cc','w').write(spec['demo'])
    open(d+'/demo.sh','w').write(DEMO % spec.get('flags',''))
    os.chmod(d+'/demo.sh', 0o755)
    json.dump({'property':spec['prop'],'needs':spec['needs'],'what_it_breaks':spec['breaks']}, open(d+'/meta.json','w'), indent=1)
    ok=confirm(d)
    if not ok and '--keep' not in sys.argv: shutil.rmtree(d)
    print(name, 'KEPT' if ok else 'REJECTED')
def confirm(d):
    r=sh('bash /opt/vp/build.sh')
    r=sh(f'bash {d}/demo.sh', cwd=R)
    if r.returncode: print('demo fails on the unchanged tree', r.returncode, r.stdout[-2000:], r.stderr[-2000:]); return False
    ok=False
    try:
        r=sh(f'git apply {d}/patch.diff', cwd=R)
        if r.returncode: print('does not apply', r.stderr); return False
        r=sh('bash /opt/vp/test.sh /tmp/seed.json')
        res=json.load(open('/tmp/seed.json')); base=json.load(open('/opt/vp/BASELINE.json'))
        want=set(base if isinstance(base,list) else base.get('passed') or base.get('tests') or base.get('stable'))
        miss=[t for t in want if t not in set(res['passed'])]
        if miss: print('tests fail with the patch:', miss[:5], r.stdout[-300:]); return False
        r=sh(f'bash {d}/demo.sh', cwd=R)
        if r.returncode in (0,2): print('demo does not fail with the patch', r.returncode, r.stdout[-500:], r.stderr[-1500:]); return False
        print('demo with patch:', r.returncode, (r.stdout+r.stderr)[-200:].strip())
        ok=True
    finally:
        sh('git checkout -- .', cwd=R); sh('bash /opt/vp/build.sh')
    return ok
main()
