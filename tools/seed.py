#!/usr/bin/env python3
"""seed.py make ID PROP EDITS.py DEMO.cpp : plants a bug in /repo, checks that it counts, and stores it in seeded/ID.
seed.py try ID                            : runs the check of the bug's property with the bug planted (not a check itself)."""
import json, os, subprocess, sys, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
DEMO_SH = '''#!/bin/bash
# exit 0 when the behaviour is right, non zero otherwise. Run with cwd /repo, after the build.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'find "$T" -delete' EXIT
export LC_ALL=C.UTF-8
R=$PWD
g++ -std=c++11 -include cmath -w -O0 -I"$R/include" -I"$R/src" -I"$R/extensions/iidm/include" -I"$R/extensions/entsoe/include" -I"$R/extensions/sld/include" -I/usr/include/libxml2 \\
  "$D/demo.cpp" -o "$T/demo" -L"$R/_build/src" -liidm -L"$R/_build/extensions/iidm" -L"$R/_build/extensions/entsoe" -L"$R/_build/extensions/sld" @LIBS@ \\
  -Wl,-rpath,"$R/_build/src:$R/_build/extensions/iidm:$R/_build/extensions/entsoe:$R/_build/extensions/sld" -lxml2 -lboost_filesystem -lboost_system -lboost_date_time -lpthread || exit 3
cd "$T"
timeout 120 ./demo
'''
def sh(c, **k): return subprocess.run(c, shell=isinstance(c, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)
def stable(out):
    base = json.load(open('/opt/vp/BASELINE.json'))
    res = json.load(open(out))
    return base, res
def check(prop):
    t = time.time()
    r = sh('cd %s && python3 check.py %s --tier quick' % (V, prop))
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    return r.returncode, v, r.stdout, time.time() - t
def main():
    cmd, bid = sys.argv[1:3]
    d = os.path.join(V, 'seeded', bid)
    assert not sh('git -C %s status --porcelain' % R).stdout.strip(), 'repo dirty'
    try:
        if cmd == 'make':
            prop, needs, breaks = sys.argv[3:6]
            demo = sys.argv[6]; patch = sys.argv[7]
            os.makedirs(d, exist_ok=True)
            shutil.copy(demo, d + '/demo.cpp'); 
            if os.path.abspath(patch) != d + '/patch.diff': shutil.copy(patch, d + '/patch.diff')
            libs = ' '.join(sys.argv[8:])
            open(d + '/demo.sh', 'w').write(DEMO_SH.replace('@LIBS@', libs)); os.chmod(d + '/demo.sh', 0o755)
            json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
            r0 = sh('bash %s/demo.sh' % d, cwd=R)
            if r0.returncode: print('DEMO FAILS ON CLEAN TREE'); print(r0.stdout[-3000:]); return 1
        prop = json.load(open(d + '/meta.json'))['property']
        r = sh(['git', '-C', R, 'apply', d + '/patch.diff'])
        if r.returncode: print('PATCH DOES NOT APPLY', r.stdout); return 1
        if cmd in ('make', 'full'):
            r = sh('bash /opt/vp/test.sh /tmp/seed_out.json')
            try:
                base = json.load(open('/opt/vp/BASELINE.json')); out = json.load(open('/tmp/seed_out.json'))
                stable = set(base.get('stable', base.get('passed', base if isinstance(base, list) else [])))
                passed = set(out.get('passed', [k for k, v in out.items() if v in (True, 'passed', 'pass')]))
                miss = sorted(stable - passed)
            except Exception as e: miss = [repr(e)]
            if miss: print('TESTS FAIL', miss[:5])
            else: print('tests pass')
            r = sh('bash %s/demo.sh' % d, cwd=R)
            print('demo with the bug:', r.returncode, r.stdout[-400:].strip())
            if r.returncode == 0: print('DEMO DOES NOT FAIL')
        rc, v, o, t = check(prop)
        print(bid, prop, 'CAUGHT' if rc == 1 and v else 'MISSED rc=%d' % rc, '%.0f s' % t)
        print('\n'.join(o.splitlines()[-5:])[-1200:])
    finally:
        sh('git -C %s checkout -- .' % R)
    return 0
sys.exit(main())
