#!/usr/bin/env python3
"""planted bugs: seed.py new SPEC.json | seed.py test ID | seed.py check ID PID..."""
import json, os, subprocess, sys
R = os.environ.get('SEED_REPO', '/repo')           # where new() makes the change
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, 'seeded')
DEMO = '''#!/bin/bash
# exit 0 iff the behaviour is right; run in the repository after its build
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export OPENBLAS_NUM_THREADS=1 LD_LIBRARY_PATH=$PWD/_build/cmake
gcc -O1 -g -fopenmp -I_build/src/include -I_build/cmake/include -Iinclude "$d/demo.c" -o "$t/demo" -L_build/cmake -lplasma -lplasma_core_blas -llapacke -lblas -llapack -lm -ldl %s || exit 2
export OMP_NUM_THREADS=%s
timeout 200 "$t/demo" > "$t/out" 2>&1
rc=$?
tail -5 "$t/out"
exit $rc
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, **k)


def new(i, prop, edits, needs, breaks, demo, threads=4, extra=''):
    d = os.path.join(S, i)
    os.makedirs(d, exist_ok=True)
    assert not sh('git -C %s status --porcelain' % R, capture_output=True, text=True).stdout.strip()
    for f, o, n in edits:
        p = R + '/' + f
        s = open(p).read()
        assert s.count(o) == 1, (f, o, s.count(o))
        open(p, 'w').write(s.replace(o, n))
    open(os.path.join(d, 'patch.diff'), 'w').write(sh('git -C %s diff' % R, capture_output=True, text=True).stdout)
    sh('git -C %s checkout -q -- .' % R)
    open(os.path.join(d, 'demo.c'), 'w').write(demo)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % (extra, threads))
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)


def test(i, tests=True):
    d = os.path.join(S, i)
    out = {}
    assert sh('git -C /repo apply %s/patch.diff' % d).returncode == 0
    try:
        b = sh('bash /opt/vp/build.sh', capture_output=True, text=True)
        out['build'] = b.returncode
        if b.returncode:
            print(b.stdout[-1500:])
        if tests:
            sh('bash /opt/vp/test.sh /tmp/seed.json', stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            r = json.load(open('/tmp/seed.json'))
            st = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            miss = sorted(st - set(r['passed']))
            out['stable_failing'] = (len(miss), miss[:3])
        x = sh('cp -r %s /tmp/seedrun && cd /repo && /tmp/seedrun/demo.sh; rc=$?; rm -rf /tmp/seedrun; exit $rc' % d, capture_output=True, text=True)
        out['demo_patched'] = (x.returncode, x.stdout[-300:])
    finally:
        sh('git -C /repo checkout -q -- .')
        sh('bash /opt/vp/build.sh > /dev/null')
    x = sh('cp -r %s /tmp/seedrun && cd /repo && /tmp/seedrun/demo.sh; rc=$?; rm -rf /tmp/seedrun; exit $rc' % d, capture_output=True, text=True)
    out['demo_clean'] = (x.returncode, x.stdout[-300:])
    ok = out['build'] == 0 and out.get('stable_failing', (0,))[0] == 0 and out['demo_patched'][0] != 0 and out['demo_clean'][0] == 0
    print(i, 'OK' if ok else 'BAD', json.dumps(out))
    return ok


def check(i, pids):
    d = os.path.join(S, i)
    assert sh('git -C /repo apply %s/patch.diff' % d).returncode == 0
    try:
        for p in pids or [json.load(open(d + '/meta.json'))['property']]:
            x = sh('cd %s && VERIF_SEED=1 python3 check.py %s' % (V, p), capture_output=True, text=True)
            v = [l for l in x.stdout.split('\n') if not l.startswith('[')]
            print(i, p, 'rc=%d' % x.returncode, (v[0][:300] if v else ''), flush=True)
    finally:
        sh('git -C /repo checkout -q -- .')


if __name__ == '__main__':
    c = sys.argv[1]
    if c == 'test':
        for i in sys.argv[2:]:
            test(i)
    elif c == 'demo':
        for i in sys.argv[2:]:
            test(i, False)
    elif c == 'check':
        check(sys.argv[2], sys.argv[3:])
    elif c == 'checkall':
        for i in sorted(os.listdir(S)):
            check(i, [])
