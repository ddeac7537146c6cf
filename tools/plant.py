#!/usr/bin/env python3
"""plant.py ID PROP SPEC.py: makes /verif/seeded/ID from a spec (edits=[(file, old, new)], demo=C++ or shell text,
needs, breaks) after confirming in a scratch copy of /repo: builds, stable tests pass, the demo tells it apart."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get('PLANT_DIR', '/tmp/w/pl/repo')


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **k)


def reset():
    if not os.path.isdir(S):
        sh('mkdir -p $(dirname %s) && cp -a /repo %s && rm -rf %s/_build' % (S, S, S))
        r = sh('cd %s && cmake -S . -B _build -G Ninja -DCMAKE_CXX_COMPILER=g++-14 -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_FLAGS_RELWITHDEBINFO="-O2 -g" '
               '-DCTHASH_TESTS=ON -DCTHASH_COVERAGE=OFF -DCTHASH_EXAMPLES=ON -DMEASURE_OPENSSL=OFF -DFORCE_COLORED_OUTPUT=OFF' % S)
        print(r.stdout[-200:], r.stderr[-300:])
    sh('cd %s && git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD' % S)


def tests():
    r = sh('ninja -C %s/_build' % S)
    if r.returncode:
        return 'build: ' + r.stdout[-1500:]
    r = sh('timeout 400 %s/_build/tests/test-runner --skip-benchmarks 2>&1 | tail -4' % S)
    return None if 'All tests passed' in r.stdout else r.stdout


def main():
    pid, prop, spec = sys.argv[1:4]
    g = {}
    exec(open(spec).read(), g)
    d = os.path.join(V, 'seeded', pid)
    reset()
    for f, old, new in g['edits']:
        p = os.path.join(S, f)
        t = open(p).read()
        if t.count(old) != 1:
            print('EDIT matches %d times: %s' % (t.count(old), old)); return 1
        open(p, 'w').write(t.replace(old, new))
    diff = sh('cd %s && git diff' % S).stdout
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    if 'demo_sh' in g:
        open(os.path.join(d, 'demo.sh'), 'w').write(g['demo_sh'])
        for n, t in g.get('files', {}).items():
            open(os.path.join(d, n), 'w').write(t)
    else:
        open(os.path.join(d, 'demo.cpp'), 'w').write(g['demo'])
        open(os.path.join(d, 'demo.sh'), 'w').write('''#!/bin/bash
# builds and runs demo.cpp against the headers of the current directory (/repo)
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
%s %s -I include "$here/demo.cpp" -o "$tmp/demo" || exit 2
"$tmp/demo"
''' % (g.get('cxx', 'g++-14'), g.get('flags', '-std=c++23 -O2')))
    json.dump({'property': prop, 'needs': g['needs'], 'what_it_breaks': g['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    t = tests()
    if t:
        print('TESTS FAIL', t[-1200:]); shutil.rmtree(d); return 1
    r1 = sh(['bash', d + '/demo.sh'], cwd=S)
    sh('cd %s && git checkout -q -- .' % S)
    r0 = sh(['bash', d + '/demo.sh'], cwd='/repo')
    print(pid, 'demo clean:', r0.returncode, r0.stdout[-200:], r0.stderr[-300:], 'patched:', r1.returncode, r1.stdout[-200:], r1.stderr[-200:])
    if r0.returncode != 0 or r1.returncode == 0:
        shutil.rmtree(d); print('NOT KEPT'); return 1
    return 0


sys.exit(main())
