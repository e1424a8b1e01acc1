#!/usr/bin/env python3
"""seed.py NAME...: verifies seeded changes in a scratch copy: applies, builds, passes the tests, demo passes without and fails with it.
seed.py make NAME PROPERTY HEADER: writes patch.diff from the difference of /tmp/seedws/edit/HEADER to /repo"""
import os, shutil, subprocess, sys
V = '/verif/seeded'
W = '/tmp/seedws/repo'


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def prep():
    os.makedirs('/tmp/seedws', exist_ok=True)
    if not os.path.isdir(W):
        sh('git clone -q /repo ' + W)
    sh('git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD' % (W, W))
    if not os.path.isdir(W + '/_build'):
        r = sh('cmake -S %s -B %s/_build -G Ninja -DCMAKE_C_COMPILER=/usr/bin/gcc-14 -DCMAKE_CXX_COMPILER=/usr/bin/g++-14 -DCMAKE_BUILD_TYPE=Debug '
               '-DCMAKE_CXX_FLAGS="-fsanitize=address,undefined" -DWITH_BOOST=ON -DWITH_SVECTOR=OFF -DBUILD_TESTING=ON -DBUILD_EXAMPLES=ON '
               '-DDocTest_DIR=/opt/vp/cmake/doctest-alias' % (W, W))
        if r.returncode:
            sys.exit(r.stdout)
    build()


def build():
    r = sh('cmake --build %s/_build --parallel 8' % W)
    return r.returncode == 0, r.stdout


def tests():
    os.makedirs(W + '/_build/rep', exist_ok=True)
    sh('python3 /opt/vp/run_doctest.py %s/_build %s/_build/rep' % (W, W))
    bad = [l for l in open(W + '/_build/rep/results.txt') if l.startswith('FAIL')]
    import json
    stable = json.load(open('/opt/vp/BASELINE.json'))
    txt = json.dumps(stable)
    return [l for l in bad if json.dumps(l[5:].strip())[1:-1] in txt]


def one(n):
    d = V + '/' + n
    sh('git -C %s checkout -q -- .' % W)
    r0 = sh('timeout 300 bash %s/demo.sh' % d, cwd=W)
    a = sh('git -C %s apply %s/patch.diff' % (W, d))
    if a.returncode:
        return 'patch does not apply ' + a.stdout
    ok, out = build()
    if not ok:
        sh('git -C %s checkout -q -- .' % W)
        return 'does not build ' + out[-1500:]
    bad = tests()
    r1 = sh('timeout 300 bash %s/demo.sh' % d, cwd=W)
    sh('git -C %s checkout -q -- .' % W)
    ok = r0.returncode == 0 and r1.returncode != 0 and not bad
    return '%s demo clean=%d patched=%d failing tests=%s %s' % ('OK ' if ok else 'BAD', r0.returncode, r1.returncode, bad, '' if ok else (r0.stdout + r1.stdout)[-600:])


if __name__ == '__main__':
    prep()
    for n in sys.argv[1:] or sorted(os.listdir(V)):
        print(n, one(n), flush=True)
