#!/usr/bin/env python3
"""Planted bugs.  seed.py test ID...: applies seeded/ID to /repo, builds, runs the tests, its demo and its property's check, and undoes it."""
import glob, json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('VF_REPO', '/repo')
DEMO = '''#!/bin/bash
# Compiles demo.cpp against the sources of the current tree and runs it in a scratch directory.
d=$(cd "$(dirname "$0")" && pwd); r=$(pwd); w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
g++ -std=c++17 -g -O1 -w %s -I "$r/Code/Terathon" -I "$r/Code/Json4C4" "$d/demo.cpp" "$r"/Code/Json4C4/*.cpp "$r"/Code/Terathon/*.cpp -o "$w/demo" || exit 2
cd "$w" && timeout 120 ./demo
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def make(id, prop, edits, demo, needs, what, flags='-fsanitize=address,undefined -fno-sanitize-recover=undefined'):
    assert not sh('git -C ' + R + ' status --porcelain').stdout.strip()
    d = V + '/seeded/' + id
    os.makedirs(d, exist_ok=True)
    for f, a, b in edits:
        p = R + '/' + f
        s = open(p).read()
        assert s.count(a) == 1, (f, s.count(a), a)
        open(p, 'w').write(s.replace(a, b))
    open(d + '/patch.diff', 'w').write(sh('git -C ' + R + ' diff').stdout)
    sh('git -C ' + R + ' checkout -- .')
    open(d + '/demo.cpp', 'w').write(demo)
    open(d + '/demo.sh', 'w').write(DEMO % flags)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': what}, open(d + '/meta.json', 'w'), indent=1)
    return test(id)


def build():
    """Builds and tests the current tree; returns what failed.  A copy of /repo (VF_REPO) is built beside itself."""
    if R == '/repo':
        r = sh('bash /opt/vp/build.sh')
        if r.returncode: return 'BUILD FAILS ' + r.stdout[-800:]
        sh('bash /opt/vp/test.sh /tmp/seed_tests.json')
        t = open('/tmp/seed_tests.json').read()
        return '' if '"failed": []' in t else 'TESTS FAIL ' + t
    b = R + '.build'
    r = sh('cmake -S %s -B %s -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DFETCHCONTENT_FULLY_DISCONNECTED=ON && cmake --build %s -j 8' % (R, b, b))
    if r.returncode: return 'BUILD FAILS ' + r.stdout[-800:]
    r = sh('cmake -E rm -rf %s/bin/Data; cmake -E copy_directory %s/Data %s/bin/Data; ctest --test-dir %s -j 8 --timeout 60' % (b, R, b, b))
    return 'TESTS FAIL ' + r.stdout[-600:] if r.returncode else ''


def test(id, check=True, props=None):
    d = V + '/seeded/' + id
    meta = json.load(open(d + '/meta.json'))
    props = props or [meta['property']]
    out = []
    assert not sh('git -C ' + R + ' status --porcelain').stdout.strip()
    r = sh('bash %s/demo.sh' % d, cwd=R)
    if r.returncode: out.append('DEMO FAILS CLEAN %s' % r.stdout[-600:])
    r = sh('git -C %s apply %s/patch.diff' % (R, d))
    if r.returncode: return print(id, 'DOES NOT APPLY', r.stdout)
    try:
        # lines removed by the patch have to be lines of the original repository
        b = build()
        if b: out.append(b)
        r = sh('bash %s/demo.sh' % d, cwd=R)
        if r.returncode in (0, 2): out.append('DEMO rc %d with patch %s' % (r.returncode, r.stdout[-600:]))
        else: out.append('demo ok: ' + (r.stdout.strip().splitlines() or [''])[0][:100])
        if check:
            for p in props:
                t0 = time.time()
                r = sh('python3 check.py run %s' % p, cwd=V)
                v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION property=%s ' % p)]
                out.append('%s rc %d %.0fs %s' % (p, r.returncode, time.time() - t0, 'CAUGHT ' + r.stdout.splitlines()[1].strip()[:160] if r.returncode == 1 and v else 'MISSED ' + r.stdout[-300:]))
    finally:
        sh('git -C ' + R + ' checkout -- .')
        if R == '/repo': sh('bash /opt/vp/build.sh')
    print(id, '|', ' | '.join(out), flush=True)


if __name__ == '__main__':
    ids = sys.argv[2:] or sorted(os.path.basename(os.path.dirname(p)) for p in glob.glob(V + '/seeded/*/patch.diff'))
    for i in ids: test(i)
