#!/usr/bin/env python3
"""mkseed.py SPEC.py : SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++ body), optional SRC (sources compiled into the demo instead of the built library).
Makes /verif/seeded/ID after confirming in a scratch copy of /repo that it builds, passes the stable tests, and that the demo passes without and fails with it."""
import json, os, shutil, subprocess, sys, tempfile
ns = {}
exec(open(sys.argv[1]).read(), ns)
D = '/verif/seeded/' + ns['ID']
os.makedirs(D, exist_ok=True)
W = tempfile.mkdtemp(prefix='seed_')
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
try:
    R = W + '/repo'
    sh('git clone -q /repo %s' % R)
    for f, a, b in ns['EDITS']:
        p = R + '/' + f
        s = open(p).read()
        assert s.count(a) == 1, (f, a, s.count(a))
        open(p, 'w').write(s.replace(a, b))
    d = sh('git diff', cwd=R).stdout
    open(D + '/patch.diff', 'w').write(d)
    open(D + '/demo.cpp', 'w').write(ns['DEMO'])
    open(D + '/demo.sh', 'w').write('''#!/bin/bash
# run in the root of the repository after it was built
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
g++ -std=c++20 -w -O1 -DBUILD_TESTS -DNDEBUG -D'CURA_ENGINE_VERSION="x"' -D'CURA_ENGINE_HASH="x"' %s -Iinclude -I/usr/include/stb "$here/demo.cpp" %s _build/lib_CuraEngine.a -lpolyclipping -lfmt -lspdlog -ltbb -lpthread -o "$t/demo" || exit 3
timeout 120 "$t/demo"
''' % (ns.get('FLAGS', ''), ns.get('SRC', '')))
    os.chmod(D + '/demo.sh', 0o755)
    json.dump(dict(property=ns['PROP'], needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']), open(D + '/meta.json', 'w'), indent=1)
    r = subprocess.run([D + '/demo.sh'], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print('demo on clean tree:', r.returncode, r.stdout[-1500:])
    # try the patch in a scratch copy at the same path: build in a mount-less way, by a copy with rewritten paths
    if '--fast' not in sys.argv:
        sh('git -C /repo apply %s/patch.diff' % D)
        try:
            b = sh('bash /opt/vp/build.sh')
            print('build', b.returncode, b.stdout[-600:] if b.returncode else '')
            t = sh('bash /opt/vp/test.sh %s/t.json' % W)
            res = json.load(open(W + '/t.json'))
            base = json.load(open('/opt/vp/BASELINE.json'))
            print('tests', t.stdout[-300:])
            r2 = subprocess.run([D + '/demo.sh'], cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            print('demo with the change:', r2.returncode, r2.stdout[-600:])
            if '--check' in sys.argv:
                c = sh('python3-vt run.py %s quick' % ns['PROP'], cwd='/verif')
                print('CHECK', c.returncode, c.stdout[-1500:])
        finally:
            sh('git -C /repo checkout -- .')
            sh('bash /opt/vp/build.sh')
        miss = [x for x in base['stable'] if x not in res['passed']]
        print('STABLE TESTS LOST:', miss)
finally:
    shutil.rmtree(W, ignore_errors=True)
