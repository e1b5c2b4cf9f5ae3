"""Plants one bug: python3 plant.py SPEC.py

SPEC.py sets id, prop, needs, breaks, edits=[(file, old, new)], pkg (directory
of the demonstration) and demo (Go source of a test named TestDemo). The change
is built, run against the stable tests and shown by the demonstration in a
scratch copy of /repo, and only then kept under /verif/seeded.
"""
import json, os, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/plantwork'
ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod',
           PROTOTOOL_PROTOC_BIN_PATH='/usr/bin/protoc', PROTOTOOL_PROTOC_WKT_PATH='/usr/include')
DEMO = '''#!/bin/sh
# Runs demo_test.go inside PKG of the tree in the current directory.
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 3
printf '{"Replace":{"%s/PKG/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$d" > "$t/overlay.json"
TMPDIR="$t" go test -vet=off -count=1 -timeout 240s -overlay "$t/overlay.json" -run '^TestDemo$' ./PKG
r=$?
rm -rf "$t"
exit $r
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, cwd=W, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def main(spec):
    g = {}
    exec(open(spec).read(), g)
    shutil.rmtree(W, ignore_errors=True)
    shutil.copytree('/repo', W, symlinks=True)
    for f, old, new in g['edits']:
        p = os.path.join(W, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    diff = sh(['git', 'diff']).stdout
    assert diff
    r = sh(['go', 'build', './...'])
    if r.returncode: return print('DOES NOT BUILD', r.stdout)
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    r = sh(['go', 'test', '-json', '-vet=off', '-count=1', '-skip', '^TestDownload$', './...'])
    ok = set()
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get('Action') == 'pass' and e.get('Test'): ok.add(e['Package'] + '/' + e['Test'])
    lost = sorted(stable - ok)
    if lost: return print('BREAKS TESTS', lost)
    D = os.path.join('/tmp', 'plantdemo')
    shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
    open(D + '/demo.sh', 'w').write(DEMO.replace('PKG', g['pkg'])); os.chmod(D + '/demo.sh', 0o755)
    open(D + '/demo_test.go', 'w').write(g['demo'])
    a = sh(['sh', D + '/demo.sh'])
    sh(['git', 'checkout', '--', '.'])
    b = sh(['sh', D + '/demo.sh'])
    print(g['id'], 'with patch:', a.returncode, 'without:', b.returncode)
    if a.returncode == 0 or b.returncode != 0 or 'FAIL' not in a.stdout or 'build failed' in a.stdout:
        return print('DEMO WRONG\nWITH:\n', a.stdout[-1500:], '\nWITHOUT:\n', b.stdout[-1500:])
    K = os.path.join(V, 'seeded', g['id'])
    shutil.rmtree(K, ignore_errors=True)
    shutil.copytree(D, K)
    open(K + '/patch.diff', 'w').write(diff)
    json.dump({'property': g['prop'], 'needs': g['needs'], 'what_it_breaks': g['breaks']}, open(K + '/meta.json', 'w'), indent=1)
    print('kept', K)

for s in sys.argv[1:]:
    main(s)
shutil.rmtree(W, ignore_errors=True)
