#!/usr/bin/env python3
"""applies planted bugs to /repo one after another: builds, runs the stable tests and the demonstration, then checks; undoes. usage: mutate.py [--all-checks] [--no-demo] ID..."""
import json, os, re, subprocess, sys, time
V = '/verif'; R = '/repo'
args = [a for a in sys.argv[1:] if not a.startswith('--')]
ids = args or sorted(os.listdir(V + '/seeded')) + sorted(os.listdir(V + '/planted_clj'))
def at(i): return next(d for d in (V + '/seeded/' + i, V + '/planted_clj/' + i) if os.path.isdir(d))
stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
assert not sh('git -C /repo status --porcelain').stdout
def clean(): sh('git -C /repo checkout -q -- .')
res = {}
if '--no-demo' not in sys.argv:
    sh('bash /opt/vp/build.sh')
    for i in ids:
        r = sh('bash %s/demo.sh' % at(i), cwd=R)
        if r.returncode: print(i, 'DEMO FAILS on the unchanged tree', r.stdout.decode()[-500:]); res[i] = 'bad'
for i in ids:
    if res.get(i): continue
    m = json.load(open(at(i) + '/meta.json'))
    try:
        r = sh('git -C /repo apply %s/patch.diff' % at(i))
        if r.returncode: print(i, 'DOES NOT APPLY', r.stdout); continue
        if '--no-demo' not in sys.argv:
            r = sh('bash /opt/vp/build.sh')
            if r.returncode: print(i, 'DOES NOT BUILD', r.stdout.decode()[-3000:]); continue
            sh('bash /opt/vp/test.sh /tmp/t.json')
            t = open('/tmp/t.json').read()
            r = sh('bash /opt/vp/test.sh /tmp/t.json')
            if r.returncode: print(i, 'TESTS FAIL', r.stdout.decode()[-800:]); continue
            r = sh('timeout 300 bash %s/demo.sh' % at(i), cwd=R)
            if r.returncode == 0: print(i, 'DEMO PASSES with the patch'); continue
            demo = r.stdout.decode().strip()[-160:]
        checks = [m['property']] if '--all-checks' not in sys.argv else ['C%02d' % k for k in range(1, 100) if os.path.exists('%s/mc/checks/c%02d.py' % (V, k))]
        got = []
        for c in checks:
            t0 = time.time()
            r = sh('cd %s && timeout 900 bash check.sh %s' % (V, c))
            o = r.stdout.decode('utf-8', 'replace')
            v = re.findall(r'^VIOLATION property=(\S+).*', o, re.M)
            if r.returncode == 1 and v: got.append(c)
            elif r.returncode: got.append(c + '!rc%d' % r.returncode)
        print(i, m['property'], 'CAUGHT' if m['property'] in got else 'MISSED', ' '.join(got), '%.0fs' % (time.time() - t0), flush=True)
    finally: clean()
sh('bash /opt/vp/build.sh')
