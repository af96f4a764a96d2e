#!/usr/bin/env python3
"""tries ad-hoc changes of the Rust sources in a scratch copy: builds, runs the check of the property, and if it misses the change, all others. usage: trial.py WORKDIR FILE.py [NAME...]
FILE.py defines BUGS = {name: (property, [(file under rust/src, old, new), ...])}. Results are appended to WORKDIR/log."""
import os, runpy, subprocess, sys
W = sys.argv[1]; R, V = W + '/repo', W + '/verif'
BUGS = runpy.run_path(sys.argv[2])['BUGS']; names = sys.argv[3:] or list(BUGS)
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
if not os.path.exists(W):
    os.makedirs(W)
    sh('git clone -q /repo %s; git clone -q /verif %s; cp -a /verif/.build %s/.build; cp -a /repo/rust/target %s/rust/' % (R, V, V, R))
    sh(r"cd %s && sed -i 's#/verif\b#%s#g; s#/repo\b#%s#g' env.sh build.sh check.sh mc/launch.py" % (V, V, R))
sh('git -C %s checkout -q -- .; cp -a /verif/mc %s/; cd %s && sed -i "s#/verif\\b#%s#g; s#/repo\\b#%s#g" mc/launch.py' % (R, V, V, V, R))
log = open(W + '/log', 'a')
def say(*a): print(*a, flush=True); print(*a, file=log, flush=True)
def check(c):
    r = sh('cd %s && . ./env.sh && timeout 600 python3 -m mc.main %s' % (V, c), executable='/bin/bash')
    o = r.stdout.decode('utf-8', 'replace')
    return (r.returncode == 1 and 'VIOLATION' in o), r.returncode, o
for n in names:
    prop, edits = BUGS[n]
    try:
        bad = None
        for f, a, b in edits:
            p = R + '/rust/src/' + f; s = open(p).read()
            if s.count(a) != 1: bad = '%s: %d times: %s' % (f, s.count(a), a); break
            open(p, 'w').write(s.replace(a, b))
        if bad: say('EDIT', n, bad); continue
        r = sh('bash %s/build.sh' % V)
        if r.returncode: say('NOBUILD', n, r.stdout.decode()[-1500:]); continue
        by = []
        for c in prop.split():
            ok, rc, o = check(c)
            if ok: by.append(c); break
            if rc: say('  rc', rc, c, o[-300:])
        if not by:
            others = []
            for c in ['C%02d' % i for i in range(4, 23)] if os.environ.get('TRIAL_ALL') else []:
                if c in prop.split(): continue
                ok, rc, o = check(c)
                if ok: others.append(c)
            say('MISSED', n, prop, 'but caught by' if others else '', *others)
        else: say('caught', n, *by)
    finally: sh('git -C %s checkout -q -- .' % R)
