#!/usr/bin/env python3
"""writes /verif/seeded/<id>/ (/verif/planted_clj/<id>/ if in the Clojure half) from the definitions in defs*.py here: patch.diff (checked to apply), demo.sh, demo.py, demo_lib.py, meta.json"""
import glob, json, os, shutil, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(H)); R = '/repo/'
S = []
BASE = '33d8bb3'
A = 'rust/src/api/'
ACC = A + 'booking/accumulator.rs'; SRV = A + 'server.rs'; RPC = A + 'json_rpc.rs'; BTY = A + 'booking/types.rs'; BK = A + 'booking.rs'
CONV = A + 'types/parser_type_conversions.rs'; SER = A + 'types/serializers.rs'; RAW = A + 'types/raw.rs'; TY = A + 'types.rs'; BKD = A + 'types/booked.rs'; BCV = A + 'types/booking_type_conversions.rs'
POD = 'rust/src/bin/limabean-pod/main.rs'; RUN = 'rust/src/bin/limabean/run.rs'; LM = 'rust/src/bin/limabean/main.rs'; HL = 'rust/src/bin/limabean/health.rs'
def seed(id, prop, edits, needs, breaks, demo): S.append((id, prop, edits, needs, breaks, demo))
for f in sorted(glob.glob(H + '/defs*.py')): exec(open(f).read())
only = sys.argv[1:]
for id, prop, edits, needs, breaks, demo in S:
    if only and id not in only: continue
    d = os.path.join(V, 'planted_clj' if edits[0][0].endswith('.clj') else 'seeded', id); os.makedirs(d, exist_ok=True)
    t = '/tmp/seedmk'; shutil.rmtree(t, ignore_errors=True)
    byfile = {}
    for f, old, new in edits:
        s = byfile.get(f) or open(R + f).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        byfile[f] = s.replace(old, new)
    out = ''
    for f, s in byfile.items():
        for x, c in (('a', open(R + f).read()), ('b', s)):
            p = os.path.join(t, x, f); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, 'w').write(c)
        out += subprocess.run(['diff', '-u', 'a/' + f, 'b/' + f], cwd=t, stdout=subprocess.PIPE, text=True).stdout
    shutil.rmtree(t)
    # without time stamps
    out = '\n'.join(l.split('\t')[0] if l.startswith(('--- ', '+++ ')) else l for l in out.split('\n'))
    open(d + '/patch.diff', 'w').write(out)
    subprocess.run(['git', '-C', R, 'apply', '--check', d + '/patch.diff'], check=True)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec python3 "$(dirname "$0")/demo.py"\n')
    open(d + '/demo.py', 'w').write('from demo_lib import *\n' + demo.strip() + '\n')
    for l in out.split('\n'):
        if l.startswith('-') and not l.startswith('---') and l[1:].strip():
            f = byfile and next(f for f in byfile if l[1:] in open(R + f).read().split('\n'))
            assert l[1:] in subprocess.run(['git', '-C', R, 'show', BASE + ':' + f], stdout=subprocess.PIPE, text=True).stdout.split('\n'), (id, 'a line of ours', l)
    if 'clj(' in demo or 'loaded(' in demo: subprocess.run("tar c --sort=name --mtime=@0 --owner=0 --group=0 -C %s/clj src lib | gzip -n > %s/clj.tgz" % (V, d), shell=True, check=True)
    shutil.copy(H + '/demo_lib.py', d)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
print(len(S))
