#!/usr/bin/env python3
"""systematic small mutations of the Rust sources in a scratch copy: builds, runs the checks until one reports. usage: mutants.py WORKDIR [--from N] [--only SUBSTRING] [--first]: only the checks of the file
results are appended to WORKDIR/log as they come. Uses copies of /repo and of /verif (with their paths rewritten), never the originals."""
import json, os, re, shutil, subprocess, sys
W = sys.argv[1]
R, V = W + '/repo', W + '/verif'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
if not os.path.exists(W):
    os.makedirs(W)
    sh('git clone -q /repo %s; git clone -q /verif %s; cp -a /verif/.build %s/.build; cp -a /repo/rust/target %s/rust/' % (R, V, V, R))
    sh(r"cd %s && sed -i 's#/verif\b#%s#g; s#/repo\b#%s#g' env.sh build.sh check.sh mc/launch.py" % (V, V, R))
    print(sh('cd %s && bash build.sh' % V).stdout.decode())
S = R + '/rust/src/'
ORDER = {'api/booking/accumulator.rs': 'C08 C04 C05 C06 C12 C13 C07 C10 C20 C09 C11 C16 C15 C22 C02 C27', 'api/booking/types.rs': 'C10 C11 C09 C13 C16 C15 C22', 'api/booking.rs': 'C13 C20 C04 C22 C15', 'api/server.rs': 'C01 C21 C18 C17 C19 C20 C14 C15 C13 C03 C22 C02 C27', 'api/json_rpc.rs': 'C01 C03 C21 C22 C02',
  'api/types.rs': 'C15 C21 C19 C13 C14 C12 C04', 'api/types/booked.rs': 'C13 C14 C16 C15 C10', 'api/types/booking_type_conversions.rs': 'C10 C20 C13', 'api/types/parser_type_conversions.rs': 'C14 C20 C15 C17 C21 C16 C19', 'api/types/raw.rs': 'C13 C14 C03 C16 C11 C10 C22', 'api/types/serializers.rs': 'C13 C14 C16 C03',
  'bin/limabean-pod/errors.rs': 'C26 C01 C21 C27', 'bin/limabean-pod/main.rs': 'C26 C27 C01', 'bin/limabean/main.rs': 'C24 C25 C23', 'bin/limabean/health.rs': 'C25 C24', 'bin/limabean/run.rs': 'C23 C24 C25'}
ALL = ['C%02d' % i for i in range(1, 28)]
OPS = [(r' == ', ' != '), (r' != ', ' == '), (r' < (?=[a-z0-9])', ' <= '), (r' > (?=[a-z0-9])', ' >= '), (r' <= ', ' < '), (r' >= ', ' > '), (r' && ', ' || '), (r' \|\| ', ' && '), (r'\bif !', 'if '), (r'(?<=[ (])!(?=[a-z_]+[.( ])', ''), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
  (r' \+ 1\b', ''), (r' \+ ', ' - '), (r' - ', ' + '), (r' \+= ', ' -= '), (r' -= ', ' += '), (r' \* ', ' + '), (r'\.is_some\(\)', '.is_none()'), (r'\.is_none\(\)', '.is_some()'), (r'(\S+)\.is_empty\(\)', r'(!\1.is_empty())'), (r'\.rev\(\)', ''), (r'\.abs\(\)', ''), (r'\.skip\(1\)', ''), (r'\.filter\(.*\)$', ''), (r'\.chain\(.*\)$', ''),
  (r'\b0\b', '1'), (r'\b1\b', '2'), (r'\b2\b', '1'), (r'-(\d{5})', r'-1\1'), (r'(^\s*\w+: )Some\(.*\),$', r'\1None,'), (r'(^\s*)(?!let|return|use|pub|mod|type|const|static|//|#)([^/\n]*[^ {},(]);$', r'\1();'), (r'(^\s*)continue;', r'\1();'), (r'(^\s*)break;', r'\1();'), (r'\.min\(', '.max('), (r'\.max\(', '.min('), (r'"([a-z][a-z-]+)"', r'"\1x"'),
  (r'(^\s*\w+): self\.\w+,?$', r'\1: Default::default(),'), (r'(^\s*\w+): \w+\.\w+(\.clone\(\)|\.as_ref\(\))?,$', r'\1: Default::default(),'), (r'(^\s*)(\w+),$', r'\1\2: Default::default(),'), (r'\bif let Some\((\w+)\) = (.*) \{$', r'if let Some(\1) = (\2).filter(|_| false) {'), (r'\bif (?!let)(.*) \{$', r'if false && (\1) {'), (r'\bif (?!let)(.*) \{$', r'if true || (\1) {'), (r'\.or_else\(.*\)$', ''), (r'\.unwrap_or\(.*\)', '.unwrap_or_default()'), (r'\.extend\(.*\);', '.clear();'), (r'\.push\(', '.insert(0, '), (r'\.entry\(', '.entry('), (r'\bfirst\(\)', 'last()'), (r'\blast\(\)', 'first()'), (r'\.sort[a-z_]*\(.*\);', '.len();'), (r'\.insert\((.*), (.*)\);', r'.remove(\1);')]
def mutants():
    for f in ORDER:
        src = open(S + f).read().split('\n')
        for i, l in enumerate(src):
            if l.strip() == '#[cfg(test)]': break
            if l.strip().startswith(('//', '#[', 'use ', 'tracing::')): continue
            seen = {l}
            for a, b in OPS:
                for m in re.finditer(a, l):
                    n = l[:m.start()] + m.expand(b) + l[m.end():]
                    if n in seen: continue
                    seen.add(n); yield f, i, l, n
def check(c):
    r = sh('cd %s && . ./env.sh && timeout 300 python3 -m mc.main %s' % (V, c), executable='/bin/bash')
    return r.returncode == 1 and b'VIOLATION' in r.stdout, r
ms = list(mutants())
start = int(sys.argv[sys.argv.index('--from') + 1]) if '--from' in sys.argv else 0
only = sys.argv[sys.argv.index('--only') + 1] if '--only' in sys.argv else ''
log = open(W + '/log', 'a')
def say(*a): print(*a, flush=True); print(*a, file=log, flush=True)
say(len(ms), 'mutants')
for k, (f, i, old, new) in enumerate(ms):
    if k < start or only not in f: continue
    p = S + f
    src = open(p).read().split('\n'); assert src[i] == old
    src[i] = new
    open(p, 'w').write('\n'.join(src))
    try:
        head = '%d %s:%d  %s  =>  %s' % (k, f, i + 1, old.strip(), new.strip())
        if sh('bash %s/build.sh' % V).returncode: say('nobuild', head); continue
        by = None
        first = ORDER[f].split()
        for c in first + [c for c in ALL if c not in first and '--first' not in sys.argv]:
            ok, r = check(c)
            if ok: by = c; break
            if r.returncode: say('  rc', r.returncode, c, r.stdout.decode()[-300:])
        if by is None:
            t = sh('cd %s/rust && cargo test --offline --locked 2>&1 | grep -c "test result: FAILED"' % R).stdout.decode().strip()
            say('SURVIVES', head, '' if t == '0' else '(tests fail)')
        else: say(by, head)
    finally: sh('git -C %s checkout -q -- .' % R)
