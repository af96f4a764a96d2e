#!/usr/bin/env python3
"""systematic small mutations of the Clojure sources in a scratch copy: runs the checks until one reports. usage: mutants_clj.py WORKDIR [--every N] [--offset K] [--only SUBSTRING]
results are appended to WORKDIR/log as they come. Uses copies of /repo and of /verif (with their paths rewritten), never the originals."""
import os, re, subprocess, sys
W = sys.argv[1]
R, V = W + '/repo', W + '/verif'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
if not os.path.exists(W):
    os.makedirs(W)
    sh('git clone -q /repo %s; git clone -q /verif %s; cp -a /verif/.build %s/.build' % (R, V, V))
    sh(r"cd %s && sed -i 's#/verif\b#%s#g; s#/repo\b#%s#g' env.sh build.sh check.sh mc/launch.py mc/clj.py clj/*.sh" % (V, V, R))
S = R + (sys.argv[sys.argv.index('--src') + 1] if '--src' in sys.argv else '/clj/src/')
ORDER = {'core/inventory': 'C28 C30 C29 C35 C36', 'core/rollup': 'C29 C35 C28', 'core/journal': 'C30 C35 C28', 'core/filters': 'C31 C36', 'core/xf': 'C31 C28 C30 C29', 'core/format': 'C32 C33', 'core/cell': 'C35 C36', 'core/registry': 'C28 C36', 'core/type': 'C32 C33 C36', 'adapter/loader': 'C33 C34 C36 C37 C38', 'adapter/plugins': 'C33 C34 C38 C36', 'adapter/pod': 'C37 C34 C33 C36', 'adapter/synthetic': 'C33 C34', 'adapter/error': 'C34 C36', 'adapter/exception': 'C36', 'adapter/user': 'C36', 'adapter/debug': 'C33', 'adapter/edn': 'C33 C39', 'adapter/print': 'C32 C36 C39', 'adapter/json': 'C33 C35', 'adapter/shell': 'C35 C37', 'adapter/show': 'C35 C36', 'adapter/tabulate': 'C35 C36 C37', 'adapter/logging': 'C36',
  'limabean/app': 'C36', 'limabean/main': 'C36', 'limabean/user': 'C36', 'limabean/macros': 'C36 C33', 'limabean/util': 'C33 C29', 'limabean/plugin': 'C34 C33', 'limabean/spec': 'C38 C33', 'limabean.clj': 'C28 C29 C30 C31 C36', 'auto_accounts': 'C33'}
ALL = sys.argv[sys.argv.index('--checks') + 1].split() if '--checks' in sys.argv else [f[:-3].upper() for f in sorted(os.listdir(V + '/mc/checks')) if re.fullmatch(r'c(2[89]|3\d)\.py', f)]
TOKEN = re.compile(r'[\s,]+|;[^\n]*|"(?:\\.|[^"\\])*"|#"(?:\\.|[^"\\])*"|\\(?:[a-z]+|.)|#\{|#\(|#_|#\'|[()\[\]{}]|[\'`@^~]@?|[^\s,()\[\]{}"\';`@^~\\]+', re.S)
def parse(text):
    """forms as (start, end, opening or None, children)"""
    out, stack = [], []
    for m in TOKEN.finditer(text):
        t = m.group(0)
        if not t.strip(' \n\t,') or t[0] == ';': continue
        if t in '([{' or t in ('#{', '#('): stack.append((m.start(), t, []))
        elif t in ')]}':
            s, o, ch = stack.pop()
            (stack[-1][2] if stack else out).append((s, m.end(), o, ch))
        else: (stack[-1][2] if stack else out).append((m.start(), m.end(), None, ()))
    return out
SWAP = {'=': 'not=', 'not=': '=', '<': '<=', '<=': '<', '>': '>=', '>=': '>', '+': '-', '-': '+', 'inc': 'identity', 'dec': 'inc', 'first': 'last', 'second': 'first', 'last': 'first', 'rest': 'identity', 'filter': 'remove', 'remove': 'filter', 'filterv': 'mapv', 'some': 'every?', 'some?': 'nil?', 'nil?': 'some?', 'empty?': 'seq', 'seq': 'empty?', 'and': 'or', 'or': 'and', 'when': 'when-not', 'when-not': 'when', 'if-not': 'if', 'true': 'false', 'false': 'true', 'not': 'identity', 'merge': '(fn [& ms] (apply merge (reverse ms)))', 'max': 'min', 'min': 'max', 'sort': 'identity', 'assoc-in': 'assoc-in', 'concat': '(fn [& xs] (apply concat (reverse xs)))', 'into': 'into', 'zero?': 'pos?', 'interpose': '(fn [_ xs] xs)', 'keep': 'map', 'mapcat': 'map', 'butlast': 'identity', 'starts-with?': 'ends-with?', 'str/starts-with?': 'str/ends-with?', 'str/ends-with?': 'str/starts-with?', 'neg?': 'pos?', 'pos?': 'neg?', 'vals': 'keys', 'keys': 'vals', 'contains?': '(complement contains?)', 'reverse': 'identity', 'conj': '(fn [c & _] c)', 'distinct': 'identity', 'print': 'println', 'println': 'print'}
def mutants(text):
    """(start, end, replacement)"""
    def walk(f, parent, i):
        s, e, o, ch = f
        t = text[s:e]
        if o is None:
            if t in SWAP and SWAP[t] != t: yield s, e, SWAP[t]
            elif re.fullmatch(r'-?\d+M?', t): yield s, e, str(int(t.rstrip('M')) + 1) + ('M' if 'M' in t else '')
            elif t[0] == ':' and len(t) > 1 and t not in (':keys', ':as', ':or', ':else', ':require', ':import', ':refer'): yield s, e, t + 'x'
            elif t[0] == '"': yield s, e, '"' + t[1:-1] + 'x"'
            elif t[0] == '\\': yield s, e, '\\q'
            return
        head = text[ch[0][0]:ch[0][1]] if ch and o in '(' and ch[0][2] is None else None
        if head in ('ns', 'comment', 'declare', 'require', 'set!'): return
        arg = lambda k: text[ch[k][0]:ch[k][1]]
        if head in ('if', 'if-let', 'if-not') and len(ch) == 4: yield s, e, arg(2) if head != 'if-let' else '(let %s %s)' % (arg(1), arg(2)); yield s, e, arg(3)
        if head in ('when',) and len(ch) == 3: yield s, e, arg(2)
        if head in ('and', 'or', 'comp', '->', '->>', 'str', 'do', 'vector', 'concat', 'some->', 'doto', 'cond->', 'print', 'println'):
            step = 2 if head == 'cond->' else 1
            for k in range(1 if head in ('and', 'or', 'comp', 'str', 'do') else 2, len(ch), step):
                if len(ch) > 2: yield ch[k][0], ch[min(k + step, len(ch)) - 1][1], ''
            if head == 'cond->':
                for k in range(2, len(ch), 2): yield ch[k][0], ch[k][1], 'true'
        if head in ('cond', 'case', 'condp'):
            for k in range({'cond': 1, 'case': 2, 'condp': 3}[head], len(ch) - 1, 2): yield ch[k][0], ch[k + 1][1], ''
        if o == '{' and len(ch) % 2 == 0:
            for k in range(0, len(ch), 2): yield ch[k][0], ch[k + 1][1], ''
        if o == '[' and len(ch) > 1 and parent and not (parent[3] and text[parent[3][0][0]:parent[3][0][1]] in ('let', 'fn', 'defn', 'defn-', 'loop', 'for', 'doseq', 'when-let', 'if-let', 'binding', 'with-open', 'defmacro', 'defmethod', 'when-some', 'if-some', 'ns') and i <= 3):
            for k in range(len(ch)): yield ch[k][0], ch[k][1], ''
        if head and head not in ('defn', 'defn-', 'def', 'fn', 'defmethod', 'defmulti', 'let', 'loop', 'if', 'when', 'cond', 'case', 'try', 'catch', 's/def', 'defmacro', 'and', 'or', '->', '->>'):
            if len(ch) == 3: yield s, e, '(%s %s %s)' % (head, arg(2), arg(1))
            if len(ch) > 2: yield ch[-1][0], ch[-1][1], ''
            if parent is not None: yield s, e, 'nil'
        lo = 0
        if head in ('def', 'defn', 'defn-', 'defmacro', 'defmulti', 'defmethod'): lo = 2
        for k, c in enumerate(ch):
            if k < lo or head in ('defn', 'defn-', 'def', 'defmacro', 'defmulti') and c[2] is None and text[c[0]] == '"' and len(ch) > 3: continue
            if head in ('defn', 'defn-', 'fn', 'defmethod', 'defmacro') and c[2] == '[': continue
            yield from walk(c, f, k)
    for f in parse(text):
        yield from walk(f, None, 0)
def opt(name, d): return type(d)(sys.argv[sys.argv.index(name) + 1]) if name in sys.argv else d
every, offset, only = opt('--every', 1), opt('--offset', 0), opt('--only', '')
ms = []
for root, _, fs in sorted(os.walk(S)):
    for f in sorted(fs):
        if not f.endswith('.clj'): continue
        p = os.path.join(root, f); text = open(p).read(); seen = set()
        for s, e, n in mutants(text):
            if (s, e, n) in seen or text[s:e] == n: continue
            seen.add((s, e, n)); ms.append((p, s, e, n))
log = open(W + '/log', 'a')
def say(*a): print(*a, flush=True); print(*a, file=log, flush=True)
def check(c):
    r = sh('cd %s && . ./env.sh && timeout 300 python3 -m mc.main %s' % (V, c), executable='/bin/bash')
    return r.returncode == 1 and b'VIOLATION' in r.stdout, r
say(len(ms), 'mutants')
if '--count' in sys.argv: sys.exit()
for k, (p, s, e, n) in enumerate(ms):
    if k % every != offset or only not in p: continue
    text = open(p).read()
    l0 = text.count('\n', 0, s) + 1
    head = '%d %s:%d  %s  =>  %s   in: %s' % (k, os.path.relpath(p, S), l0, ' '.join(text[s:e].split())[:100], ' '.join(n.split())[:100], text.split('\n')[l0 - 1].strip()[:80])
    open(p, 'w').write(text[:s] + n + text[e:])
    try:
        first = next((o.split() for x, o in ORDER.items() if x in p), [])
        first = [c for c in first if c in ALL]
        by = None
        for c in first + [c for c in ALL if c not in first]:
            ok, r = check(c)
            if ok: by = c; break
            if r.returncode or b'INCOMPLETE' in r.stdout: say('  rc', r.returncode, c, r.stdout.decode()[-200:])
        say(by or 'SURVIVES', head)
    finally: sh('git -C %s checkout -q -- .' % R)
