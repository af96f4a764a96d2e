"""C27 logging never changes what limabean-pod does: every log destination and level, with every short history of requests."""
import time
from ..rpc import *
from .c02 import canon, KINDS
from . import c22
LEVEL = 'model_checking'
L = [l for l in letters()]
# what to book: all of these with and without a log
def _books():
    for d in c22.DIRECTIVES: yield [dict(d, date=d.get('date', '2020-01-01'))]
    for a, b in itertools.product(c22.DIRECTIVES, repeat=2): yield [dict(x, date=x.get('date', '2020-01-01')) for x in (a, b)]
    for a in c22.LOT_LETTERS: yield [dict(x, date='2020-01-01') for x in c22.LOTS + [a]]
    for a, b in itertools.product(c22.LOT_LETTERS, repeat=2): yield [dict(x, date='2020-01-01') for x in c22.LOTS + [a, b]]
    yield from KINDS.values()
BOOKS = [request('book', b).encode() for b in _books()]
def w_books(chunk, r):
    for lo, hi, dest, level in chunk:
        data = b''.join(b + b'\n' for b in BOOKS[lo:hi])
        path = os.path.join(tmpdir(), 'c27', 'good', LEDGERS['good'][0][0])
        if ('books', lo) not in _base: _base['books', lo] = run_pod(path, data, cwd=tmpdir())[:2]
        d = fresh(dest)
        env = dict(CLEAN_ENV)
        v = place_dest(dest, d)
        if v is not None: env['LIMABEAN_POD_LOG'] = v
        if level is not None: env['LIMABEAN_POD_LOG_LEVEL'] = level
        out, rc, err = run_pod(path, data, env=env, cwd=d)
        shutil.rmtree(d, ignore_errors=True)
        bout, brc = _base['books', lo]
        r.add('runs'); r.add('requests', hi - lo); r.outcome(('books', lo, dest, level))
        a, b = out.split(b'\n'), bout.split(b'\n')
        if len(b) != hi - lo + 1: continue            # it dies of one of these without a log as well: not this property's
        bad = [i for i in range(len(b)) if i >= len(a) or canon(a[i]) != canon(b[i])]
        if bad or rc != brc: r.violation('booking, LIMABEAN_POD_LOG=%r LIMABEAN_POD_LOG_LEVEL=%r: exit status %s, without logging %s; request %s answered %r, without logging %r' % (v, level, rc, brc, BOOKS[lo + bad[0]] if bad else '', a[bad[0]][:600] if bad and bad[0] < len(a) else None, b[bad[0]][:600] if bad else None),
                                         dict(env=dict(LIMABEAN_POD_LOG=v, LIMABEAN_POD_LOG_LEVEL=level), lines=[BOOKS[lo + bad[0]].decode()] if bad else []))
def books(deep):
    for dest, level in [('file', 'trace'), ('file', None), ('unset', 'trace')] if not deep else [(a, b) for a in ('file', 'unset', 'relative', 'null') for b in LEVELS]:
        for lo in range(0, len(BOOKS), 50): yield lo, min(lo + 50, len(BOOKS)), dest, level
LEVELS = [None, '', 'off', 'error', 'warn', 'info', 'debug', 'trace', 'DEBUG', 'nonsense', '5', 'limabean=trace', 'limabean=off,other=debug', 'a=b=c', '[span]=debug', ' ', 'é', 'debug,limabean::api=warn', '99999']
DESTS = {'unset': None, 'file': 'F/log', 'existing file': 'F/old', 'empty': '', 'dot': '.', 'slash': '/', 'parent': '..', 'with space é': 'F/lo g é', 'relative': 'rel.log', 'relative in directory': 'F/../rel2.log', 'null': '/dev/null', 'trailing slash': 'F/tr/', 'new directory': 'F/new/dir/log', 'dotted': 'F/a.b.c', 'long': 'F/' + 'x' * 200}
# what can't be opened: no promise but that it is about the log
UNOPENABLE = {'directory': 'F', 'below a file': 'F/old/x', 'no such root': '/proc/nope/log'}
def fresh(kind):
    """a directory for this run"""
    d = tempfile.mkdtemp(prefix='log', dir=tmpdir())
    os.mkdir(d + '/F'); open(d + '/F/old', 'w').write('old\n')
    return d
def place_dest(dest, d):
    v = DESTS.get(dest, UNOPENABLE.get(dest))
    return v if v is None else (d + '/' + v if v.startswith('F/') or v == 'F' else v)
def tree(d):
    out = {}
    for base, dirs, files in os.walk(d):
        for f in files: out[os.path.relpath(os.path.join(base, f), d)] = open(os.path.join(base, f), 'rb').read()
    return out
_base = {}
def w(chunk, r):
    for what, led, seq, dest, level, extra in chunk:
        path = os.path.join(tmpdir(), 'c27', led.replace(' ', '_'), LEDGERS[led][0][0]) if led else None
        args = [POD, 'tabulate'] if led is None else [POD, 'serve', path]
        data = seq if led is None else b''.join(encode(L[i].line) + b'\n' for i in seq)
        k = (led, seq)
        if k not in _base: _base[k] = run_pod(path, data, args=args, cwd=tmpdir())[:2]
        d = fresh(dest)
        env = dict(CLEAN_ENV, **(extra or {}))
        v = place_dest(dest, d)
        if v is not None: env['LIMABEAN_POD_LOG'] = v
        if level is not None: env['LIMABEAN_POD_LOG_LEVEL'] = level
        out, rc, err = run_pod(path, data, args=args, env=env, cwd=d)
        files = tree(d)
        shutil.rmtree(d, ignore_errors=True)
        r.add('runs'); r.add('requests', 0 if led is None else len(seq)); r.outcome((what, dest, level, led, rc))
        bout, brc = _base[k]
        msg = None
        same = lambda a, b: a == b if led is None else [canon(x) for x in a.split(b'\n')] == [canon(x) for x in b.split(b'\n')]
        if rc != brc: msg = 'exit status %s, without logging %s; stderr %r' % (rc, brc, err[-300:])
        elif not same(out, bout): msg = 'stdout %r, without logging %r' % (out[-600:], bout[-600:])
        else:
            named = None if not v or v in ('.', '/', '..', '/dev/null') else os.path.relpath(os.path.normpath(os.path.join(d, v)), d)
            for f, b in files.items():
                if f == named: continue
                if f != 'F/old' or b != b'old\n': msg = 'file %s written: %r' % (f, b[:200])
            if not msg and named == 'F/old' and not files.get('F/old', b'').startswith(b'old\n'): msg = 'log file overwritten'
            log = files.get(named, b'')[4 if named == 'F/old' else 0:]
            if not msg and level == 'off' and log: msg = 'log written at level off: %r' % log[:200]
            # messages are logged at debug, the default
            if not msg and led is not None and named and level in (None, 'debug', 'trace', 'DEBUG') and not all(encode(L[i].line).strip() in log for i in seq if isinstance(L[i].line, str)): msg = 'requests are not in the log %s: %r' % (named, log[:300])
        if r.n['runs'] % 499 == 1: r.sample(dict(case=what, ledger=led, destination=v, level=level, requests=[L[i].name for i in seq] if led else seq.decode('latin-1')[:100], files=sorted(files)))
        if msg: r.violation('%s, LIMABEAN_POD_LOG=%r LIMABEAN_POD_LOG_LEVEL=%r, %s ledger, requests %s: %s' % (what, v, level, led, [L[i].name for i in seq] if led else seq[:60], msg), dict(env=dict(LIMABEAN_POD_LOG=v, LIMABEAN_POD_LOG_LEVEL=level), lines=[encode(L[i].line).decode('utf-8', 'replace') for i in seq] if led else [], stdin=None if led else seq.decode('latin-1')))
CELLS = [b'"empty"', b'{"row":[[{"aligned":["a","left"]},{"anchored":["1.5",1]}]," "]}', b'', b'{', b'\xff', '{"aligned":["é☃","right"]}'.encode()]
def cases(deep):
    all_ = tuple(range(len(L)))
    for dest in DESTS:
        for level in LEVELS:
            for led in LEDGERS: yield 'all requests', led, all_, dest, level, None
            yield 'no request', 'good', (), dest, level, None
            for c in CELLS: yield 'tabulate', None, c, dest, level, None
            for e in ({'RUST_LOG': 'trace'}, {'RUST_LOG': 'off'}, {'RUST_LOG': '=='}, {'NO_COLOR': '1'}, {'LIMABEAN_LOG': 'x'}): yield 'other variables', 'good', all_, dest, level, e
    for dest, level in (('file', 'trace'), ('file', None), ('relative', 'debug'), ('unset', 'trace')) if not deep else [(a, b) for a in ('file', 'relative', 'unset', 'null', 'existing file') for b in (None, 'trace', 'error', 'nonsense')]:
        for led in ('good', 'broken', 'unreadable', 'failing') if not deep else LEDGERS:
            for i in all_: yield 'one request', led, (i,), dest, level, None
            for s in windows(len(L), 2, 16): yield 'every pair of requests', led, tuple(s), dest, level, None
        if deep:
            sub = [i for i in all_ if i % 3 == 0]
            for s in windows(len(sub), 3, 32): yield 'every three requests', 'failing', tuple(sub[i] for i in s), dest, level, None
def run(tier, seed):
    t = Result()
    deep = tier == 'thorough'
    for led, files in LEDGERS.items():
        for n, x in files:
            p = os.path.join(tmpdir(), 'c27', led.replace(' ', '_'), n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, 'wb').write(x if isinstance(x, bytes) else x.encode())
    end = time.time() + (700 if deep else 240)
    _, d1 = fan_out(w_books, books(deep), 4, t, end)
    _, d2 = fan_out(w, cases(deep), 20, t, end)
    done = d1 and d2
    return t, dict(states=t.n.get('runs', 0), transitions=t.n.get('requests', 0), traces_validated_against_impl=t.n.get('runs', 0), exhaustive=done)
