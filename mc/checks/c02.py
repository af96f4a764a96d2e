"""C02 answers depend on the ledger and the request alone: after every history, in every process and environment."""
import time, re
from ..rpc import *
LEVEL = 'model_checking'
# requests beyond rpc.letters(): what booking could leave behind
O = lambda a, **k: OPEN('Assets:' + a, **k)
def bal(a, u, **k): return dict(dct='balance', date='2020-01-09', acc='Assets:' + a, units=Num(u), cur='USD', **k)
PARAMS = {'open': [O('A')], 'open fifo': [O('A', booking='fifo', currencies=['STK', 'USD'])], 'closed': [O('A'), dict(dct='close', date='2020-01-05', acc='Assets:A')], 'use': [TXN(('Assets:A', '1', 'USD'), ('Assets:A', '-1', 'USD'))], 'close': [dict(dct='close', date='2020-01-02', acc='Assets:A')],
  'pad': [O('A'), O('B'), dict(dct='pad', date='2020-01-02', acc='Assets:A', source='Assets:B'), bal('A', '7')], 'lone pad': [O('A'), O('B'), dict(dct='pad', date='2020-01-02', acc='Assets:A', source='Assets:B')], 'lone pads': [O(x) for x in 'ABCDE'] + [dict(dct='pad', date='2020-01-02', acc='Assets:' + x, source='Assets:E') for x in 'ABCD'],
  'assert': [O('A'), bal('A', '7')], 'assert 0': [O('A'), bal('A', '0')], 'lots': [O('A'), O('B')] + [dict(dct='txn', date='2020-01-0%d' % i, flag='*', postings=[dict(acc='Assets:A', units=Num('1'), cur='STK', **{'cost-spec': {'per-unit': Num(str(i)), 'cur': 'USD'}}), dict(acc='Assets:B')]) for i in (3, 1, 2)],
  'sell': [O('A'), O('B'), dict(dct='txn', date='2020-01-02', flag='*', postings=[dict(acc='Assets:A', units=Num('-1'), cur='STK', **{'cost-spec': {}}), dict(acc='Assets:B')])],
  'currencies': [O('A'), O('B')] + [TXN(*[('Assets:A', '1', 'C' + c) for c in 'HGFEDCBA'], *[('Assets:B', '-1', 'C' + c) for c in 'ABCDEFGH'])] + [dict(bal('A', '2'), cur='C' + c) for c in 'ABCDEFGH'],
  'meta': [dict(O('A'), tags=['c', 'a', 'b'], links=['z', 'x'], metadata={'k%s' % c: {'string': c} for c in 'hgfedcba'})],
  'many accounts': [O('S%d' % i) for i in range(20)] + [TXN(('Assets:S%d' % i, '1', 'USD'), ('Assets:S%d' % ((i * 7 + 3) % 20), '-1', 'USD')) for i in range(20)] + [O('S')] + [bal('S', '3')]}
# one account, opened this way in one request and that way in another, and what shows the difference
def _kinds():
    lot = lambda u, per=None, d='2020-01-02': dict(dct='txn', date=d, flag='*', postings=[dict(acc='Assets:A', units=Num(u), cur='STK', **{'cost-spec': {'per-unit': Num(per), 'cur': 'USD'} if per else {}}), dict(acc='Assets:B')])
    lots = [lot('1', '3'), lot('1', '1'), lot('1', '2')]
    opens = {'plain': {}, **{m: dict(booking=m) for m in ('strict', 'strict-with-size', 'fifo', 'lifo', 'hifo', 'none', 'average')}, 'STK': dict(currencies=['STK']), 'USD': dict(currencies=['USD']), 'both': dict(currencies=['STK', 'USD'], booking='fifo'), 'never': None, 'closed': {}}
    uses = {'sale': lots + [lot('-1', d='2020-01-03')], 'sales': lots + [lot('-2', d='2020-01-03'), lot('-1', d='2020-01-04')], 'cash': [TXN(('Assets:A', '1.0', 'USD'), ('Assets:B', '-1.05', 'USD'))], 'padded': [dict(dct='pad', date='2020-01-02', acc='Assets:A', source='Assets:B'), bal('A', '7')]}
    for (n, o), (m, u) in itertools.product(opens.items(), uses.items()):
        yield '%s %s' % (n, m), ([] if o is None else [O('A', **o)]) + [O('B')] + ([dict(dct='close', date='2020-01-01', acc='Assets:A')] if n == 'closed' else []) + u
KINDS = dict(_kinds())
def all_letters():
    ls = letters()
    for i, (n, p) in enumerate(PARAMS.items()): ls.append(R('book ' + n, 'book', p, id=str(100 + i)))
    return ls
L = all_letters()
N = len(L)
L += [R('book ' + n, 'book', p, id=str(500 + i)) for i, (n, p) in enumerate(KINDS.items())]
CREATE = [i for i, l in enumerate(L) if 'create-synthetic' in str(l.line) and l.fixed is None and l.name != 'create none']
PLAIN = [i for i in range(N) if i not in CREATE]
KIND = list(range(N, len(L)))
LIST = re.compile(r"[A-Z][A-Z0-9'._-]*(?:,[A-Z][A-Z0-9'._-]*)+")
SET = ('tags', 'links', 'currencies', 'documents', 'operating-currency')
def canon(line):
    """an answer, up to the order of unordered collections"""
    try: a = json.loads(line.decode(), parse_float=lambda s: '#' + s, parse_int=lambda s: '#' + s)
    except (ValueError, UnicodeDecodeError): return line
    def f(x, key=None):
        if isinstance(x, dict): return {k: f(v, k) for k, v in x.items()}
        if isinstance(x, list):
            l = [f(v) for v in x]
            return sorted(l, key=json.dumps) if key in SET else l
        if isinstance(x, str): return LIST.sub(lambda m: ','.join(sorted(m.group(0).split(','))), x)
        return x
    a = f(a)
    if isinstance(a, dict) and isinstance(a.get('error'), dict) and isinstance(a['error'].get('data'), list): a['error']['data'].sort(key=lambda x: json.dumps(x, sort_keys=True))
    return json.dumps(a, sort_keys=True)
def where(led):
    """the ledgers are at the same place for all processes: paths occur in answers"""
    return os.path.join(tmpdir(), 'c02', led.replace(' ', '_'), LEDGERS[led][0][0])
def write_ledgers():
    for led, files in LEDGERS.items():
        for n, t in files:
            p = os.path.join(tmpdir(), 'c02', led.replace(' ', '_'), n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, 'wb').write(t if isinstance(t, bytes) else t.encode())
_base = {}
def base(led, created, letter, r):
    """the answer in a fresh process in which only these sources were created before"""
    k = (led, created, letter)
    if k not in _base:
        if isinstance(letter, int) and not created: items = [letter]
        else: items = list(created) + [letter]
        out, complete, rc, err = raw_lines(where(led), b''.join(encode(L[i].line) + b'\n' for i in items))
        r.add('baselines')
        _base[k] = canon(out[-1]) if len(out) == len(items) and rc == 0 else ('%d answers, exit status %s' % (len(out), rc))
    return _base[k]
def run_seq(led, seq, r, **kw):
    out, complete, rc, err = raw_lines(where(led), b''.join(encode(L[i].line) + b'\n' for i in seq), **kw)
    created = ()
    for j, i in enumerate(seq):
        if j >= len(out): return 'no answer to request %d (%s); exit status %s' % (j, L[i].name, rc), j
        want = base(led, created, i, r)
        if canon(out[j]) != want: return 'request %d (%s) after %s is answered %s; on its own %s' % (j, L[i].name, [L[x].name for x in seq[max(0, j - 4):j]], str(canon(out[j]))[:1200], str(want)[:1200]), j
        if i in CREATE: created += (i,)
    return (None, None) if rc == 0 else ('exit status %s' % rc, len(seq) - 1)
# longer histories are cut into answers; the sources created are few
def w(chunk, r):
    for name, led, seq, env in chunk:
        msg, j = run_seq(led, seq, r, **(env or {}))
        r.add('histories'); r.add('requests', len(seq)); r.outcome((name, led))
        if r.n['histories'] % 499 == 1: r.sample(dict(case=name, ledger=led, requests=[L[i].name for i in seq[:8]]))
        if msg: r.violation('%s, %s ledger%s: %s' % (name, led, '' if env is None else ' ' + str({k: (v if k != 'env' else {a: b for a, b in v.items() if CLEAN_ENV.get(a) != b}) for k, v in env.items()}), msg),
                            dict(files=[[n, t if isinstance(t, str) else t.decode('latin-1')] for n, t in LEDGERS[led]], lines=[encode(L[i].line).decode('utf-8', 'replace') for i in seq[max(0, j - 30):j + 1]]))
ENVS = [dict(TZ='Pacific/Kiritimati'), dict(TZ='America/Los_Angeles'), dict(LANG='de_DE.UTF-8', LC_ALL='de_DE.UTF-8', LC_NUMERIC='de_DE.UTF-8'), dict(LC_ALL='C'), dict(COLUMNS='10', TERM='dumb'), dict(TERM='xterm-256color'), dict(HOME='/nonexistent'), dict(PWD='/nowhere'), dict(LIMABEAN_CLJ_DEPS='x'), dict(RUST_BACKTRACE='1')]
def cases(deep):
    n = range(N)
    leds = list(LEDGERS)
    fresh = tuple(PLAIN)
    for led in leds:
        # the same requests in many processes (hash seeds differ), environments and directories
        for _ in range(12 if not deep else 60):
            for i in n: yield 'fresh process', led, (i,), None
        for e in ENVS: yield 'environment', led, fresh, dict(env=dict(CLEAN_ENV, **e))
        yield 'environment', led, fresh, dict(env={})
        yield 'directory', led, fresh, dict(cwd='/'); yield 'directory', led, fresh, dict(cwd=tmpdir())
        yield 'all', led, fresh, None; yield 'all reversed', led, fresh[::-1], None; yield 'twice', led, fresh + fresh, None
    for led in ('good', 'failing', 'broken', 'included', 'unreadable'):
        for seq in itertools.product(n, repeat=2): yield 'history', led, seq, None
    # with sources created before, in between and after
    few = CREATE + [i for i in PLAIN if L[i].name in ('directives', 'book', 'resolve', 'resolve wild', 'format errors', 'unknown method', 'source wrong', 'book bad', 'create none')]
    for led in ('good', 'broken') if not deep else leds:
        for k in (3, 4) if deep else (3,):
            for seq in itertools.product(few, repeat=k):
                if any(i in CREATE for i in seq): yield 'history with sources', led, seq, None
    for led in ('good', 'failing') if not deep else leds:
        for s in windows(len(PLAIN), 3, 64): yield 'windows of 3', led, tuple(PLAIN[i] for i in s), None
        for c in CREATE:
            for s in windows(len(PLAIN), 2, 1): yield 'windows of 2 with a source', led, (c,) + tuple(PLAIN[i] for i in s), None
    for led in ('good', 'no options') if 'no options' in LEDGERS else ('good', 'failing'):
        for s in windows(len(KIND), 2, 32): yield 'windows of 2 of a kind', led, tuple(KIND[i] for i in s), None
    if deep:
        for s in windows(len(KIND), 3, 64): yield 'windows of 3 of a kind', 'good', tuple(KIND[i] for i in s), None
        sub = PLAIN[::3]
        for s in windows(len(sub), 4, 64): yield 'windows of 4', 'failing', tuple(sub[i] for i in s), None
def run(tier, seed):
    t = Result()
    deep = tier == 'thorough'
    write_ledgers()
    _, done = fan_out(w, cases(deep), 25, t, time.time() + (700 if deep else 240))
    return t, dict(states=t.n.get('histories', 0), transitions=t.n.get('requests', 0), traces_validated_against_impl=t.n.get('histories', 0), exhaustive=done)
