"""C03 the meaning of a request does not depend on how its JSON is spelt: every key order, layout, number and string spelling, null for absent."""
import time
from ..rpc import *
from ..content import kinds, EXTRA_FULL, META, metadata_each, cost_specs, price_specs, opts, FLAGS
from .c02 import canon
LEVEL = 'model_checking'
# ---- spelling: x with choices made by path
class Spell:
    def __init__(self, order=None, num=None, text=None, ws=('', '', ''), nulls=None): self.order, self.num, self.text, self.ws, self.nulls = order or {}, num or {}, text or {}, ws, nulls or {}
def q(s, how=None):
    if how is None: return json.dumps(s, ensure_ascii=False)
    out = ''
    for i, c in enumerate(s):
        if how == 'first' and i or how == 'slash' and c != '/' or how == 'last' and i < len(s) - 1: out += json.dumps(c, ensure_ascii=False)[1:-1]; continue
        if how == 'slash': out += '\\/'; continue
        n = ord(c)
        u = '\\u%04x' % n if n < 0x10000 else '\\u%04x\\u%04x' % (0xd800 + (n - 0x10000 >> 10), 0xdc00 + (n - 0x10000 & 0x3ff))
        out += u.upper().replace('\\U', '\\u') if how == 'upper' else u
    return '"%s"' % out
def render(x, v, path=()):
    a, b, c = v.ws      # after a bracket or before one, around ':', after ','
    if isinstance(x, dict):
        keys = list(x)
        items = [(k, x[k]) for k in keys] + [(k, None) for k in v.nulls.get(path, ())]
        o = v.order.get(path) or v.order.get('*')
        if o == 'reverse': items.reverse()
        elif o == 'sort': items.sort(key=lambda i: i[0])
        elif callable(o): items = o(items)
        elif o: items = [items[i] for i in o]
        return '{' + a + (c + ',' + a).join(q(k, v.text.get(path + (k, 'key'), v.text.get('*'))) + b + ':' + b + render(y, v, path + (k,)) for k, y in items) + a + '}'
    if isinstance(x, (list, tuple)): return '[' + a + (c + ',' + a).join(render(y, v, path + (i,)) for i, y in enumerate(x)) + a + ']'
    if isinstance(x, Num):
        h = v.num.get(path, v.num.get('*'))
        return str(x) if h is None else h(str(x))
    if isinstance(x, str): return q(x, v.text.get(path, v.text.get('*')))
    return dumps(x)
def as_string(s): return '"%s"' % s
def exponent(s, e='e', shift=0):
    """the same digits and decimal places with an exponent"""
    neg, body = s.startswith('-'), s.lstrip('-')
    i, _, f = body.partition('.')
    digits = (i + f).lstrip('0') or '0'
    if digits == '0' and f: return s if e == 'e' else as_string(s)
    return ('-' if neg else '') + digits + ('%s-%d' % (e, len(f)) if f else '%s%s0' % (e, '+' if shift else ''))
NUMS = [as_string, exponent, lambda s: exponent(s, 'E', 1), lambda s: as_string(exponent(s))]
# ---- structure
OPTIONAL = {'txn': ['payee', 'narration'], 'open': ['currencies', 'booking'], 'balance': ['tolerance']}
def absent(x, path=(), inner=None):
    """(path of an object, optional members absent from it)"""
    if isinstance(x, list):
        for i, y in enumerate(x): yield from absent(y, path + (i,))
    elif isinstance(x, dict):
        want = []
        if 'dct' in x: want = ['tags', 'links', 'metadata', 'span'] + OPTIONAL.get(x['dct'], [])
        elif len(path) > 1 and path[-2] == 'postings': want = ['flag', 'units', 'cur', 'cost-spec', 'price-spec', 'tags', 'links', 'metadata', 'span']
        elif path and path[-1] == 'cost-spec': want = ['per-unit', 'total', 'cur', 'date', 'label']
        elif path and path[-1] == 'price-spec': want = ['per-unit', 'total', 'cur']
        elif 'reason' in x and 'message' in x: want = ['contexts', 'related', 'annotation']
        elif 'method' in x: want = ['id'] if 'id' not in x else []
        w_ = [k for k in want if k not in x]
        if w_: yield path, w_
        for k, y in x.items(): yield from absent(y, path + (k,))
def objects(x, path=()):
    if isinstance(x, dict):
        yield path, list(x)
        for k, y in x.items(): yield from objects(y, path + (k,))
    elif isinstance(x, (list, tuple)):
        for i, y in enumerate(x): yield from objects(y, path + (i,))
def leaves(x, path=()):
    if isinstance(x, dict):
        for k, y in x.items(): yield path + (k, 'key'), k; yield from leaves(y, path + (k,))
    elif isinstance(x, (list, tuple)):
        for i, y in enumerate(x): yield from leaves(y, path + (i,))
    elif isinstance(x, str): yield path, x
IDENT = ('acc', 'source', 'cur', 'jsonrpc', 'tag', 'link')
def identifier(path):
    """whether the string there is one of those in which escapes are not understood (D10)"""
    if path[-1] == 'key': return len(path) > 2 and path[-3] == 'metadata'
    if path[-1] == 'date' and len(path) > 3 and (path[-3] in ('values', 'metadata')): return True
    return path[-1] in IDENT or len(path) > 1 and path[-2] in ('tags', 'links', 'currencies')
def variants(x, deep):
    """(name, spelling, D10?)"""
    n = 0
    for path, keys in objects(x):
        k = len(keys)
        if k < 2: continue
        if k <= (5 if deep else 4): orders = list(itertools.permutations(range(k)))[1:]
        else:
            idx = list(range(k))
            orders = [idx[::-1]] + [idx[i:] + idx[:i] for i in range(1, k)] + [[i] + [j for j in idx if j != i] for i in range(k)] + [[j for j in idx if j != i] + [i] for i in range(k)]
            if deep: orders += [[b if j == a else a if j == b else j for j in idx] for a, b in itertools.combinations(idx, 2)]
        for o in orders: yield 'key order', Spell(order={path: o}), False
    yield 'key order', Spell(order={'*': 'reverse'}), False
    yield 'key order', Spell(order={'*': 'sort'}), False
    yield 'key order', Spell(order={'*': lambda i: i[1:] + i[:1]}), False
    for ws in ((' ', '', ''), ('', ' ', ''), ('', '', ' '), ('\t', ' ', '\t'), ('   ', '\r', ' \t')): yield 'white space', Spell(ws=ws), False
    nums = [p for p, y in leaves(x) if isinstance(y, Num)]
    for h in NUMS:
        if nums: yield 'number', Spell(num={'*': h}), False
        if len(nums) > 1:
            for p in nums: yield 'number', Spell(num={p: h}), False
    if nums: yield 'number', Spell(num={'*': as_string}, order={'*': 'reverse'}, ws=(' ', ' ', ' ')), False
    for p, y in leaves(x):
        if isinstance(y, Num) or not y: continue
        for how in ('first', 'all', 'upper', 'last') if deep or len(y) < 12 else ('first', 'all'):
            yield 'string escape at %s' % (p,), Spell(text={p: how}), identifier(p)
        if '/' in y: yield 'string escape at %s' % (p,), Spell(text={p: 'slash'}), identifier(p)
    for path, ks in absent(x):
        for k in ks:
            yield 'null for absent', Spell(nulls={path: [k]}), False
            yield 'null for absent', Spell(nulls={path: [k]}, order={path: 'reverse'}), False
        yield 'null for absent', Spell(nulls={path: ks}), False
    every = dict(absent(x))
    if every:
        yield 'null for absent', Spell(nulls=every), False
        yield 'null for absent', Spell(nulls=every, order={'*': 'reverse'}, ws=(' ', ' ', ' ')), False
# ---- requests
def call(m, p=None): return dict(dict(jsonrpc='2.0', id=1, method=m), **({} if p is None else dict(params=p)))
X_OPEN = [dict(dct='open', date='2019-01-01', acc='Assets:A'), dict(dct='open', date='2019-01-01', acc='Equity:X')]
def requests(deep):
    for m in ('status', 'parser.plugins', 'parser.directives', 'parser.options', 'book'): yield call(m)
    full = EXTRA_FULL[-1]
    for kind, bodies in kinds():
        bodies = [b for b in bodies]
        few = [max(bodies, key=len), bodies[0], bodies[-1]] + bodies[::len(bodies) // 3 + 1] if not deep else bodies[::max(1, len(bodies) // 40)]
        for b in few:
            yield call('book', [dict(b, date='2020-02-29')])
            yield call('book', X_OPEN + [dict(dict(date='2020-02-29', **b), **full)])
        yield call('book', [dict(dict(dct=few[0]['dct'], date='2020-02-29'), **dict(full, **few[0]))])
    for m in META:
        yield call('book', [dict(dct='commodity', cur='USD', date='2020-01-01', metadata={'key': m})])
        yield call('book', [dict(dct='custom', type='t', values=[m, m], date='2020-01-01')])
    yield call('book', [dict(dct='custom', type='t', values=META, date='2020-01-01', metadata={'k%d' % i: m for i, m in enumerate(META)})])
    yield call('book', X_OPEN + [dict(dct='txn', date='2020-01-02', flag='*', postings=[dict(acc='Assets:A', units=Num('1.50'), cur='USD', metadata={'key': m}), dict(acc='Equity:X')]) for m in META])
    for f in FLAGS: yield call('book', X_OPEN + [dict(dct='txn', date='2020-01-02', flag=f, postings=[dict(acc='Assets:A', units=Num('1.50'), cur='USD', flag=f), dict(acc='Equity:X')])])
    cs, ps = cost_specs(), price_specs()
    for c in cs[::1 if deep else 5] + [max(cs, key=len)]: yield call('book', X_OPEN + [dict(dct='txn', date='2020-01-02', flag='*', postings=[dict(acc='Assets:A', units=Num('3'), cur='STK', **{'cost-spec': c}), dict(acc='Equity:X', units=Num('-15.00'), cur='USD')])])
    for p in ps: yield call('book', X_OPEN + [dict(dct='txn', date='2020-01-02', flag='*', postings=[dict(acc='Assets:A', units=Num('3'), cur='STK', **{'price-spec': p}), dict(acc='Equity:X', units=Num('-15'), cur='EUR')])])
    for c in cs[1::6]: yield call('book', X_OPEN + [dict(dct='txn', date='2020-01-02', flag='!', payee='P é', narration='n\n"', postings=[dict(acc='Assets:A', units=Num('3'), cur='STK', flag='!', **{'cost-spec': c, 'price-spec': ps[2]}, **full), dict(acc='Equity:X', units=Num('-15.00'), cur='USD', **full)], **full)])
    yield call('book', BOOK_OK); yield call('book', BOOK_BAD)
    yield call('book', X_OPEN + [dict(dct='balance', date='2020-01-02', acc='Assets:A', units=Num('1.50'), cur='USD', tolerance=Num('0.01'))])
    yield call('book', X_OPEN + [dict(dct='pad', date='2020-01-02', acc='Assets:A', source='Equity:X', **full), dict(dct='balance', date='2020-01-02', acc='Assets:A', units=Num('1.50'), cur='USD')])
    yield call('parser.resolve-spans', [[0, 0, 10], [0, 20, 40], [3, 0, 1]])
    yield call('parser.format-errors', [REPORT, dict(message='m', reason='é/"\\', span=[0, 3, 9]), dict(message='m', reason='r', span=[0, 3, 9], annotation='a\nb')])
    yield call('parser.format-warnings', [dict(REPORT, contexts=[['a', [0, 0, 5]], ['b', [0, 1, 4]]])])
    yield call('parser.create-synthetic-spans', [dict(name='n/é"', content='c\n\\𝄞'), dict(name='m', content='')])
    yield dict(call('status'), params=[1])
    for i in ('"é/x"', 'null'): yield dict(call('status'), id=json.loads(i))
def resolved(path, line):
    """creating, then resolving everything created"""
    return [line, request('parser.resolve-spans', [[k, 0, n] for k in range(4) for n in (0, 1, 4)])]
def w(chunk, r):
    path, drop = place('good')
    for x, deep in chunk:
        vs = list(variants(x, deep))
        base = render(x, Spell())
        lines = [base] + [render(x, v) for _, v, _ in vs]
        if x['method'] == 'parser.create-synthetic-spans':
            def full(l):
                out = raw_lines(path, '\n'.join(resolved(path, l)).encode() + b'\n')[0]
                return '|'.join(map(canon, out))
            out = list(map(full, lines))
        else:
            got, complete, rc, err = raw_lines(path, '\n'.join(lines).encode() + b'\n')
            out = [canon(g) for g in got] + ['no answer'] * (len(lines) - len(got))
        ok = '"result"' in out[0] or '"code": "#3"' in out[0] or '"code": "#2"' in out[0]
        if not ok: r.violation('request rejected: %s => %s' % (base, out[0]), dict(files=[list(f) for f in LEDGERS['good']], lines=[base]), key=None)
        r.add('requests')
        for (name, v, d10), l, o in zip(vs, lines[1:], out[1:]):
            r.add('variants'); r.outcome((name.split(' at ')[0], x['method']))
            if l == base: continue
            if r.n['variants'] % 4999 == 1: r.sample(dict(variant=name, request=base[:800], respelt=l[:800]))
            if o != out[0]: r.violation('%s: %s is answered %s; %s is answered %s' % (name, base[:700], out[0][:700], l[:700], o[:700]), dict(files=[list(f) for f in LEDGERS['good']], lines=[base, l]), key='D10' if d10 and '"#-32700"' in o else None)
    drop()
def run(tier, seed):
    t = Result()
    deep = tier == 'thorough'
    _, done = fan_out(w, ((x, True) for x in requests(True)), 2, t, time.time() + (700 if deep else 240))
    return t, dict(states=t.n.get('requests', 0), transitions=t.n.get('variants', 0), traces_validated_against_impl=t.n.get('variants', 0), exhaustive=done)
