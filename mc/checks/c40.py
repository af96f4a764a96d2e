"""C40 a request is carried out only if every part of its parameters is of the documented structure: each single misshapen part, at every place."""
import time, re, copy, datetime
from ..core import *
LEVEL = 'model_checking'
# the documented structure; a type says of a value True (of that structure), False (not) or None (not said)
def allof(xs):
    r = True
    for x in xs:
        if x is False: return False
        if x is None: r = None
    return r
def Str(v): return isinstance(v, str) and not isinstance(v, Num)
def Dec(v):
    if isinstance(v, Num): return True if re.fullmatch(r'-?\d{1,20}(\.\d{1,6})?', v) else None
    if isinstance(v, str): return None                 # decimals spelt as strings: C03
    return isinstance(v, (int, Decimal)) and not isinstance(v, bool)
def Bool(v): return isinstance(v, bool)
def Nat(v):
    if isinstance(v, Num): return re.fullmatch(r'\d{1,15}', v) is not None
    return isinstance(v, int) and not isinstance(v, bool) and v >= 0
def Date(v):
    if not Str(v): return False
    if not re.fullmatch(r'\d{4}-\d\d-\d\d', v): return None if re.fullmatch(r'[+-]\d+-\d\d-\d\d', v) else False
    try: datetime.date(*map(int, v.split('-'))); return True
    except ValueError: return None if v.startswith('0000') else False
def Span(v): return isinstance(v, list) and len(v) == 3 and all(map(Nat, v))
def Enum(*xs): return lambda v: Str(v) and v in xs
def Listof(t): return lambda v: isinstance(v, list) and allof(map(t, v))
def Pair(a, b): return lambda v: isinstance(v, list) and len(v) == 2 and allof((a(v[0]), b(v[1])))
class Opt:
    def __init__(self, t): self.t = t
def Struct(**fields):
    fields = {k.rstrip('_').replace('_', '-'): t for k, t in fields.items()}
    def f(v):
        if isinstance(v, list): return None            # members without their names
        if not isinstance(v, dict): return False
        r = []
        for k, t in fields.items():
            if isinstance(t, Opt): r.append(k not in v or v[k] is None or t.t(v[k]))
            else: r.append(k in v and t(v[k]))
        return allof(r)                                # unknown members are nobody's concern
    f.fields = fields
    return f
META = dict(string=Str, cur=Str, acc=Str, tag=Str, link=Str, date=Date, bool=Bool, number=Dec)
def Meta(v):
    if v is None: return True
    if not isinstance(v, dict): return False
    if set(v) == {'units', 'cur'}: return allof((Dec(v['units']), Str(v['cur'])))
    if len(v) != 1: return False
    (k, x), = v.items()
    return k in META and META[k](x)
def Metadata(v): return isinstance(v, dict) and allof(map(Meta, v.values()))
BOOKING = Enum('strict', 'strict-with-size', 'none', 'average', 'fifo', 'lifo', 'hifo')
Strs = Listof(Str)
Amount3 = Struct(per_unit=Dec, total=Opt(Dec), cur=Str)
CostSpec = Struct(per_unit=Opt(Dec), total=Opt(Dec), cur=Opt(Str), date=Opt(Date), label=Opt(Str))
def Cost(v): return allof((CostSpec(v), 'merge' not in v or Bool(v['merge']))) if isinstance(v, dict) else CostSpec(v)
Posting = Struct(span=Opt(Span), flag=Opt(Str), acc=Str, units=Opt(Dec), cur=Opt(Str), cost_spec=Opt(Cost), price_spec=Opt(Struct(per_unit=Opt(Dec), total=Opt(Dec), cur=Opt(Str))), tags=Opt(Strs), links=Opt(Strs), metadata=Opt(Metadata))
COMMON = dict(span=Opt(Span), date=Date, tags=Opt(Strs), links=Opt(Strs), metadata=Opt(Metadata))
DCT = {k: Struct(**COMMON, **f) for k, f in dict(
    txn=dict(flag=Str, payee=Opt(Str), narration=Opt(Str), postings=Listof(Posting)), price=dict(cur=Str, price=Amount3), balance=dict(acc=Str, units=Dec, cur=Str, tolerance=Opt(Dec)),
    open=dict(acc=Str, currencies=Opt(Strs), booking=Opt(BOOKING)), close=dict(acc=Str), commodity=dict(cur=Str), pad=dict(acc=Str, source=Str), document=dict(acc=Str, path=Str), note=dict(acc=Str, comment=Str),
    event=dict(type=Str, description=Str), query=dict(name=Str, content=Str), custom=dict(type=Str, values=Listof(Meta))).items()}
def Directive(v):
    if isinstance(v, list): return None
    return isinstance(v, dict) and Str(v.get('dct')) and v['dct'] in DCT and DCT[v['dct']](v)
Places = Opt(Listof(Pair(Str, Span)))
Report = Struct(message=Str, reason=Str, span=Span, contexts=Places, related=Places, annotation=Opt(Str))
Synthetic = Struct(name=Str, content=Str)
METHODS = {'book': lambda v: v is None or Listof(Directive)(v), 'parser.resolve-spans': Listof(Span), 'parser.create-synthetic-spans': Listof(Synthetic), 'parser.format-errors': Listof(Report), 'parser.format-warnings': Listof(Report)}
# -- what the findings D24 (a number with a fraction or beyond 64 bits as an empty specification) and D25 (variants by their number) take it for
def taken(v):
    keys = set()
    def go(v):
        if isinstance(v, list): return [go(x) for x in v]
        if not isinstance(v, dict): return v
        r = {}
        for k, x in v.items():
            if k in ('cost-spec', 'price-spec') and isinstance(x, Num) and (not re.fullmatch(r'-?\d+', x) or not -(1 << 63) <= int(x) < 1 << 64): keys.add('D24'); x = {}
            elif k == 'dct' and isinstance(x, Num) and re.fullmatch(r'\d+', x) and int(x) < len(DCT): keys.add('D25'); x = list(DCT)[int(x)]
            r[k] = go(x)
        return r
    return go(v), keys
# -- requests of which every part is used
N = Num
MD = dict(ka=dict(units=N('1.5'), cur='USD'), kb=dict(string='s'), kc=dict(cur='USD'), kd=dict(acc='Assets:A'), ke=dict(tag='t'), kf=dict(link='l'), kg=dict(date='2020-01-02'), kh=dict(bool=True), ki=dict(number=N('2')), kj=None)
def com(dct, **k): return dict(dict(dct=dct, date='2020-02-02', span=[0, 1, 2], tags=['t', 'u'], links=['l'], metadata=dict(kk=dict(string='v'))), **{a.rstrip('_').replace('_', '-'): b for a, b in k.items()})
OPENS = [dict(dct='open', date='2020-01-01', acc=a) for a in ('Assets:A', 'Equity:X')]
def posting(**k): return {a.replace('_', '-'): b for a, b in k.items()}
TXN = com('txn', flag='*', payee='p', narration='n', postings=[
    posting(span=[0, 3, 4], flag='!', acc='Assets:A', units=N('2'), cur='STK', cost_spec={'per-unit': N('3.0'), 'cur': 'USD', 'date': '2020-02-01', 'label': 'lot', 'merge': False}, price_spec={'per-unit': N('3.5'), 'cur': 'USD'}, tags=['a'], links=['b'], metadata=dict(mm=dict(number=N('1')))),
    posting(acc='Assets:A', units=N('2'), cur='STQ', cost_spec={'total': N('6'), 'cur': 'USD'}, price_spec={'total': N('7'), 'cur': 'USD'}), posting(acc='Equity:X', units=N('-12.0'), cur='USD')])
BASES = [('book', [dict(dct='open', date='2020-01-01', acc='Assets:A', span=[0, 1, 2], currencies=['USD', 'STK', 'STQ'], booking='fifo', tags=['t'], links=['l'], metadata=MD), OPENS[1], TXN]),
         ('book', OPENS + [com('price', cur='STK', price={'per-unit': N('2.5'), 'cur': 'USD'})]), ('book', OPENS + [com('balance', acc='Assets:A', units=N('0'), cur='USD', tolerance=N('0.01'))]), ('book', OPENS + [com('close', acc='Assets:A')]),
         ('book', [com('commodity', cur='USD')]), ('book', OPENS + [com('pad', acc='Assets:A', source='Equity:X'), dict(com('balance', acc='Assets:A', units=N('10'), cur='USD'), date='2020-03-03')]), ('book', OPENS + [com('document', acc='Assets:A', path='/x')]),
         ('book', OPENS + [com('note', acc='Assets:A', comment='c')]), ('book', [com('event', type_='e', description='d')]), ('book', [com('query', name='q', content='c')]), ('book', [com('custom', type_='c', values=list(MD.values()))]),
         ('parser.resolve-spans', [[0, 0, 4], [0, 2, 5], [0, 0, 0]]), ('parser.create-synthetic-spans', [dict(name='n1', content='c1'), dict(name='n2', content='c2')]),
         ('parser.format-errors', [dict(message='m', reason='r', span=[0, 0, 4], contexts=[['c', [0, 0, 9]]], related=[['r', [0, 5, 9]], ['s', [0, 0, 1]]], annotation='a'), dict(message='m', reason='r', span=[0, 0, 4])]),
         ('parser.format-warnings', [dict(message='m', reason='r', span=[0, 0, 4], contexts=[['c', [0, 0, 9]]], related=[['r', [0, 5, 9]]], annotation='a')])]
VALUES = [None, True, False, N('0'), N('7'), N('-1'), N('1.5'), N('1.0'), N('18446744073709551616'), '', 'x', '7', 'USD', '2020-02-02', ' 2020-02-02', '2020-02-02 ', '2020-2-02', '2020-02-30', '2020/02/02', '20200202', '2020-02-02T00:00:00', '02020-02-02', 'strict', 'Strict', 'hifo', 'STRICT', 'strict_with_size', 'strictWithSize', 'strict-with-size', 'FIFO', 'transaction', 'TXN', 'open', 'true', 'null',
          [], {}, ['x'], [N('1')], [None], [N('0'), N('1'), N('2')], [N('0'), N('1')], [N('0'), N('1'), N('2'), N('3')], [N('0'), N('-1'), N('2')], [N('0'), N('1'), N('2.5')], ['0', '1', '2'], ['x', [N('0'), N('0'), N('1')]], ['x', [N('0'), N('0')]], ['x', 'y', 'z'], [['x', [N('0'), N('0'), N('1')]]], [['x', [N('0'), N('0'), N('1')], 'y']], [['x']],
          dict(x=N('1')), dict(string='s'), dict(string=N('1')), dict(string=None), dict(string='s', x=N('1')), dict(string='s', tag='t'), dict(tag='t', string='s'), dict(cur='USD'), dict(cur='USD', units=N('1')), dict(units=N('1'), cur='USD'), dict(units=N('1')), dict(units=N('1'), string='s'), dict(cur='USD', string='s'),
          dict(units=N('1'), cur='USD', string='s'), dict(cur='USD', units=N('1'), tag='t'), dict(units=True, cur='USD'), dict(units=N('1'), cur=N('1')), dict(date='2020-02-02'), dict(date=' 2020-02-02'), dict(date='2020-02-02 '), dict(date='2020-2-2'), dict(date='2020-02-30'), dict(date=N('1')), dict(bool=True), dict(bool='true'), dict(bool=N('1')), dict(bool=None),
          dict(number=N('1')), dict(number=True), dict(number=None), dict(null=None), dict(null=True), dict(acc=N('1')), dict(acc='x'), dict(link=[]), dict(link='x'), dict(tag=None), dict(tag={}), dict(account='x'), dict(currency='x'), dict(value='x')]
DROP = object()
def walk(v, path=()):
    yield path, v
    if isinstance(v, dict):
        for k, x in v.items(): yield from walk(x, path + (k,))
    elif isinstance(v, list):
        for i, x in enumerate(v): yield from walk(x, path + (i,))
def put(v, path, x):
    if not path: return x
    k = path[0]
    if isinstance(v, list):
        v = list(v)
        if len(path) == 1 and x is DROP: del v[k]
        else: v[k] = put(v[k], path[1:], x)
        return v
    v = dict(v)
    if len(path) == 1 and x is DROP: del v[k]
    else: v[k] = put(v.get(k), path[1:], x)
    return v
BROKEN = '2020-01-01 open Assets:A\nwhat\n'
LEDGER = 'option "title" "t"\n2020-01-01 open Assets:A\n2020-01-01 open Equity:X\n2020-01-02 * "x"\n  Assets:A 1 USD\n  Equity:X\n'
def edits(method, base):
    """every request differing from the base in one part"""
    for path, old in walk(base):
        if path: yield put(base, path, DROP)
        for v in VALUES:
            if dumps(v) != dumps(old): yield put(base, path, v)
        if isinstance(old, dict) and path:
            for k, v in (('string', 's'), ('date', '2020-02-02'), ('cur', 'USD'), ('units', N('1')), ('extra', N('1'))):
                if k not in old: yield put(base, path + (k,), v)
        if isinstance(old, list):
            for v in VALUES: yield put(base, path, old + [v])
def far():
    """one misshapen item among many others"""
    good = {'book': dict(dct='commodity', date='2020-01-01', cur='USD'), 'parser.resolve-spans': [0, 0, 4], 'parser.create-synthetic-spans': dict(name='n', content='c'), 'parser.format-errors': dict(message='m', reason='r', span=[0, 0, 4])}
    bad = {'book': [dict(dct='commodity', date='2020-01-01'), dict(dct='none', date='2020-01-01'), None, dict(good['book'], date='2020-1-1')], 'parser.resolve-spans': [[0, 0], None, [0, 0, -1], [0, 0, 0, 0]], 'parser.create-synthetic-spans': [dict(name='n'), None, dict(content='c'), dict(name=None, content='c')], 'parser.format-errors': [dict(good['parser.format-errors'], span=[0]), dict(message='m', span=[0, 0, 4])]}
    for m, g in good.items():
        for n in (1, 2, 3, 17, 100, 300):
            for at in sorted({0, 1, n // 2, n - 1, n}):
                for b in bad[m] + [g]: yield m, [g] * at + [b] + [g] * (n - at)
FEW = [None, True, N('7'), 'x', [], {}, dict(string='s'), '2020-02-02', DROP]
def pairs(deep):
    """two parts of the last item changed, in different places"""
    for m, base in BASES:
        paths = [p for p, v in walk(base) if p and p[0] == len(base) - 1]
        for i, p in enumerate(paths):
            for q in paths[i + 1:]:
                if q[:len(p)] == p: continue
                for v in VALUES + [DROP] if deep else FEW:
                    for w_ in FEW: yield m, put(put(base, q, w_), p, v)
def w(chunk, r):
    for text in (LEDGER, BROKEN):
        part = [x[:2] for x in chunk if (x[2:] == ('broken',)) == (text is BROKEN)]
        if part: judge(text, part, r)
def judge(text, chunk, r):
    path = beanfile(text)
    lines, want = [], []
    for m, params in chunk:
        lines.append('{"jsonrpc":"2.0","id":%d,"method":%s,"params":%s}' % (len(lines), dumps(m), dumps(params))); want.append((m, params, METHODS[m](params) if isinstance(m, str) and m in METHODS else None if m in PLAIN else False))
        if m == 'parser.create-synthetic-spans' or len(lines) % 97 == 0:
            lines.append(request('parser.create-synthetic-spans', [dict(name='probe', content='c')], len(lines))); want.append(('probe', None, True))
        if len(lines) % 101 == 0: lines.append(request('book', None, len(lines))); want.append(('same', None, True))
    ans = ask(path, lines, timeout=200)
    made, same = [], None
    for i, ((m, params, ok), a) in enumerate(zip(want, ans)):
        def bad(msg, key=None): r.violation(msg, dict(files=[['main.beancount', text]], lines=[lines[i]] if m != 'same' else lines[max(0, i - 300):i + 1]), key)
        if isinstance(a, Dead):
            if 'not run' not in a.how: bad('%s: %r' % (m, a))
            continue
        code = int(a['error']['code']) if a.get('error') else None
        if a.get('id') != i: bad('answered with id %s' % a.get('id')); continue
        if m == 'same':
            if code != (2 if text is BROKEN else None): bad('book answers %s after refused requests' % str(a)[:300])
            continue
        if m in ('probe', 'parser.create-synthetic-spans') and code is None: made.append((i, a['result']))
        if m == 'probe': continue
        r.add('requests')
        if ok is None: r.add('not said'); continue
        r.outcome((str(m), ok, code))
        if r.n['requests'] % 1500 == 1: r.sample(dict(method=m, params=str(params)[:300], well_formed=ok, code=code))
        if ok and code == -32700: bad('well-formed, but refused: %s' % a['error']['message'])
        if ok and text is BROKEN and m == 'book' and code != 2: bad('answers %s of a ledger which does not parse' % str(a)[:200])
        if not ok and code != -32700:
            key = None
            if isinstance(m, Num): key = 'D25' if re.fullmatch(r'\d', m) and int(m) < 9 else None
            elif m in METHODS:
                t, keys = taken(params)
                if keys and METHODS[m](t) is not False: key = sorted(keys)[0]
            bad('accepted (answer %s), though not of the documented structure' % str(a)[:200], key)
    # sources get the spans they get without the refused requests
    if made:
        alone = ask(path, [lines[i] for i, _ in made])
        for (i, x), y in zip(made, alone):
            if isinstance(y, Dead) or y.get('result') != x: r.violation('synthetic sources get %s after refused requests, %s without those' % (x, y), dict(files=[['main.beancount', text]], lines=lines[:i + 1])); break
PLAIN = ('status', 'parser.plugins', 'parser.directives', 'parser.options')
def every():
    for m, b in BASES:
        assert METHODS[m](b) is True, b
        yield m, b
        for p in edits(m, b): yield m, p
        for v in VALUES:
            if dumps(v) != dumps(b): yield m, [v], 'broken'
            yield m, v, 'broken'
        yield m, b, 'broken'
        if m.startswith('parser'): yield m, None
    yield from far()
    names = list(METHODS) + list(PLAIN)
    for v in VALUES + [Num(i) for i in range(20)] + [x for n in names for x in (n.upper(), n + ' ', ' ' + n, n[:-1], n + 's', n.replace('.', '/'), n.replace('-', '_'), n.split('.')[-1], 'parser.' + n, [n], {n: None})]:
        if v not in names or isinstance(v, Num):
            for p in ([], None): yield v, p; yield v, p, 'broken'
def run(tier, seed):
    t = Result()
    deep = tier == 'thorough'
    end = time.time() + (600 if deep else 240)
    _, d1 = fan_out(w, every(), 400, t, end)
    _, d2 = fan_out(w, pairs(deep), 800, t, end)
    return t, dict(states=t.n.get('requests', 0), transitions=t.n.get('requests', 0), traces_validated_against_impl=t.n.get('requests', 0) - t.n.get('not said', 0), exhaustive=d1 and d2)
