"""C30 a journal lists every posting in order with the running balance."""
import time
from ..clj import *
from .c28 import txn, pst, cost, A, B, COSTS
LEVEL = 'model_checking'
ASSUMPTIONS = ['the Clojure sources run on the interpreter in /verif/clj, not on Clojure itself']
F = """(require 'limabean '[limabean.core.filters :as f])
(fn [{:keys [directives accs]}] (if accs (limabean/journal {:directives directives} (list (apply f/sub-acc accs))) (limabean/journal {:directives directives})))"""
ATTRS = ('date', 'payee', 'narration')
def norm(x):
    """numbers as values, sets as sorted lists"""
    if isinstance(x, (Decimal, int)) and not isinstance(x, bool): return ('n', Decimal(x).normalize() + 0)
    if isinstance(x, Num): return ('n', Decimal(x).normalize() + 0)
    if isinstance(x, dict): return {k: sorted(map(str, v)) if k in ('tags', 'links') else norm(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [norm(y) for y in x]
    return x
def expected(ds, accs):
    bal, out = {}, []
    for d in ds:
        if d['dct'] != 'txn': continue
        for p in d.get('postings', []):
            if accs and not any(p['acc'] == a or p['acc'].startswith(a + ':') for a in accs): continue
            e = dict({k: d[k] for k in ATTRS if k in d}, **{k: v for k, v in p.items() if k != 'cost'})
            bal[p['cur']] = bal.get(p['cur'], 0) + Decimal(p['units'])
            e['bal'] = [dict(units=bal[c], cur=c) for c in sorted(bal) if bal[c]]
            out.append(e)
    return out
def strip(x):
    if isinstance(x, dict): return {k: strip(v) for k, v in x.items() if k != 'cell/type'}
    return [strip(y) for y in x] if isinstance(x, list) else x
def w(chunk, r):
    cases_ = [dict(directives=d, **({'accs': a} if a else {})) for d, a in chunk]
    for (ds, accs), c, ans in zip(chunk, cases_, call(F, cases_)):
        r.add('cases')
        if failed(ans): m = why(ans)
        else:
            try: got = norm(strip(ans))
            except ArithmeticError: got = ans
            want = norm(expected(ds, accs))
            m = None if got == want else next(('entry %d is %s, expected %s' % (i, g, w_) for i, (g, w_) in enumerate(itertools.zip_longest(got, want)) if g != w_), '%s, expected %s' % (got, want)) if isinstance(got, list) else 'not a list: %s' % (got,)
        if m: r.violation('accounts %s, directives %s: %s' % (accs, dumps(ds)[:600], m), dict(clj=F, cases=[c]))
        else:
            r.outcome((len(ans), len(ans[-1]['bal']) if ans else 0))
            if r.n['cases'] % 211 == 1: r.sample(dict(directives=dumps(ds)[:400], journal=dumps(ans)[:400]))
P = itertools.product
def cases(deep):
    small = [pst(a, u, c, k) for a, u, c, k in ((A, '1', 'USD', None), (A, '-1', 'USD', None), (B, '2.50', 'USD', None), (A, '1.00', 'EUR', None), (B, '-1', 'STK', COSTS[1]), (A, '1', 'STK', COSTS[3]), ('Assets:A:S', '3', 'USD', None), ('Assets:AB', '0.00', 'USD', None))]
    for n in range(6 if deep else 5):
        for s in P(small, repeat=n): yield [txn(*s)], None
    for n in range(1, 4):
        for s in P(small, repeat=n):
            for accs in ([A], ['Assets'], [B, 'Assets:AB'], ['Income']): yield [txn(p) for p in s], accs
    # several transactions with their own attributes, in the order given whatever their dates; other directives in between
    heads = [dict(), dict(payee='p'), dict(narration='n'), dict(payee='', narration='é "q"', date='2019-12-31'), dict(flag='!', date='2021-02-28', tags=['t'], links=['l'], metadata={'k': {'string': 'x'}})]
    own = [dict(), dict(flag='!'), dict(price={'per-unit': Num('3'), 'cur': 'EUR'}), dict(tags=['a', 'b'], links=['l']), dict(metadata={'k': {'number': Num('1.50')}}), dict(idx=Num('3'), span=[0, 1, 2]), dict(payee='own', narration='own', date='2001-01-01'), dict(cost=cost())]
    other = [dict(date='2020-01-01', dct='balance', acc=A, units=Num('7'), cur='STK'), dict(date='2020-01-01', dct='open', acc=A), txn(), dict(date='2020-01-01', dct='event', type='t', description='d', postings=[pst(A, '5')])]
    for h, g in P(heads, repeat=2):
        for x, y in P(own, repeat=2):
            yield [txn(pst(A, '1', 'USD', **x), **h), txn(pst(B, '-1', 'USD', **y), pst(A, '2', 'EUR', **x), **g)], None
            for o in other: yield [o, txn(pst(A, '1', 'USD', **x), **h), o, o, txn(pst(B, '2', 'EUR', **y), pst(A, '2', 'EUR'), **g), o], [A] if deep else None
    vals = ['1', '1.0', '-1.000', '0', '9223372036854775807', '-9223372036854775808', '5000000000000000000', '79228162514264337593543950335', '0.0000000000000000000000000001', '-0.0000000000000000000000000001', '1e2']
    for n in (1, 2, 3):
        for s in P(vals, repeat=n): yield [txn(*(pst(A, v, 'USD') for v in s))], None
    yield [txn(*(pst('Assets:X%d' % i, str(i - 50), 'C%d' % (i % 13)) for i in range(100)))], None
    yield [], None
def run(tier, seed):
    t = Result()
    deep = tier == 'thorough'
    _, d = fan_out(w, cases(deep), 300, t, time.time() + (700 if deep else 200))
    n = t.n.get('cases', 0)
    return t, dict(states=n, transitions=n, traces_validated_against_impl=n, exhaustive=d)
