"""C11 interpolation: every pattern of written and missing parts."""
import time
from ..cases import *
LEVEL = 'model_checking'
E_, H, M, X, F = 'Assets:Empty', 'Assets:Held', 'Assets:Many', 'Equity:X', 'Assets:Lots'
PRE = [op(E_), op(H), op(M), op(X), op(F, booking='fifo'),
       tx((H, '5', 'EUR'), (X, '-5', 'EUR')), tx((M, '5', 'EUR'), (X, '-5', 'EUR')), tx((M, '5.5', 'GBP'), (X, '-5.5', 'GBP')),
       tx(post(F, '2', 'STK', **at('cost', per='4', cur='USD')), (X, '-8', 'USD')), tx(post(F, '3', 'STK', **at('cost', per='5', cur='USD')), (X, '-15', 'USD'))]
def shapes(acc, units, curs, specs, both=True):
    for u in units:
        for c in curs:
            for kind, parts in specs:
                kw = {} if kind is None else at(kind, **parts)
                if u is not None and u.startswith('-') and 'total' in (parts or {}): continue     # D12, see C09
                yield post(acc, u, c, **kw)
SPECS = [(None, None)] + [(k, p) for k in ('price', 'cost') for p in ({}, dict(per='2'), dict(total='7'), dict(cur='USD'), dict(per='1.25', cur='USD'), dict(total='7.50', cur='USD'), dict(cur='EUR'), dict(per='0'), dict(per='0', cur='USD'), dict(total='0', cur='USD'))]
FEW = [(None, None), ('price', {}), ('price', dict(per='2', cur='USD')), ('price', dict(cur='USD')), ('cost', {}), ('cost', dict(per='2', cur='USD')), ('cost', dict(total='7')), ('cost', dict(cur='USD'))]
def one():
    for acc in (E_, H, M, F):
        for p in shapes(acc, (None, '0', '3', '-2.5', '1.000'), (None, 'USD', 'EUR', 'STK'), SPECS):
            yield Case(PRE + [tx(p)], 'one posting')
def two():
    for acc in (E_, H, F):
        ps = list(shapes(acc, (None, '3', '-2.5'), (None, 'USD', 'STK'), SPECS))
        qs = list(shapes(X, (None, '-6.25', '10'), (None, 'USD', 'EUR'), SPECS if acc == E_ else FEW))
        for a in ps:
            for b in qs: yield Case(PRE + [tx(a, b)], 'two postings')
def three(deep, deeper):
    ps = list(shapes(E_, (None, '3'), (None, 'USD', 'STK'), FEW))
    qs = list(shapes(H, (None, '2'), (None, 'USD') if not deep else (None, 'USD', 'EUR'), FEW[:4] if not deep else FEW))
    rs = list(shapes(X, (None, '-6.25') if not deeper else (None, '-6.25', '0'), (None, 'USD', 'EUR'), FEW[:5] if not deeper else FEW))
    if deeper: ps = list(shapes(E_, (None, '3', '-1.5'), (None, 'USD', 'STK', 'EUR'), FEW))
    for a in ps:
        for b in qs:
            for c in rs:
                yield Case(PRE + [tx(a, b, c)], 'three postings')
                if deep:
                    yield Case(PRE + [tx(c, a, b)], 'three postings'); yield Case(PRE + [tx(b, c, a)], 'three postings')
def remainder():
    """the auto posting absorbs the remainder, whatever its position, among up to 12 others, of every scale and sign"""
    amts = ['1', '-1.5', '0.001', '-1000000.01', '0', '33.333333', '-7.00', '12345678901234567890.12', '0.0000000001']
    for n in range(1, 13):
        for pos in sorted({0, 1, n // 2, n}):
            for shift in range(len(amts)):
                ps = [((E_, H, M)[i % 3], amts[(i * 2 + shift) % len(amts)], 'USD') for i in range(n)]
                for auto in ((X,), (X, None, 'USD'), (X, None, 'EUR')):
                    q = list(ps); q.insert(pos, auto)
                    yield Case(PRE + [tx(*q)], 'remainder')
    for a, b in itertools.product(amts, repeat=2):
        for auto in ((X,), (X, None, 'USD'), post(X, None, 'EUR', **at('price', per='2', cur='USD')), post(X, '4', 'EUR', **at('price', cur='USD')), post(X, '4', 'EUR', **at('price')), post(X, '4', 'EUR', **at('cost', cur='USD')), post(X, None, 'EUR', **at('cost', per='2', cur='USD'))):
            p = auto if isinstance(auto, dict) else post(*auto)
            if Decimal(a) + Decimal(b) == 0 and 'price-spec' not in p and 'cost-spec' not in p or True:
                yield Case(PRE + [tx((E_, a, 'USD'), (H, b, 'USD'), p)], 'remainder of two')
    for g in (['USD'], ['USD', 'EUR'], ['USD', 'EUR', 'GBP']):      # an auto posting, and remainders in one, two and three currencies
        for bal_ in itertools.product((0, 1), repeat=len(g)):
            ps = []
            for c, x in zip(g, bal_):
                ps.append((E_, '5', c))
                if x: ps.append((H, '-5', c))
            for pos in range(len(ps) + 1):
                q = list(ps); q.insert(pos, (X,)); yield Case(PRE + [tx(*q)], 'currencies')
                q.insert(pos, (M,)); yield Case(PRE + [tx(*q)], 'two auto')
def history():
    """inference from what is held depends on the history"""
    ls = [tx((H, '-5', 'EUR'), (X, '5', 'EUR')), tx((H, '1', 'USD'), (X, '-1', 'USD')), tx((H, '3'), (X, '-3', 'EUR')), tx((H, '3'), (X, '-3')), tx((H, None, 'USD'), (X, '2')), tx(post(F, '-1', 'STK', **{'cost-spec': {}}), (X,)),
          tx(post(F, '1', 'STK', **at('cost', per='6')), (X,)), tx(post(F, '-4', None, **{'cost-spec': {}}), (X,)), tx(post(H, '1', 'USD', **at('price', per='2')), (X, '-2')), tx(post(F, '1', 'STK', **at('cost')), (X, '-9')), bal(H, '1', 'EUR')]
    for n in range(1, 5):
        for c in itertools.product(ls, repeat=n):
            yield Case(PRE + list(c) + [bal(H, '0', 'EUR', tol='9999'), bal(H, '77', 'EUR'), bal(F, '77', 'STK')], 'history')
            if n < 4: yield Case(PRE + list(c), 'history, booked')
def w(chunk, r): w_cases(chunk, r, lambda c: [('D13', dict(quirks=('D13',)))], True)
def run(tier, seed):
    t = Result()
    deep = tier == 'thorough'
    deadline = time.time() + (800 if deep else 240)
    done = True
    for g_ in (one(), two(), three(True, deep), remainder(), history()):
        t, d = fan_out(w, g_, 400, t, deadline); done = done and d
    return t, dict(states=t.n.get('replayed', 0), transitions=t.n.get('replayed', 0), traces_validated_against_impl=t.n.get('replayed', 0), complete=done)
