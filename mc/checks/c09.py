"""C09 transactions written out in full: booked iff they balance within tolerance."""
import time, functools
from ..cases import *
LEVEL = 'model_checking'
A, B, X = 'Assets:A', 'Assets:B', 'Equity:X'
TOLS = [(None, None), ('0.5', {'USD': '0.01'}), ('1', None), ('0.1', {'*': '0.5'}), ('1.2', {'EUR': '2', 'USD': '0'}), ('0', None), (None, {'*': '0.005', 'USD': '3'})]
def neg(s): return s[1:] if s.startswith('-') else '-' + s
def f(d): return format(d, 'f')
def ulp(n): return Decimal(1).scaleb(-n)
OPENS = [op(A), op(B), op(X)]
def two():
    """two postings: amounts of every scale pair, residual around the tolerance"""
    for mult, dflt in TOLS:
        m = Decimal(mult or '0.5')
        for s1 in range(0, 6):
            for s2 in range(0, 6):
                for base in ('0', '7', '-1234.5', '0.00001', '999999.99999'):
                    a = Decimal(base).quantize(ulp(s1), rounding='ROUND_DOWN')
                    scales = [s for s in (s1, s2) if s]
                    tol = ulp(min(scales)) * m if scales else Decimal((dflt or {}).get('USD', (dflt or {}).get('*', 0)))
                    bs = set()
                    for d in (0, tol, ulp(s2), tol + ulp(s2), tol - ulp(s2), 2 * tol, Decimal('0.5'), ulp(s1), ulp(5)):
                        for sg in (1, -1):
                            for rnd in ('ROUND_FLOOR', 'ROUND_CEILING'): bs.add((-a + sg * d).quantize(ulp(s2), rounding=rnd))
                    for b in sorted(bs):
                        yield Case(OPENS + [tx((A, f(a), 'USD'), (X, f(b), 'USD'))], 'two amounts', mult, dflt)
def three(deep):
    """three postings, up to three currencies; the tolerance is per currency"""
    vals = ['1', '-1', '0.50', '-0.5', '0.005', '-0.004', '-1.004', '-0.996', '0.4', '-0.6']
    for mult, dflt in TOLS if deep else TOLS[:4]:
        for u in itertools.product(vals, repeat=3):
            for cs in itertools.product(('USD', 'EUR', 'US', 'USDX'), repeat=3) if deep else (('USD', 'USD', 'USD'), ('USD', 'EUR', 'USD'), ('EUR', 'USD', 'EUR'), ('USD', 'US', 'USD'), ('USD', 'USD', 'USDX')):
                yield Case(OPENS + [tx((A, u[0], cs[0]), (B, u[1], cs[1]), (X, u[2], cs[2]))], 'three amounts', mult, dflt)
def single():
    for mult, dflt in TOLS:
        for v in ('0', '0.00', '1', '-1', '0.01', '0.005', '0.0000001', '0.5', '-0.5', '3', '2', '0.4', '10'):
            for c in ('USD', 'EUR', 'GBP'): yield Case(OPENS + [tx((A, v, c))], 'one amount', mult, dflt)
        yield Case(OPENS + [tx()], 'no postings', mult, dflt)
        yield Case(OPENS + [dict(dct='txn', flag='*', postings=[])], 'no postings', mult, dflt)
def four():
    """two currencies, each of two amounts: whether each is within its own tolerance"""
    vals = ['0', '0.004', '0.005', '0.01', '0.4', '0.5', '1', '2', '3']
    for mult, dflt in TOLS + [(None, {'USD': '1'}), (None, {'*': '1', 'EUR': '0'}), ('2', {'US': '1', 'EUR': '0.004'})]:
        for a, b in itertools.product(vals, repeat=2):
            for sa, sb in itertools.product((1, 7), ('5', '5.0', '5.00')):
                yield Case(OPENS + [tx((A, str(sa), 'USD'), (B, sb, 'EUR'), (X, f(Decimal(a) - sa), 'USD'), (X, f(-Decimal(sb) - Decimal(b)), 'EUR'))], 'four amounts', mult, dflt)
def reductions(deep):
    """sales from lots for an amount around their weight, rounded lot by lot"""
    lots = [('2', '4'), ('3', '5.125'), ('1.5', '3.333'), ('10.00', '0.001'), ('0.125', '1234.56789'), ('7', '9.99'), ('4', '-1.5')]
    for mult, dflt in TOLS if deep else TOLS[:3]:
        for n in (1, 2, 3):
            for ls in itertools.permutations(lots, n) if deep else itertools.combinations(lots[:6], n):
                if any(c.startswith('-') for _, c in ls): continue
                buys = [tx(post(A, u, 'STK', **at('cost', per=c, cur='EUR')), (X,)) for u, c in ls]
                held = sum(Decimal(u) for u, _ in ls)
                for m in ('fifo', 'lifo', 'hifo', 'strict'):
                    for take in sorted({held, held - Decimal(ls[-1][0]) / 2, Decimal(ls[0][0]), Decimal('0.5')}):
                        o = [op(A, booking=m), op(B), op(X)]
                        led = Ledger(mult, dflt).run([dict(d, date=day(i)) for i, d in enumerate(o + buys + [tx(post(A, f(-take), 'STK', **{'cost-spec': {}}), (X,))])])
                        if led.errors: continue
                        w = led.booked[-1][1][-1][0]['units']
                        for d in ('0', '0.0004', '0.0006', '-0.004', '0.006', '-0.5', '0.6', '1', '-3'):
                            for q in (None, 2, 0):
                                v = w + Decimal(d)
                                if q is not None: v = v.quantize(ulp(q))
                                yield Case(o + buys + [tx(post(A, f(-take), 'STK', **{'cost-spec': {}}), (X, f(v), 'EUR')), tx(post(A, f(-take), 'STK', **{'cost-spec': {}}), (B, f(v), 'EUR'))], 'reduction', mult, dflt)
def groups():
    """many currencies in one transaction, one of them out of balance"""
    curs = ['USD', 'EUR', 'GBP', 'CHF', 'SEK', 'US', 'USDX', 'A', "N-Z.D'1X"]
    for n in range(2, 10):
        for bad in [None] + list(range(n)):
            for d in ('0.004', '0.006', '-1'):
                for order in (0, 1, 2):
                    ps = [(A, str(i + 1) + '.00', c) for i, c in enumerate(curs[:n])]
                    qs = [(X, f(-Decimal(i + 1) + (Decimal(d) if i == bad else 0)), c) for i, c in enumerate(curs[:n])]
                    yield Case(OPENS + [tx(*(ps + qs if order == 0 else qs[::-1] + ps if order == 1 else [x for pq in zip(ps, qs) for x in pq]))], 'many currencies')
def weighed(negative=False, deep=False):
    """units at cost or price, per unit or total, against an amount around the weight"""
    us = ['1', '3', '0', '2.5', '0.125', '1000', '10.00', '7.3333']
    ns = ['1', '2', '0', '0.5', '1.10', '3.3333', '0.001', '12.345']
    for mult, dflt in TOLS if deep else TOLS[:4]:
        m = Decimal(mult or '0.5')
        for u in us + [neg(x) for x in us if x != '0']:
            for n in ns:
                for kind in ('cost', 'price'):
                    for what in ('per', 'total'):
                        if (what == 'total' and u.startswith('-')) != negative: continue
                        if kind == 'cost' and u.startswith('-'): continue   # short lots: C10
                        if what == 'total' and Decimal(u) == 0: continue     # 0 units at a total: C11
                        # the number in the other currency: the weight, and around it
                        w = Decimal(u) * Decimal(n) if what == 'per' else Decimal(n) * (-1 if negative else 1)
                        for s in (0, 1, 2, 3, 4, 6) if deep else (0, 2, 4) if not negative else (2,):
                            ws = set()
                            su, sn = max(0, -Decimal(u).as_tuple().exponent), max(0, -Decimal(n).as_tuple().exponent)
                            sw = (su or sn) if what == 'per' else sn
                            scales = [x for x in (s, sw) if x]
                            tol = ulp(min(scales)) * m if scales else Decimal((dflt or {}).get('EUR', (dflt or {}).get('*', 0)))
                            for d in (0, tol, ulp(s), tol + ulp(s), -tol, -ulp(s), -tol - ulp(s), w * 2):
                                for rnd in ('ROUND_FLOOR', 'ROUND_CEILING'): ws.add((-(w + d)).quantize(ulp(s), rounding=rnd))
                            for v in sorted(ws):
                                yield Case(OPENS + [tx(post(A, u, 'STK', **at(kind, cur='EUR', **{what: n})), (X, f(v), 'EUR'))], '%s %s %s' % (kind, what, 'negative units' if negative else ''), mult, dflt)
def compound():
    """costs with both a per-unit and a total number; their sum counts"""
    for u in ('1', '2', '2.5', '10.00'):
        for per in ('0', '1', '1.50', '10'):
            for total in ('0', '3', '0.99', '20'):
                for w in sorted({Decimal(u) * Decimal(per) + Decimal(total), Decimal(total), Decimal(u) * Decimal(per)}):
                    for d in ('0', '0.02', '-0.02', '1'):
                        yield Case(OPENS + [tx(post(A, u, 'STK', **at('cost', per=per, total=total, cur='EUR')), (X, f(-w + Decimal(d)), 'EUR'))], 'compound cost')
def mixed():
    """several weighed postings in one transaction: cost, price, plain, in different orders"""
    ps = [post(A, '3', 'STK', **at('cost', per='2.50', cur='USD')), post(A, '2', 'ETF', **at('cost', total='9.99', cur='USD')), post(B, '10.00', 'EUR', **at('price', per='1.1', cur='USD')),
          post(B, '-4', 'EUR', **at('price', per='1.25', cur='USD')), post(X, '-7.50', 'USD'), post(X, '-9.99', 'USD'), post(B, '-17.49', 'USD'), post(X, '-11.00', 'USD'), post(A, '5', 'USD'), post(X, '4', 'EUR'), post(X, '-4', 'EUR'),
          post(A, '3', 'STK', **dict(at('cost', per='2.50', cur='USD'), **at('price', per='99', cur='USD'))), post(B, '-10', 'EUR', **at('price', per='1.1', cur='GBP')), post(B, '11', 'GBP')]
    for k in (2, 3):
        for c in itertools.product(ps, repeat=k): yield Case(OPENS + [tx(*c)], 'mixed')
    for c in itertools.combinations(ps, 4): yield Case(OPENS + [tx(*c)], 'mixed')
def long():
    """many postings; the total is over all of them"""
    for n in (4, 5, 8, 13, 20, 50):
        for bad in [None] + sorted({0, 1, n // 2, n - 2, n - 1}):
            for d in ('0.004', '0.005', '0.006', '-0.01', '1'):
                us = [Decimal('1.01') * (i + 1) for i in range(n - 1)]
                us.append(-sum(us))
                if bad is not None: us[bad] += Decimal(d)
                yield Case(OPENS + [tx(*[((A, B, X)[i % 3], f(u), 'USD') for i, u in enumerate(us)])], 'long')
                us = [Decimal(i + 1) for i in range(n - 1)]; us.append(-sum(us))
                if bad is not None: us[bad] += Decimal(d)
                yield Case(OPENS + [tx(*[((A, B, X)[i % 3], f(u), 'CUR%s' % 'ABC'[i % 1]) for i, u in enumerate(us)])], 'long')
def history():
    """unbalanced transactions between others: each judged on its own"""
    good, bad = tx((A, '1', 'USD'), (X, '-1.00', 'USD')), tx((A, '1', 'USD'), (X, '-1.01', 'USD'))
    near = tx((A, '1.00', 'USD'), (X, '-1.004', 'USD'))
    for n in range(1, 6):
        for c in itertools.product((good, bad, near), repeat=n): yield Case(OPENS + list(c) + [bal(A, str(sum(x is not bad for x in c)), tol='0')], 'history')
def finest():
    """amounts of as many decimals as there are"""
    for mult in (None, '1', '0.1'):
        for n in range(24, 29):
            for d in ('0', '1', '-1', '4', '5', '6', '10'):
                for base in ('1', '-123', '0'):
                    a = Decimal(base) + ulp(n)
                    if base != '0' and n + len(base.strip('-')) > 28: continue     # numbers have 28 digits (C16)
                    yield Case(OPENS + [tx((A, f(a), 'USD'), (X, f(-a + Decimal(d) * ulp(n)), 'USD'))], 'finest', mult)
def known(c):
    ks = []
    if c.name == 'compound cost': ks.append(('D22', dict(quirks=('D22',))))
    if 'negative units' in c.name: ks.append(('D12', dict(quirks=('D12',))))
    if c.name == 'finest' or c.mult == '0': ks.append(('D14', dict(quirks=('D14',))))
    return ks
def w(chunk, r): w_cases(chunk, r, known, True)
def run(tier, seed):
    t = Result()
    deep = tier == 'thorough'
    deadline = time.time() + (600 if deep else 90)
    gens = [two(), three(deep), four(), single(), weighed(deep=True), mixed(), reductions(True), groups(), long(), history(), finest(), compound(), weighed(True, True)]
    done = True
    for g_ in gens:
        t, d = fan_out(w, g_, 400, t, deadline); done = done and d
    return t, dict(states=t.n.get('replayed', 0), transitions=t.n.get('replayed', 0), traces_validated_against_impl=t.n.get('replayed', 0), complete=done)
