"""C08 pads."""
import time
from ..seqs import *
LEVEL = 'model_checking'
A, S, B, X, Y = 'Assets:A', 'Assets:A:S', 'Assets:B', 'Equity:X', 'Equity:Y'
def run(tier, seed):
    t = Result()
    deep = tier == 'thorough'
    deadline = time.time() + (600 if deep else 240)
    k = ('balance', 'pad')
    opens = [op(A), op(S), op(B), op(X), op(Y)]
    L = [('pad A<X', pad(A, X)), ('pad A<Y', pad(A, Y)), ('pad S<X', pad(S, X)), ('pad B<A', pad(B, A)), ('pad X<A', pad(X, A)), ('pad A<S', pad(A, S)), ('pad S<A', pad(S, A)), ('pad A<A', pad(A, A)),
         ('bal A 10', bal(A, '10')), ('bal A 10.5~1', bal(A, '10.5', tol='1')), ('bal A EUR 3', bal(A, '3', 'EUR')), ('bal S 4', bal(S, '4')), ('bal B 0', bal(B, '0')), ('bal X -10', bal(X, '-10')), ('bal A 0', bal(A, '0')),
         ('tx A 1', mv(A, X, '1')), ('tx S 2', mv(S, Y, '2')), ('tx A EUR', mv(A, B, '3', 'EUR')), ('close X', cl(X)), ('close A', cl(A)), ('tx bad', tx((A, '9', 'USD')))]
    probes = exact_probes([A, S, B, X, Y], ['USD', 'EUR'])
    kw = dict(kinds=k, on_success=booked_pads)
    s1 = Space('pads, assertions and transactions', opens, L, probes, **kw)
    few = [l for l in L if l[0] in ('pad A<X', 'pad S<X', 'pad B<A', 'bal A 10', 'bal S 4', 'bal A EUR 3', 'tx A 1', 'tx S 2')]
    s2 = Space('deeper', opens, few, probes, **kw)
    s2d = Space('same day', opens, few + [L[1]], probes, dates=same_day, **kw)
    s2b = Space('dates decreasing', opens, few + [L[1]], probes, dates=backwards, **kw)
    # without probes, so that booking succeeds and the padding transaction is seen
    ok = [('pad+bal %s<%s %s %s' % (a[-1], s[-1], u, c), a, s, u, c) for a in (A, S, B, X) for s in (A, B, X, Y) if a != s and not s.startswith(a + ':') for u, c in (('10', 'USD'), ('-0.001', 'EUR'))]
    letters, ex = [], []
    def letter(name, d): letters.append((name, d)); return len(letters) - 1
    fill = [letter('tx A 1', mv(A, X, '1')), letter('tx S 2', mv(S, Y, '2')), letter('tx B lots', tx(post(B, '2', 'USD', **{'cost-spec': {'per-unit': Num('5'), 'cur': 'EUR'}}), (X, '-10', 'EUR'))), letter('note', dict(dct='note', acc=A, comment='n')), letter('bal A 0', bal(A, '0', tol='1000'))]
    meta = dict(tags=['t1', 't2'], links=['l1'], metadata={'k': {'string': 'v'}})
    pairs = []
    for name, a, s, u, c in ok:
        for kw2 in ({}, meta) if c == 'USD' else ({},):
            pairs.append((letter('pad %s<%s' % (a, s), dict(pad(a, s), **kw2)), letter('bal %s %s %s' % (a, u, c), bal(a, u, c)), a))
    for p, b, _ in pairs:
        for f in itertools.product(range(len(fill) + 1), repeat=3):
            f = [() if x == len(fill) else (fill[x],) for x in f]
            ex.append(f[0] + (p,) + f[1] + (b,) + f[2])
            if f[0] == (): ex.append((p,) + f[1] * 12 + (b,) + f[2] + (b,))
    for p, b, a in pairs:
        for p2, b2, a2 in pairs:
            if a != a2:
                for f in range(len(fill)): ex += [(p, p2, fill[f], b, b2), (p, p2, fill[f], b2, b), (p, b, fill[f], p2, b2), (p, fill[f], p2, b, b2)]
            else: ex += [(p, b, p2, b2), (p, b, fill[0], p2, b2), (p, p2, b), (p, p2, b, b2), (p, b, b2), (p, b, p2)]
    s3 = Space('successful pads', opens, letters, (), **kw)
    s3d = Space('successful pads, same day', opens, letters, (), dates=same_day, **kw)
    exd = [e for e in ex if len(e) < 6]
    # accounts with restricted currencies and currencies of their own
    cl_ = [('pad U<V', pad('Assets:U', 'Assets:V')), ('pad V<U', pad('Assets:V', 'Assets:U')), ('pad U<X', pad('Assets:U', X)), ('pad N<V', pad('Assets:N', 'Assets:V'))] + \
          [('bal %s %s' % (a[-1], c), bal(a, '5', c)) for a in ('Assets:U', 'Assets:V', 'Assets:N') for c in ('USD', 'EUR')] + [('tx U', mv('Assets:U', X, '1')), ('close V', cl('Assets:V'))]
    s4 = Space('restricted currencies', [op('Assets:U', 'USD'), op('Assets:V', 'EUR', 'GBP'), op('Assets:N'), op(X)], cl_, exact_probes(['Assets:U', 'Assets:V', 'Assets:N', X], ['USD', 'EUR']), kinds=k + ('currency',), on_success=booked_pads)
    s4n = Space('restricted currencies, booked', s4.prefix, cl_, (), kinds=s4.kinds, on_success=booked_pads)
    cov = explore([(s1, 4 if deep else 3, 0, ()), (s2, 6 if deep else 5, 0, ()), (s2d, 5 if deep else 4, 0, ()), (s2b, 5 if deep else 4, 0, ()), (s3, None, 0, ex), (s3d, None, 0, exd), (s4, 5 if deep else 4, 0, ()), (s4n, 4, 0, ())], t, deadline)
    return t, cov
