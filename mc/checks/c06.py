"""C06 balance assertions: the decision."""
import time
from ..seqs import *
LEVEL = 'model_checking'
X = 'Equity:X'
P, S, T, LA, LB = 'Assets:A', 'Assets:A:S', 'Assets:A:S:T', 'Assets:AB', 'Assets:A-B'
LOOK = [P, S, T, LA, LB, 'Assets', 'Assets:A:SS', 'Assets:B:A', 'Liabilities:A', 'Assets:A:S-T', 'Assets:A1', 'A', 'Assets:B']
def tolcases():
    """(multiplier option or None, holding, asserted, tolerance) around the tolerance boundary"""
    for mult in (None, '0.5', '1', '0.1', '1.2', '0.05', '0'):
        m = Decimal(mult) if mult is not None else Decimal('0.5')
        for hold in ('0', '100', '-100', '99.99', '1000000', '0.001', '123456789012345.67', '-0.000000000000001'):
            for scale in range(0, 8) if hold != '-0.000000000000001' else (8, 9, 10, 12, 15, 18, 21, 24, 26):
                if len(hold) > 16 and hold[0] == '1' and scale > 5: continue
                for tol in (None, '0', '0.00', '0.005', '0.01', '1', '2.5', '0.0000001'):
                    if tol is not None: eff = Decimal(tol)
                    elif scale: eff = Decimal(1).scaleb(-scale) * m * 2
                    else: eff = Decimal(0)
                    base = Decimal(hold)
                    ulp = Decimal(1).scaleb(-scale)
                    asserted = set()
                    for delta in (0, eff, ulp, 2 * ulp, eff - ulp, eff + ulp, eff * 2):
                        for sg in (1, -1):
                            v = (base + sg * delta)
                            asserted.add(v.quantize(ulp, rounding='ROUND_FLOOR'))
                            asserted.add(v.quantize(ulp, rounding='ROUND_CEILING'))
                    for a in sorted(asserted): yield (mult, hold, format(a, 'f'), tol, None)
                    # holdings finer than the asserted amount, exactly on and just off the boundary
                    if scale and tol is None or tol is not None and scale == 2:
                        a = base.quantize(ulp)
                        for sg in (1, -1):
                            for eps in (Decimal(0), Decimal('1e-10'), Decimal('-1e-10')):
                                yield (mult, format(a - sg * (eff + eps), 'f'), format(a, 'f'), tol, None)
    # options which are for transactions only; zeroes with a sign
    for mult in (None, '1', '0'):
        for opt in (None, *OTHER):
            for hold in ('0', '1', '-1', '100', '0.01', '-0.004', '0.02'):
                for a in ('0', '-0', '1', '-1', '100', '101', '99', '-0.0', '0.00', '-0.00', '0.01', '1.00'):
                    for tol in (None, '0', '-0', '0.01'): yield (mult, hold, a, tol, opt)
OTHER = ['option "inferred_tolerance_default" "USD:0.01"\n', 'option "inferred_tolerance_default" "*:1"\n', 'option "inferred_tolerance_default" "USD:1"\noption "inferred_tolerance_default" "*:0.01"\n', 'option "inferred_tolerance_default" "EUR:100"\n', 'option "infer_tolerance_from_cost" "TRUE"\n', 'option "booking_method" "NONE"\n']
def w_tol(chunk, r):
    by = {}
    for c in chunk: by.setdefault((c[0], c[4]), []).append(c)
    for (mult, opt), cs in by.items():
        bean = ('' if mult is None else 'option "inferred_tolerance_multiplier" "%s"\n' % mult) + (opt or '')
        lines, dss = [], []
        for _, hold, a, tol, _ in cs:
            ds = [op('Assets:A'), op(X), tx(('Assets:A', hold, 'USD'), (X,)), bal('Assets:A', a, 'USD', tol)]
            for i, d in enumerate(ds): d['date'] = day(i)
            dss.append(ds); lines.append(request('book', ds))
        for ds, l, resp, c in zip(dss, lines, ask(beanfile(bean), lines), cs):
            led = Ledger(None if mult is None else Decimal(mult)).run(ds)
            r.add('replayed'); r.add('transitions'); r.add('tolerance_cases')
            bad = None
            try:
                got = observed_errors(resp)
                if (got is None) != (not led.errors): bad = 'got %r expected %r' % (got, led.errors)
                elif got: bad = compare_errors(led.errors, got, ('balance',), margins=False)
            except Exception as e: bad = 'unexpected answer %r' % (resp,)
            r.outcome(('tolerance', mult, bool(led.errors)))
            if bad: r.violation('%r: holding %s asserted %s tolerance %s: %s' % (bean, c[1], c[2], c[3], bad), dict(bean=bean, lines=[l]))
def run(tier, seed):
    t = Result()
    deep = tier == 'thorough'
    deadline = time.time() + (600 if deep else 240)
    t, _ = fan_out(w_tol, sorted(tolcases(), key=lambda c: (c[0] or '', c[4] or '')), 800, t, deadline)
    k = ('balance',)
    accs = [P, S, T, LA, LB]
    L = [('tx %s %s' % (a[7:], u), mv(a, X, u)) for a in accs for u in ('1',)]
    L += [('tx A -2', mv(P, X, '-2')), ('tx A,S', mv(P, S, '1')), ('tx S EUR', mv(S, X, '1', 'EUR')), ('bad tx A', tx((P, '1', 'USD'), (X, '1', 'USD'))), ('tx unopened', mv(P, 'Assets:No', '1')),
          ('lot S', tx(post(S, '2', 'USD', **{'cost-spec': {'per-unit': Num('3'), 'cur': 'EUR'}}), (X, '-6', 'EUR'))), ('close S', cl(S))]
    for a in accs: L.append(('bal %s 1' % a[7:], bal(a, '1')))
    L += [('bal A 0', bal(P, '0')), ('bal A 2~1', bal(P, '2', tol='1')), ('bal A EUR 1', bal(P, '1', 'EUR')), ('pad S<X', pad(S, X)), ('pad A<X', pad(P, X))]
    probes = exact_probes([P, S, T, LA, LB], ['USD', 'EUR'])
    s1 = Space('prefixes, subaccounts and look-alikes', [op(a) for a in accs] + [op(X)], L, probes, kinds=k, margins=False, project='ochp')
    # every pair of account names: a posting to one, assertions on the other
    letters = [('open %s' % a, op(a)) for a in LOOK] + [('tx %s' % a, mv(a, X, '1')) for a in LOOK] + [('bal %s' % a, bal(a, '0')) for a in LOOK] + \
              [('bal1 %s' % a, bal(a, '1')) for a in LOOK] + [('tx0 %s %s' % (a, c), mv(a, X, '1', c)) for a in LOOK for c in ('US', 'USDX', 'EUR')]
    n = len(LOOK)
    opens = tuple(range(n))
    ex = [opens + (n + i, 2 * n + j, 3 * n + j) for i in range(n) for j in range(n)]
    ex += [opens + (n + i, n + j, n + k_, 2 * n + l) for i in range(n) for j in range(n) for k_ in (0, 3, 5) for l in range(n)]
    ex += [opens + (4 * n + i, n + j, 2 * n + l, 3 * n + l) for i in range(3 * n) for j in range(n) for l in range(n)]
    s2 = Space('pairs of account names', [op(X)], letters, (), kinds=k, margins=False)
    # totals over many subaccounts
    many = ['Assets:M'] + ['Assets:M:S%d' % i for i in range(70)] + ['Assets:M' + ':D' * i for i in range(1, 25)] + ['Assets:M:' + 'N' * i for i in (30, 127, 255, 256, 400)]
    ml = [('open %s' % a, op(a)) for a in many] + [('tx %s' % a, mv(a, X, '1')) for a in many] + [('bal M', bal('Assets:M', '0')), ('bal S0', bal(many[1], '0')), ('tx to all', tx(*[(a, '1.5', 'USD') for a in many], (X,))), ('tx from all', tx((X,), *[(a, '-0.25', 'USD') for a in many]))]
    m = len(many)
    ex3 = [tuple(range(m)) + tuple(m + i for i in range(k_)) + (2 * m, 2 * m + 1) for k_ in range(m + 1)] + \
          [tuple(range(m)) + (m + i,) + (2 * m, 2 * m + 1) for i in range(m)] + [tuple(range(m)) + tuple([m + 3] * k_) + (2 * m, 2 * m + 1) for k_ in (1, 2, 10, 50, 200)] + \
          [tuple(range(m)) + x + (2 * m, 2 * m + 1) for x in ((2 * m + 2,), (2 * m + 2, 2 * m + 3), (2 * m + 2, 2 * m + 2), (2 * m + 3, m + 5, 2 * m + 2))]
    ex3 += [x[:-2] for x in ex3[::5]] + [tuple(range(m)) + tuple(m + i for i in range(k_)) for k_ in (8, 9, 12, 13, 16, 17, 32, 33, 64, 65)]
    s3 = Space('many subaccounts and postings', [op(X)], ml, exact_probes(many[:1], ['USD']), kinds=k, margins=False)
    cov = explore([(s1, 4 if deep else 3, 30000 if deep else 2500, ()), (s2, None, 0, ex), (s3, None, 0, ex3)], t, deadline)
    cov['tolerance_cases'] = t.n.get('tolerance_cases', 0)
    return t, cov
