"""C07 the report of a failed balance assertion: margin, annotation, localisation."""
import time
from ..seqs import *
LEVEL = 'model_checking'
A, S, SS, L, AB, X = 'Assets:A', 'Assets:A:S', 'Assets:A:S:T', 'Liabilities:A', 'Assets:AB', 'Equity:X'
def lot(acc, units, cur, per, ccur, *others, **kw):
    return tx(post(acc, units, cur, **{'cost-spec': {'per-unit': Num(per), 'cur': ccur}}), *others, **kw)
def run(tier, seed):
    t = Result()
    deep = tier == 'thorough'
    deadline = time.time() + (600 if deep else 240)
    k = ('balance',)
    accs = [A, S, AB]
    base = [('tx A 1', mv(A, X, '1')), ('tx S 2.5 EUR', mv(S, X, '2.50', 'EUR')), ('tx A,S', mv(A, S, '3')), ('tx AB', mv(AB, X, '7')),
            ('tx S described', tx((S, '-4', 'USD'), (X, '4', 'USD'), payee='The payee', narration='Told')),
            ('tx A narrated', tx((X, '-6', 'EUR'), (A, '5', 'EUR'), (S, '1', 'EUR'), narration='Only told 1 2')),
            ('tx A bad', tx((A, '100', 'USD'))), ('tx A auto', tx((X, '0.25', 'USD'), (A,))),
            ('tx A unopened', mv(A, 'Assets:No', '11'))]
    bals = [('bal A 10', bal(A, '10')), ('bal A 0.1~1000', bal(A, '0.1', tol='1000')), ('bal A EUR 9', bal(A, '9.00', 'EUR')), ('bal S 20', bal(S, '20')), ('bal AB -3', bal(AB, '-3')),
            ('bal A 1', bal(A, '1'))]
    pads = [('pad A<X', pad(A, X)), ('pad S<AB', pad(S, AB))]
    neutral = [('close AB', cl(AB)), ('note', dict(dct='note', acc=A, comment='c'))]
    probes = [bal(a, '123456', c) for a in accs for c in ('USD', 'EUR')] + [bal(a, '123456', c) for a in accs for c in ('USD', 'EUR')]
    opens = [op(a) for a in accs] + [op(X)]
    kw = dict(kinds=k, lines=True)
    s1 = Space('postings and assertions on account and subaccount', opens, base + bals + pads + neutral, probes, **kw)
    # restricted alphabet, deeper
    few = [base[0], base[2], base[4], bals[0], bals[2], bals[3], bals[5], pads[0]]
    s2 = Space('deeper', opens, few, probes, **kw)
    s2d = Space('same day', opens, few, probes, dates=same_day, **kw)
    s2b = Space('dates decreasing', opens, few, probes, dates=backwards, **kw)
    # booked with multiple lots: a reduction over several lots lists one line for each
    lots = [('buy 3', lot(A, '3', 'STK', '10', 'USD', (X, '-30', 'USD'))), ('buy 4 dearer', lot(A, '4', 'STK', '11', 'USD', (X, '-44', 'USD'))), ('buy S', lot(S, '1.5', 'STK', '12', 'USD', (X, '-18', 'USD'))),
            ('sell 5', tx(post(A, '-5', 'STK', **{'cost-spec': {}}), (X,))), ('sell 3', tx(post(A, '-3', 'STK', **{'cost-spec': {}}), (X,))), ('sell all S', tx(post(S, '-1.5', 'STK', **{'cost-spec': {}}), (X,))),
            ('bal STK 2', bal(A, '2', 'STK')), ('bal USD', bal(A, '1')), ('bal S', bal(S, '9', 'STK')), ('bal STK 7', bal(A, '7', 'STK'))]
    s3 = Space('lots', [op(A, booking='fifo'), op(S, booking='lifo'), op(AB), op(X)], lots, [bal(A, '99', 'STK'), bal(S, '99', 'STK')], **kw)
    # many postings in the window; long windows; amounts of every scale and size in one annotation
    amts = ['1', '-1', '0.5', '-1000000', '123456789.123456', '0.0000001', '99.90', '-0.01', '0']
    many = [('tx ' + u, mv(A, X, u)) for u in amts] + [('tx S ' + u, mv(S, AB, u)) for u in amts] + [('wide', tx(*[(A if i % 3 else S, str(i - 6), 'USD' if i % 2 else 'EUR') for i in range(1, 12)] + [(X, '0', 'USD'), (X,)][:1])),
            ('wider', tx(*([(A, str(i), 'USD') for i in range(1, 30)] + [(X,)]))), ('bal', bal(A, '1')), ('bal S', bal(S, '1'))]
    n = len(amts)
    ex = [(i, j, l) + e for i in range(2 * n) for j in range(2 * n) for l in (2 * n + 1, 2 * n + 2, 2 * n + 3, i) for e in ((2 * n + 2,), ())]
    ex += [tuple([i] * k_) + (2 * n + 2,) + tuple([j] * k_) for i in (0, 4, n) for j in (1, n + 2, 2 * n + 1) for k_ in (1, 3, 10, 40, 150)]
    # descriptions
    strange = ['', ' ', 'P' * 40, 'long ' * 100, 'é☃𝄞', 'tab\tand "quotes" \\', 'a  b', '0', ' padded ', '1 USD', '-']
    told = [('tx %r %r' % (p, n), tx((A, '3', 'USD'), (X, '-3', 'USD'), **{k_: v for k_, v in (('payee', p), ('narration', n)) if v is not None})) for p in [None] + strange for n in [None] + strange]
    s5 = Space('descriptions', opens, told + [('bal', bal(A, '1'))], probes[:1], **kw)
    # assertions and postings which are refused for their currency
    kept = [('tx A 1', mv(A, X, '1')), ('tx S 2 EUR', mv(S, X, '2', 'EUR')), ('tx S 3', mv(S, X, '3')), ('tx A EUR', mv(A, X, '5', 'EUR')), ('bal A 10', bal(A, '10')), ('bal A EUR', bal(A, '10', 'EUR')), ('bal S EUR', bal(S, '1', 'EUR')), ('pad A<X', pad(A, X))]
    s6 = Space('restricted currencies', [op(A, 'USD'), op(S), op(X)], kept, [bal(A, '99'), bal(S, '99', 'EUR')], **kw)
    # accounts opened when their subaccounts have been used already, and closed subaccounts
    late = [('open A', op(A)), ('open S', op(S)), ('tx S 2.5', mv(S, X, '2.5')), ('tx T 3', mv(SS, X, '3')), ('tx A 1', mv(A, X, '1')), ('bal A 10', bal(A, '10')), ('bal S 20', bal(S, '20')), ('bal T 4', bal(SS, '4')), ('close S', cl(S)), ('close T', cl(SS))]
    s7 = Space('opened later', [op(SS), op(X)], late, [bal(A, '99'), bal(S, '99'), bal(SS, '99')], **kw)
    s4 = Space('many postings', opens, many, probes, **kw)
    cov = explore([(s1, 4, 0, ()), (s2, 6 if deep else 5, 0, ()), (s2d, 4 if deep else 3, 0, ()), (s2b, 4 if deep else 3, 0, ()), (s6, 6 if deep else 4, 0, ()), (s7, 5 if deep else 4, 0, ()), (s7, None, 0, [(0, 1) + e for e in itertools.product(range(2, 10), repeat=4)]), (s3, 5 if deep else 3, 0, ()), (s4, 2 if deep else 1, 0, ex), (s5, 2, 0, ())], t, deadline)
    return t, cov
