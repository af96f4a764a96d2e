"""C10 lots: acquisitions and reductions under every booking method."""
import time
from ..cases import *
LEVEL = 'model_checking'
A, B, X = 'Assets:A', 'Assets:B', 'Equity:X'
METHODS = ['strict', 'strict-with-size', 'fifo', 'lifo', 'hifo', 'none', 'average']
def lot(acc, units, cur='STK', date=None, label=None, merge=None, total=None, per=None, ccur=None, weight=None, other=X):
    cs = {}
    if per is not None: cs['per-unit'] = Num(per)
    if total is not None: cs['total'] = Num(total)
    if ccur: cs['cur'] = ccur
    if date: cs['date'] = date
    if label: cs['label'] = label
    if merge: cs['merge'] = True
    p = post(acc, units, cur, **{'cost-spec': cs})
    return tx(p, (other,)) if weight is None else tx(p, (other, weight, 'USD'))
def letters():
    b = [('buy 2 @10', lot(A, '2', per='10', ccur='USD', weight='-20')), ('buy 3 @11', lot(A, '3', per='11', ccur='USD', weight='-33')),
         ('buy 2 @9 dated', lot(A, '2', per='9', ccur='USD', date='2019-06-01')), ('buy 1 @10 labelled', lot(A, '1', per='10', ccur='USD', label='L', date='2019-12-01')),
         ('buy 2 @8 EUR', lot(A, '2', per='8', ccur='EUR')), ('buy 1 ETF', lot(A, '1', 'ETF', per='5', ccur='USD'))]
    s = [('sell %s' % u, lot(A, '-' + u)) for u in ('1', '2', '3', '5')] + \
        [('sell 1 @10', lot(A, '-1', per='10', ccur='USD')), ('sell 2 @11', lot(A, '-2', per='11')), ('sell 1 dated', lot(A, '-1', date='2019-06-01')), ('sell 1 label', lot(A, '-1', label='L')),
         ('sell 2 USD', lot(A, '-2', ccur='USD')), ('sell 3 EUR', lot(A, '-3', ccur='EUR')), ('sell 1 ETF', lot(A, '-1', 'ETF')), ('sell 1 from B', lot(B, '-1')), ('sell 1 no match', lot(A, '-1', per='99'))]
    return b, s
def run(tier, seed):
    t = Result()
    deep = tier == 'thorough'
    deadline = time.time() + (800 if deep else 240)
    b, s = letters()
    plain = [('plain -1', mv(A, X, '-1', 'STK')), ('plain 2', mv(A, X, '2', 'STK'))]
    def probes(led): return [bal(A, format(led.total(A, c), 'f'), c, tol='0') for c in ('STK', 'ETF')]
    kw = dict(on_success=booked_transactions)
    todo = []
    for m in METHODS:
        opens = [op(A, booking=m), op(B, booking=m), op(X)]
        todo.append((Space('%s' % m, opens, b + s + plain, probes, **kw), 3, 0, ()))
        few = [x for x in b + s if x[0] in ('buy 2 @10', 'buy 3 @11', 'buy 2 @9 dated', 'sell 1', 'sell 3', 'sell 2', 'sell 1 @10', 'buy 1 @10 labelled')]
        todo.append((Space('%s, deeper' % m, opens, few, probes, **kw), 6 if deep else 4, 60000 if deep else 0, ()))
        todo.append((Space('%s, one day' % m, opens, few, probes, dates=same_day, **kw), 5 if deep else 3, 0, ()))
        todo.append((Space('%s, dates decreasing' % m, opens, few, probes, dates=backwards, **kw), 5 if deep else 3, 0, ()))
        # by option
        some = few[:2] + [few[4], few[6], s[0], s[2]]
        o = Space('%s, by option' % m, [op(A), op(B, booking='strict'), op(X)], some + [('buy B', lot(B, '2', per='10', ccur='USD')), ('buy B dearer', lot(B, '3', per='11', ccur='USD')), ('sell B', lot(B, '-1'))], probes, bean=options(method=m), method=m, **kw)
        todo.append((o, 4 if deep else 3, 0, ()))
    # each method of an account under each option
    pair = [x for x in b + s if x[0] in ('buy 2 @10', 'buy 3 @11', 'buy 2 @9 dated', 'sell 1', 'sell 2', 'sell 3')]
    for m in METHODS:
        for own in METHODS: todo.append((Space('%s under %s' % (own, m), [op(A, booking=own), op(X)], pair, probes, bean=options(method=m), method=m, **kw), 4 if deep else 3, 0, ()))
    # short positions and sign changes
    sh = [('short 2 @10', lot(A, '-2', per='10', ccur='USD')), ('short 3 @12', lot(A, '-3', per='12', ccur='USD')), ('cover 1', lot(A, '1')), ('cover 3', lot(A, '3')), ('cover 9', lot(A, '9')), ('cover 2 @10', lot(A, '2', per='10', ccur='USD')), ('buy 5 @10', lot(A, '5', per='10', ccur='USD')), ('buy 1 @7', lot(A, '1', per='7', ccur='USD')), ('sell all 5', lot(A, '-5'))]
    for m in METHODS:
        todo.append((Space('%s, short' % m, [op(A, booking=m), op(X)], sh, probes, **kw), 4 if deep else 3, 0, ()))
    # two reductions in one transaction, several accounts, transfers of lots between accounts
    mu = [b[0], b[1], ('buy A,B', tx(post(A, '2', 'STK', **at('cost', per='10', cur='USD')), post(B, '4', 'STK', **at('cost', per='12', cur='USD')), (X,))),
          ('sell A,A', tx(post(A, '-1', 'STK', **{'cost-spec': {}}), post(A, '-2', 'STK', **{'cost-spec': {}}), (X,))), ('sell A,B', tx(post(A, '-2', 'STK', **{'cost-spec': {}}), post(B, '-3', 'STK', **{'cost-spec': {}}), (X,))),
          ('move A to B', tx(post(A, '-2', 'STK', **at('cost', per='10', cur='USD')), post(B, '2', 'STK', **at('cost', per='10', cur='USD')))), ('sell priced', tx(post(A, '-1', 'STK', **dict({'cost-spec': {}}, **at('price', per='20', cur='USD'))), (B, '20', 'USD'), (X,))),
          ('sell bad', tx(post(A, '-1', 'STK', **{'cost-spec': {}}), (X, '0.5', 'USD'))), ('fraction', lot(A, '0.375', per='10.01', ccur='USD')), ('sell fraction', lot(A, '-0.125')),
          ('total', lot(A, '3', total='10', ccur='USD')), ('sell total', lot(A, '-3', total='10', ccur='USD')), ('merge', lot(A, '1', per='10', ccur='USD', merge=True)), ('sell and buy', tx(post(A, '-2', 'STK', **{'cost-spec': {}}), post(A, '2', 'STK', **at('cost', per='15', cur='USD')), (X,)))]
    for m in METHODS:
        todo.append((Space('%s, several postings' % m, [op(A, booking=m), op(B, booking='fifo' if m != 'fifo' else 'lifo'), op(X)], [l for l in mu if m != 'none' or l[0] != 'sell total'],   # (an augmentation with negative units: C09, D12)
            probes, **kw), 4 if deep else 3, 0, ()))
    # many lots: every number of lots up to 12, sold at once after, in the middle, and beyond
    L, ex = [], []
    for i in range(12): L.append(('buy #%d' % i, lot(A, '2', per=str(10 + (i * 5) % 7), ccur='USD')))
    for u in ('1', '2', '3', '7', '12', '20', '23', '24', '25'): L.append(('sell %s' % u, lot(A, '-' + u)))
    for n in range(1, 13):
        for i in range(9):
            ex.append(tuple(range(n)) + (12 + i,)); ex.append(tuple(range(n)) + (12, 12 + i)); ex.append(tuple(range(n)) + (12 + i, 14)); ex.append(tuple(reversed(range(n))) + (13, 12 + i, 0, 13))
    for m in METHODS: todo.append((Space('%s, many lots' % m, [op(A, booking=m), op(X)], L, probes, **kw), None, 0, ex))
    # very many lots, accounts and postings: in one transaction and over many
    many = ['Assets:M%d' % i for i in range(40)]
    L = [('open', op(a, booking=('fifo', 'lifo', 'strict', 'hifo')[i % 4])) for i, a in enumerate(many)]
    n = len(L)
    def all_(f): return tx(*[p for i, a in enumerate(many) for p in f(i, a)], (X,))
    C_ = lambda per=None, **k: {'cost-spec': dict({'per-unit': Num(str(per)), 'cur': 'USD'} if per else {}, **k)}
    L += [('buy in all', all_(lambda i, a: [post(a, '2', 'STK', **C_(10 + i))])), ('buy in all again', all_(lambda i, a: [post(a, '3', 'STK', **C_(9 + i % 3)), post(a, '1', 'STK', **C_(20))])), ('buy many in one', all_(lambda i, a: [post(many[0], '1', 'STK', **C_(50 + (i * 7) % 40))]))]
    L += [('sell 1 in all', all_(lambda i, a: [post(a, '-1', 'STK', **C_())])), ('sell 2 in all', all_(lambda i, a: [post(a, '-2', 'STK', **C_())])), ('sell 30', tx(post(many[0], '-30', 'STK', **C_()), (X,)))]
    L += [('sell 1 of %s' % a, tx(post(a, '-1', 'STK', **C_()), (X,))) for a in many] + [('buy 1 at %d' % i, tx(post(many[i % 2], '1', 'STK', **C_(100 + i * 37 % 211)), (X,))) for i in range(200)]
    O = tuple(range(n)); one = tuple(range(n + 6, n + 6 + len(many))); b_ = n + 6 + len(many)
    ex = [O + (n, n + 3), O + (n, n + 4), O + (n,) + one, O + (n,) + one + one, O + (n, n + 1) + one, O + (n, n + 3) + one, O + (n + 2, n + 5), O + (n + 2, n + 5, n + 6), O + (n, n + 2, n + 3, n + 5),
          O + tuple(range(b_, b_ + 200)) + (n + 5,) * 3 + (n + 6, n + 7) * 3, O + tuple(range(b_ + 199, b_ - 1, -1)) + (n + 5,) * 4]
    todo.append((Space('many accounts', [op(X)], L, [tx(post(a, '-1', 'STK', **C_()), (X,)) for a in many[:3]], **kw), None, 0, ex))
    # lots which differ in cost, date and label, and reductions which say any of these: every pair of lots, and all at once
    import itertools
    ds, ls = ('2019-06-01', '2019-12-01'), (None, 'L', 'M')
    L = [('buy @%s %s %s' % (p_, d, l), lot(A, '2', per=p_, ccur='USD', date=d, label=l)) for p_ in ('10', '11') for d in ds for l in ls]
    L += [('buy @10 %s %s merge' % (d, l), lot(A, '2', per='10', ccur='USD', date=d, label=l, merge=True)) for d in ds for l in ls]
    n = len(L)
    L += [('sell @%s %s %s %s' % (p_, c, d, l), lot(A, '-1', per=p_, ccur=c, date=d, label=l)) for p_ in (None, '10', '12') for c in (None, 'USD', 'EUR') for d in (None,) + ds for l in ls if not (p_ and not c)] + [('sell merge %s %s' % (d, l), lot(A, '-1', date=d, label=l, merge=True)) for d in (None,) + ds for l in ls]
    ex = [(i, j, k) for i, j in itertools.combinations(range(n), 2) for k in range(n, len(L))] + [tuple(range(n)) + (k,) for k in range(n, len(L))] + [(i, k, k, k) for i in range(n) for k in range(n, len(L))]
    for m in METHODS: todo.append((Space('%s, specified lots' % m, [op(A, booking=m), op(X)], L, probes, **kw), None, 0, ex if deep or m in ('strict', 'fifo') else ex[::5]))
    cov = explore(todo, t, deadline)
    return t, cov
