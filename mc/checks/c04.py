"""C04 account lifecycle."""
import time
from ..seqs import *
LEVEL = 'model_checking'
A, AB, S, X = 'Assets:A', 'Assets:AB', 'Assets:A:S', 'Equity:X'
HUGE = '1000000000'
def letters(accs):
    out = []
    for a in accs:
        n = a.split(':', 1)[1]
        out += [('open ' + n, op(a)), ('close ' + n, cl(a)), ('bal ' + n, bal(a, '0', tol=HUGE))]
    return out
def run(tier, seed):
    t = Result()
    deep = tier == 'thorough'
    deadline = time.time() + (600 if deep else 240)
    # two accounts, one a look-alike and one a subaccount; X is open throughout
    base = letters([A, AB]) + [
        ('tx A,X', mv(A, X, '1')), ('tx X,AB', mv(X, AB, '1')), ('tx X,X,A', tx((X, '1', 'USD'), (X, '1', 'USD'), (A, '-2', 'USD'))),
        ('tx auto A', tx((X, '1', 'USD'), (A,))), ('tx zero AB', tx((AB, '0', 'USD'))),
        ('pad A<X', pad(A, X)), ('pad X<A', pad(X, A)), ('pad AB<A', pad(AB, A)), ('note A', dict(dct='note', acc=A, comment='c'))]
    s1 = Space('two accounts', [op(X)], base, [bal(A, '0', tol=HUGE), bal(AB, '0', tol=HUGE), cl(X)], kinds=('account',), margins=False, project='ocp')
    more = letters([A, S, X]) + [('open A USD', op(A, 'USD')), ('open A fifo', op(A, booking='fifo')),
        ('tx A,S', mv(A, S, '1')), ('tx S,A', mv(S, A, '1')), ('tx X,A', mv(X, A, '1')), ('tx unbalanced A', tx((A, '1', 'USD'))),
        ('pad S<X', pad(S, X)), ('pad A<S', pad(A, S)), ('pad S<A', pad(S, A)), ('doc S', dict(dct='document', acc=S, path='p')), ('tx cost A', tx(post(A, '1', 'STK', **{'cost-spec': {'per-unit': Num('2'), 'cur': 'USD'}}), (X, '-2', 'USD')))]
    s2 = Space('account and subaccount', [], more, [bal(a, '0', tol=HUGE) for a in (A, S, X)], kinds=('account',), margins=False, project='ocp')
    s1d = Space('same day', [op(X)], base, s1.probes, kinds=('account',), margins=False, project='ocp', dates=same_day)
    s1b = Space('dates decreasing', [op(X)], base, s1.probes, kinds=('account',), margins=False, project='ocp', dates=backwards)
    # many accounts, late positions: position of a posting up to 12, directive index up to 60
    accs = ['%s:N%d' % (r, i) for i in range(3) for r in ('Assets', 'Liabilities', 'Equity', 'Income', 'Expenses')]
    s3l = [('open %s' % a, op(a)) for a in accs] + [('close %s' % a, cl(a)) for a in accs] + \
          [('tx all', tx(*[(a, '2' if i == 0 else '1' if i % 2 == 0 else '-1', 'USD') for i, a in enumerate(accs)], (accs[7], '-2', 'USD'))), ('noise', dict(dct='event', type='t', description='d'))]
    s3 = Space('many accounts', [], s3l, [bal(a, '0', tol=HUGE) for a in accs], kinds=('account',), margins=False, project='ocp')
    n = len(accs)
    extra = []
    for k in range(n):                        # all but one open / all open, one closed, with noise before
        for noise in (0, 1, 9, 30):
            z = (2 * n + 1,) * noise
            extra.append(tuple(i for i in range(n) if i != k) + z + (2 * n,))
            extra.append(tuple(range(n)) + z + (n + k,) + (2 * n,))
            extra.append(tuple(range(n)) + z + (2 * n, n + k, 2 * n, k, 2 * n))
            extra.append(tuple(range(n)) + z + (n + k, n + k, k, n + (k + 1) % n, 2 * n))
    for k in (0, 7, 14):                      # everything at a late position
        for noise in (99, 290, 700):
            z = (2 * n + 1,) * noise
            extra.append(z + tuple(range(n)) + (2 * n, k, n + k, 2 * n, n + k, k) + z + (2 * n, k, n + k))
            extra.append(z + tuple(i for i in range(n) if i != k) + z + (2 * n, n + k, k, 2 * n))
    # names alike: an account is open by its own name alone
    deepn = ':'.join('L%d' % i for i in range(12))
    alike = ['Assets:A', 'Assets:A-', 'Assets:A-A', 'Assets:AA', 'Assets:Aa', 'Assets:A1', 'Assets:A:A', 'Assets:A:A:A', 'Assets:É', 'Assets:E\u0301', 'Assets:É-', 'Assets:1', 'Assets:1-', 'Liabilities:A', 'Income:A', 'Expenses:A', 'Equity:A', 'Assets:Ａ',
             'Assets:' + deepn, 'Assets:' + deepn[:-1], 'Assets:' + deepn + ':A', 'Assets:' + deepn.replace('L0', 'L1', 1), 'Assets:' + 'N' * 300, 'Assets:' + 'N' * 299 + 'M', 'Assets:' + 'N' * 299, 'Assets:' + 'N' * 128 + 'M' + 'N' * 171]
    ops = lambda a: [('open', op(a)), ('close', cl(a)), ('bal', bal(a, '0', tol=HUGE)), ('tx', mv(a, X, '1')), ('tx late', tx((X, '1', 'USD'), (X, '-2', 'USD'), (a, '1', 'USD'))), ('pad', pad(a, X)), ('pad from', pad(X, a))]
    s4l = [('%s %s' % (k, a if len(a) < 60 else a[:30] + '…%d…' % i + a[-5:]), d) for i, a in enumerate(alike) for k, d in ops(a)]
    s4 = Space('names alike', [op(X)], s4l, [bal(X, '0', tol=HUGE)], kinds=('account',), margins=False, project='ocp')
    near = []
    for i in range(len(alike)):
        for j in range(len(alike)):
            I, J = 7 * i, 7 * j
            for k in range(7):
                near.append((I, J + k))
                if i != j: near += [(I, J, I + 1, J + k), (I, J, J + 1, I + k), (I, I + 1, J, I + k)]
    near.append(tuple(7 * i for i in range(len(alike))) + tuple(7 * i + k for i in range(len(alike)) for k in (3, 1, 3)))
    cov = explore([(s1, 5 if deep else 4, 20000, ()), (s1d, 4 if deep else 3, 0, ()), (s1b, 4 if deep else 3, 0, ()),
                   (s2, 5 if deep else 4, 60000, ()), (s3, None, 0, extra), (s4, None, 0, near)], t, deadline)
    return t, cov
