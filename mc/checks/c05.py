"""C05 currencies declared at open."""
import time
from ..seqs import *
LEVEL = 'model_checking'
U, UE, N, X = 'Assets:U', 'Assets:UE', 'Assets:N', 'Equity:X'
HUGE = '1000000000'
def cost(per, cur, **kw): return dict({'per-unit': Num(per), 'cur': cur}, **kw)
def run(tier, seed):
    t = Result()
    deep = tier == 'thorough'
    deadline = time.time() + (600 if deep else 240)
    opens = [op(U, 'USD'), op(UE, 'USD', 'EUR'), op(N), op(X)]
    L = []
    for a in (U, UE, N):
        n = a[7:]
        for c in ('USD', 'EUR', 'US'):
            L.append(('tx %s %s' % (n, c), mv(a, X, '1', c)))
            L.append(('bal %s %s' % (n, c), bal(a, '0', c, tol=HUGE)))
    L += [('tx X,U EUR', mv(X, U, '1', 'EUR')), ('auto U EUR', tx((X, '1', 'EUR'), (U,))), ('auto U USD', tx((X, '1', 'USD'), (U,))),
          ('nocur U EUR', tx((X, '1', 'EUR'), (U, '-1'))), ('nounits UE GBP', tx((X, '1', 'GBP'), (UE, None, 'GBP'))),
          ('U,UE EUR', mv(U, UE, '1', 'EUR')), ('zero U EUR', tx((U, '0', 'EUR'))), ('two curs U', tx((U, '1', 'USD'), (X, '-1', 'USD'), (X, '1', 'EUR'), (U, '-1', 'EUR'))),
          ('U price EUR', tx(post(U, '1', 'USD', **{'price-spec': cost('2', 'EUR')}), (X, '-2', 'EUR'))),
          ('U cost EUR', tx(post(U, '1', 'USD', **{'cost-spec': cost('2', 'EUR')}), (X, '-2', 'EUR'))),
          ('U lot GBP', tx(post(U, '1', 'GBP', **{'cost-spec': cost('2', 'USD')}), (X, '-2', 'USD'))),
          ('U price GBP', tx(post(U, '1', 'GBP', **{'price-spec': cost('2', 'USD')}), (X, '-2', 'USD'))),
          ('pad U<X', pad(U, X)), ('pad N<U', pad(N, U)), ('pad UE<U', pad(UE, U)), ('close U', cl(U)), ('open U EUR', op(U, 'EUR'))]
    for c in ('USD', 'EUR'):
        for a in (N, UE, U): L.append(('balance %s 5 %s' % (a[7:], c), bal(a, '5', c)))
    k = ('currency',)
    s1 = Space('accounts with none, one and two currencies', opens, L, [bal(a, '0', c, tol=HUGE) for a in (U, UE, N) for c in ('USD', 'EUR', 'GBP')], kinds=k, margins=False, project='ocp')
    # opens in any order, without and with currencies, directly before a posting
    O = [('open %s %s' % (a[7:], cs), op(a, *cs)) for a in (U, UE, N) for cs in ((), ('USD',), ('EUR',), ('USD', 'EUR'), ('EUR', 'GBP', 'USD'))]
    O += [('tx %s %s' % (a[7:], c), mv(a, X, '1', c)) for a in (U, UE, N) for c in ('USD', 'EUR', 'GBP')] + [('close U', cl(U)), ('pad U<UE', pad(U, UE)), ('open U []', dict(op(U), currencies=[])), ('open UE null', dict(op(UE), currencies=None))]
    s2 = Space('opens', [op(X)], O, [bal(a, '7', c) for a in (U, UE, N) for c in ('USD', 'EUR')], kinds=k, margins=False, project='ocp')
    # many currencies and accounts: the list of an account has up to 20 currencies, postings up to position 12
    curs = ['C%s' % chr(65 + i) for i in range(20)]
    extra, letters = [], [('open X', op(X))]
    def letter(name, d): letters.append((name, d)); return len(letters) - 1
    for m in (1, 2, 3, 5, 8, 13, 20):
        o = letter('open M %d' % m, op('Assets:M', *curs[:m]))
        for j in range(20):
            for p in (0, 1, 7, 12):
                ps = [(X, '1', curs[0])] * p + [('Assets:M', '1', curs[j]), (X, '-1', curs[j])] + ([(X, '-%d' % p, curs[0])] if p else [])
                extra.append((0, o, letter('M %s@%d' % (curs[j], p), tx(*ps))))
            extra.append((0, o, letter('bal M %s' % curs[j], bal('Assets:M', '0', curs[j]))))
    s3 = Space('many currencies', [], letters, (), kinds=k, margins=False)
    # look-alikes: what is declared and what is posted differ in a character, a prefix, a suffix
    like = ['USD', 'A' + 'B' * 60, 'A' + 'B' * 61, 'A' + 'B' * 300, 'US', 'USDX', 'AUSD', 'USD.A', 'USD.B', 'USD-A', 'USD_A', "USD'A", 'USD1', 'USE', 'XSD', 'UXD', 'U.SD', 'USDUSD', 'DSU', 'ABCDEFGHIJKLMNOPQRSTUVWX', 'ABCDEFGHIJKLMNOPQRSTUVWY', 'V2', 'V', '/ESM24', 'NT.TO']
    l4, ex4 = [('open X', op(X)), ('open N', op('Assets:M:N'))], []
    for a in like:
        for more in ((), ('EUR',)):
            o = len(l4); l4.append(('open M %s' % ' '.join((a, *more)), op('Assets:M', a, *more)))
            for b in like:
                for d in (('tx %s' % b, mv('Assets:M', X, '1', b)), ('bal %s' % b, bal('Assets:M', '0', b)), ('auto %s' % b, tx((X, '1', b), ('Assets:M',)))) if not more else (('two %s' % b, tx(('Assets:M:N', '1', b), ('Assets:M', '1', 'EUR'), ('Assets:M', '-1', b), (X, '-1', 'EUR'))),):
                    l4.append(d); ex4.append((0, 1, o, len(l4) - 1))
    s4 = Space('look-alike currencies', [], l4, (), kinds=k, margins=False)
    cov = explore([(s1, 4 if deep else 3, 12000 if deep else 3000, ()), (s2, 4 if deep else 3, 100000 if deep else 6000, ()), (s3, None, 0, extra), (s4, None, 0, ex4)], t, deadline)
    return t, cov
