"""C29 a rollup gives every account's own and total units of the primary currency."""
import time
from ..clj import *
LEVEL = 'model_checking'
ASSUMPTIONS = ['the Clojure sources run on the interpreter in /verif/clj, not on Clojure itself']
F = "(require 'limabean) (fn [inv] (limabean/rollup (into {} (map (fn [[k v]] [(subs (str k) 1) v])) inv)))"
def sums(inv):
    """{account: {currency: units}}"""
    out = {}
    for a, ps in inv.items():
        for p in ps: d = out.setdefault(a, {}); d[p['cur']] = d.get(p['cur'], 0) + Decimal(p['units'])
    return out
def ancestors(a):
    parts = a.split(':')
    return [':'.join(parts[:i]) for i in range(1, len(parts) + 1)]
def expected(s, cur):
    own = {a: d[cur] for a, d in s.items() if d.get(cur)}
    total = {}
    for a, u in own.items():
        for b in ancestors(a): total[b] = total.get(b, 0) + u
    return {a: (own.get(a), None if own.get(a) == t else t) for a, t in total.items()}, own
def judge(inv, ans):
    if failed(ans): return why(ans)
    s = sums(inv)
    use = {}
    for d in s.values():
        for c in d: use[c] = use.get(c, 0) + 1
    primary = [c for c in use if use[c] == max(use.values())]
    try:
        got = {a: (Decimal(e['item'][0]) if 'item' in e else None, Decimal(e['total'][0]) if 'total' in e else None) for a, e in ans.items()}
        depths = {e['item'][1] for e in ans.values() if 'item' in e}
        totals = {a: e['total'][1] for a, e in ans.items() if 'total' in e}
    except (KeyError, TypeError, ValueError, ArithmeticError, IndexError): return 'unexpected result %s' % str(ans)[:300]
    wants = [expected(s, c) for c in primary] or [({}, {})]
    for want, own in wants:
        if got == want: break
    else: return 'rollup %s, expected %s' % ({a: tuple(map(str, x)) for a, x in got.items()}, ' or '.join(str({a: tuple(map(str, x)) for a, x in w_.items()}) for w_, _ in wants))
    # columns: own units in one column to the right of every total; totals in the column of the account's depth
    if len(depths) > 1: return 'own units in different columns %s' % depths
    for a, c in totals.items():
        if c != a.count(':'): return 'total of %s in column %s' % (a, c)
        if 'item' in ans[a] and not c < ans[a]['item'][1]: return 'total of %s right of its own units' % a
def w(chunk, r):
    for inv, ans in zip(chunk, call(F, chunk)):
        r.add('cases')
        m = judge(inv, ans)
        if m: r.violation('inventory %s: %s' % (dumps(inv)[:600], m), dict(clj=F, cases=[inv]))
        else:
            r.outcome((len(ans), sum('item' in e for e in ans.values()), sum('total' in e for e in ans.values())))
            if r.n['cases'] % 211 == 1: r.sample(dict(inventory=dumps(inv), rollup=dumps(ans)))
P = itertools.product
def pos(units, cur='USD', date=None):
    d = {'units': Num(units), 'cur': cur, 'cell/type': {'$kw': 'position'}}
    if date: d['cost'] = dict(date=date, cur='EUR', **{'per-unit': Num('3')})
    return d
HOLD = [None, [pos('1')], [pos('-1')], [pos('2.50')], [pos('1.00', date='2020-01-01'), pos('2', date='2020-01-02')], [pos('1', date='2020-01-01'), pos('-1', date='2020-01-02')], [pos('7', 'EUR')], [pos('7', 'EUR'), pos('1')]]
def cases(deep):
    trees = [['A', 'A:B', 'A:B:C', 'A:BC', 'D'], ['A:B:C:D', 'A:B:C', 'A', 'A:B:E', 'A:B'], ['Assets:Bank', 'Assets:Bank:A', 'Assets:Banking', 'Income:Bank', 'Expenses:Bank:A'], ['A:B', 'B:A', 'A:A', 'B', 'A:A:A']]
    for accs in trees:
        for hs in P(HOLD[:6] if not deep else HOLD, repeat=len(accs)):
            yield {a: h for a, h in zip(accs, hs) if h is not None}
    # the currency: which is used by most accounts
    curs = [None, [pos('1')], [pos('7', 'EUR')], [pos('7', 'EUR'), pos('1')], [pos('3', 'CHF'), pos('2', 'CHF', '2020-01-01')], [pos('3', 'CHF'), pos('7', 'EUR'), pos('9')]]
    for hs in P(curs, repeat=5 if deep else 4): yield {a: h for a, h in zip(['A:B', 'A', 'A:B:C', 'E', 'E:F'], hs) if h is not None}
    # large, tiny and differently written numbers
    vals = ['1', '1.0', '-1.000', '9223372036854775807', '5000000000000000000', '0.0000000000000000000000000001', '-0.0000000000000000000000000001', '79228162514264337593543950335', '-9223372036854775808']
    for n in (1, 2, 3):
        for s in P(vals, repeat=n): yield {a: [pos(v)] for a, v in zip(['A', 'A:B', 'A:C'], s)}
    for n in (9, 33): yield {'A:B%d:C%d' % (i % 5, i): [pos(str(i + 1))] for i in range(n)}
    yield {':'.join('ABCDEFGHIJKLMNOP'[:i]): [pos('1')] for i in range(1, 17)}
def run(tier, seed):
    t = Result()
    deep = tier == 'thorough'
    _, d = fan_out(w, cases(deep), 300, t, time.time() + (700 if deep else 200))
    n = t.n.get('cases', 0)
    return t, dict(states=n, transitions=n, traces_validated_against_impl=n, exhaustive=d)
