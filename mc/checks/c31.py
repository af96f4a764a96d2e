"""C31 a filter selects exactly what it says."""
import time, datetime, re
from ..clj import *
LEVEL = 'model_checking'
ASSUMPTIONS = ['the Clojure sources run on the interpreter in /verif/clj, not on Clojure itself']
# a filter is [name, args…]; arguments of combinators are filters. What it says of every item, and whether it throws when made.
F = """(require 'limabean '[limabean.core.filters :as f])
(defn make [[n & args]]
  (case n
    "every-f" (apply f/every-f (map make args)) "some-f" (apply f/some-f (map make args)) "none-f" (apply f/none-f (map make args))
    "payee-match" (f/payee-match (re-pattern (first args))) "narration-match" (f/narration-match (re-pattern (first args)))
    (apply (deref (ns-resolve 'limabean.core.filters (symbol n))) args)))
(fn [{:keys [filter items]}] (let [f (make filter)] (mapv #(boolean (f %)) items)))"""
Q = """(require 'limabean '[limabean.core.filters :as f])
(defn make [[n & args]] (apply (deref (ns-resolve 'limabean.core.filters (symbol n))) args))
(fn [{:keys [query accs options filters more]}]
  (let [beans {:directives [{:dct :txn :date (java-time.api/local-date "2020-01-02") :flag "*" :postings (mapv (fn [a] {:acc a :units 1M :cur "USD"}) accs)}
                            {:dct :txn :date (java-time.api/local-date "2021-01-02") :flag "*" :payee "p" :postings (mapv (fn [a] {:acc a :units 10M :cur "USD"}) accs)}]
               :options options :registry {:default-booking :strict}}
        q (deref (ns-resolve 'limabean (symbol query)))
        fs (mapv make filters)]
    (let [v (if more (q beans (case more "vector" fs "list" (apply list fs) "seq" (map identity fs))) (q beans))]
      (if (map? v) (into (sorted-map) (map (fn [[k ps]] [k (mapv :units ps)])) v) (mapv (juxt :acc :units) v)))))"""
class Bad(Exception): pass
def date(args):
    if len(args) == 1 and isinstance(args[0], dict): args = [args[0]['$date']]
    try:
        if len(args) == 1 and isinstance(args[0], str):
            if not re.fullmatch(r'\d{4}-\d\d-\d\d', args[0]): raise Bad()
            return datetime.date.fromisoformat(args[0])
        if not 1 <= len(args) <= 3 or not all(isinstance(a, int) for a in args): raise Bad()
        return datetime.date(*(list(args) + [1, 1])[:3])
    except ValueError: raise Bad()
def item_date(x): return datetime.date.fromisoformat(x['date']) if 'date' in x else None
def make(f):
    n, *a = f
    if n in ('date<', 'date<=', 'date>', 'date>='):
        d = date(a)
        op = {'date<': datetime.date.__lt__, 'date<=': datetime.date.__le__, 'date>': datetime.date.__gt__, 'date>=': datetime.date.__ge__}[n]
        return lambda x: 'date' in x and op(item_date(x), d)
    if n == 'date>=<':
        if len(a) not in (2, 4, 6): raise Bad()
        b, e = date(a[:len(a) // 2]), date(a[len(a) // 2:])
        return lambda x: 'date' in x and b <= item_date(x) < e
    if n == 'acc': return lambda x: x.get('acc') in a
    if n == 'sub-acc': return lambda x: 'acc' in x and any(x['acc'] == t or x['acc'].startswith(t + ':') for t in a)
    if n == 'cur': return lambda x: x.get('cur') == a[0]
    if n in ('payee-match', 'narration-match'):
        k = n[:-6]
        return lambda x: k in x and re.search(a[0], x[k]) is not None
    fs = [make(g) for g in a]
    return {'every-f': lambda x: all(g(x) for g in fs), 'some-f': lambda x: any(g(x) for g in fs), 'none-f': lambda x: not any(g(x) for g in fs)}[n]
def w(chunk, r):
    for (f, items), ans in zip(chunk, call(F, [dict(filter=f, items=i) for f, i in chunk])):
        r.add('filters'); r.add('transitions', len(items))
        try: want = [bool(make(f)(x)) for x in items]
        except Bad: want = None
        if want is None: m = None if failed(ans) and not isinstance(ans, Dead) and '$ex' in ans else 'accepted: %s' % (ans,)
        else: m = why(ans) if failed(ans) else None if ans == want else next('selects' if a else 'does not select' for a, b in zip(ans, want) if a != b) + ' ' + dumps(next(x for x, a, b in zip(items, ans, want) if a != b))
        if m: r.violation('filter %s: %s' % (dumps(f), m), dict(clj=F, cases=[dict(filter=f, items=items)]))
        else:
            r.outcome((f[0], None if want is None else sum(want)))
            if r.n['filters'] % 97 == 1: r.sample(dict(filter=dumps(f), selects=None if want is None else sum(want), of=len(items)))
NAMES = ('assets', 'liabilities', 'equity', 'income', 'expenses')
def w_query(chunk, r):
    for c, ans in zip(chunk, call(Q, chunk)):
        r.add('queries'); r.add('transitions')
        fs = [make(f) for f in c['filters']] if c.get('more') else []
        if c['query'] != 'journal' and c['query'] != 'inventory':
            o = c['options']
            fs = fs + [make(['sub-acc'] + ([o['name-assets'], o['name-liabilities']] if c['query'] == 'balances' else [o['name-income'], o['name-expenses']]))]
        ps = [dict(dict(acc=a, units=u, cur='USD', date=d), **k) for u, d, k in ((1, '2020-01-02', {}), (10, '2021-01-02', {'payee': 'p'})) for a in c['accs']]
        ps = [p for p in ps if all(f(p) for f in fs)]
        if c['query'] == 'journal': want = [[p['acc'], p['units']] for p in ps]
        else:
            want = {}
            for p in ps: want[p['acc']] = [want.get(p['acc'], [0])[0] + p['units']]
        m = why(ans) if failed(ans) else None if ans == want else 'is %s, expected %s' % (dumps(ans), dumps(want))
        if m: r.violation('%s with options %s and filters %s of %s: %s' % (c['query'], c['options'], dumps(c['filters']) if c.get('more') else 'none', c['accs'], m), dict(clj=Q, cases=[c]))
        else: r.outcome((c['query'], len(want)))
P = itertools.product
def cases(deep):
    days = ['0001-01-01', '1999-12-31', '2000-01-01', '2000-02-28', '2000-02-29', '2000-03-01', '2019-12-31', '2020-01-01', '2020-01-02', '2020-01-31', '2020-02-01', '2020-10-01', '2020-09-30', '2021-01-01', '2021-12-31', '2022-01-01', '9999-12-31']
    dated = [dict(date=d) for d in days] + [dict(dct='open'), dict(acc='A'), dict(date='2020-01-01', acc='Assets:A', payee='x')]
    forms = [['2020-01-01'], ['2000-02-29'], [{'$date': '2020-01-01'}], [{'$date': '9999-12-31'}], [2020], [2000], [2020, 1], [2020, 2], [2020, 12], [2000, 2, 29], [2020, 1, 31], [2021, 12, 31], [1], [9999, 12, 31]] + ([[d] for d in days] + [[2020, m, d] for m in range(1, 13) for d in (1, 28, 29, 30)] if deep else [])
    bad = [['2020-1-1'], ['2021-02-29'], ['x'], [''], ['2020-01-01x'], [2021, 2, 29], [2020, 13], [2020, 0], [2020, 1, 32], [2020, 4, 31]]
    for n in ('date<', 'date<=', 'date>', 'date>='):
        for f in forms + bad: yield [n] + f, dated
    for b, e in P(forms + bad, repeat=2): yield ['date>=<'] + b + e, dated if len(b) == len(e) else dated[:1]
    for n in (0, 1, 3, 5, 7): yield ['date>=<'] + [2020, 1, 1, 2021, 1, 1, 1][:n], dated
    accs = ['Assets', 'Assets:A', 'Assets:A:B', 'Assets:AB', 'Assets:A:B:C', 'Assetsx', 'Liabilities:A', 'assets:a', 'Assets:', 'A', ':', '']
    items = [dict(acc=a, cur='USD') for a in accs] + [dict(cur='USD'), dict(date='2020-01-01', payee='Assets')]
    for n in ('acc', 'sub-acc'):
        for k in range(3 if not deep else 4):
            for t in P(accs, repeat=k): yield [n] + list(t), items
    curs = [dict(cur=c) for c in ('USD', 'US', 'USDX', 'usd', '')] + [dict(acc='USD')]
    for c in ('USD', 'US', 'usd', 'EUR', ''): yield ['cur', c], curs
    texts = ['', 'a', 'A', 'ab', 'ba', 'Z Energy', 'Repco', 'Z Energy|Repco', 'é', 'a\nb', 'x.y', 'xzy', '"', '\\']
    ti = [dict([(k, x)]) for k in ('payee', 'narration') for x in texts] + [dict(payee=x, narration=y) for x, y in P(texts[:6], repeat=2)] + [dict(), dict(acc='a')]
    for n in ('payee-match', 'narration-match'):
        for x in ['', 'a', '^a', 'a$', '^a$', 'Z Energy|Repco', r'x\.y', 'x.y', 'é', '[A-Z]', 'a.*b', '(?s)a.*b', '(?i)a', 'b', r'\\', '^$', '.', 'a?', '(b)(a)', '"']: yield [n, x], ti
    # combinators over filters of all kinds
    atoms = [['acc', 'Assets:A'], ['sub-acc', 'Assets'], ['cur', 'USD'], ['date<', 2020], ['date>=', '2020-01-01'], ['payee-match', 'a'], ['narration-match', 'b'], ['some-f'], ['every-f'], ['none-f']]
    world = [{k: v for k, v in (('acc', a), ('cur', c), ('date', d), ('payee', p), ('narration', n)) if v is not None} for a, c, d, p, n in P(('Assets:A', 'Assets:B', None), ('USD', None), ('2019-12-31', '2020-01-01', None), ('a', None), ('b', 'c', None))]
    combs = [[c, x, y] for c in ('every-f', 'some-f', 'none-f') for x, y in P(atoms, repeat=2)]
    for c in ('every-f', 'some-f', 'none-f'):
        for n in range(4):
            for s in P(atoms, repeat=n): yield [c] + list(s), world
        for x in combs: yield [c, x], world; yield [c, x, atoms[2]], world; yield [c, atoms[4], x], world
        if deep:
            for x, y in P(combs[::3], combs[::5]): yield [c, x, y], world
def queries(deep):
    base = dict(zip(['name-' + n for n in NAMES], ['Assets', 'Liabilities', 'Equity', 'Income', 'Expenses']))
    renamed = dict(zip(['name-' + n for n in NAMES], ['Expenses', 'Schulden', 'Kapital', 'Ertrag', 'Assets']))
    pre = dict(base, **{'name-assets': 'A', 'name-income': 'AB', 'name-expenses': 'A:B'})
    accs = ['Assets:A', 'Assets', 'Assetsx:A', 'Liabilities:A:B', 'Equity:A', 'Income:A', 'Expenses:A:B:C', 'Incomes:A', 'A', 'A:B:C', 'AB:C', 'Schulden:A', 'Ertrag:X']
    filters = [[], [['acc', 'Assets:A']], [['sub-acc', 'Assets', 'Expenses']], [['date<', 2021]], [['date>=', 2021], ['cur', 'USD']], [['cur', 'EUR']], [['payee-match', '']] and [['acc', 'Income:A', 'Assets:A'], ['date>=<', 2020, 2021]], [['none-f']], [['every-f'], ['sub-acc', 'Liabilities']]]
    for q in ('balances', 'income-statement', 'inventory', 'journal'):
        for o in (base, renamed, pre):
            yield dict(query=q, accs=accs, options=o, filters=[])
            for fs in filters:
                for more in ('vector', 'list', 'seq'): yield dict(query=q, accs=accs, options=o, filters=fs, more=more)
                if deep:
                    for k in range(len(accs)): yield dict(query=q, accs=accs[k:] + accs[:k][::-1], options=o, filters=fs, more='vector')
def run(tier, seed):
    t = Result()
    deep = tier == 'thorough'
    end = time.time() + (700 if deep else 200)
    _, d1 = fan_out(w, cases(deep), 100, t, end)
    _, d2 = fan_out(w_query, queries(deep), 10, t, end)
    n = t.n.get('filters', 0) + t.n.get('queries', 0)
    return t, dict(states=n, transitions=t.n.get('transitions', 0), traces_validated_against_impl=n, exhaustive=d1 and d2)
