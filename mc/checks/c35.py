"""C35 show prints any value as a table of its parts, each exactly once and exactly."""
import time
from fractions import Fraction
from ..clj import *
LEVEL = 'model_checking'
ASSUMPTIONS = ['the Clojure sources run on the interpreter in /verif/clj, not on Clojure itself']
F = "(require 'limabean 'limabean.core.cell) (fn [v] {:cell (limabean.core.cell/cell v)})"
S = "(require 'limabean 'limabean.adapter.show) (fn [v] (let [r (volatile! nil) s (with-out-str (vreset! r (limabean.adapter.show/show v)))] [s @r]))"
# -- values: (kind, …), as source and as the cell expected ---------------------------------------------------------
def edn(v):
    k = v[0]
    if k == 'nil': return 'nil'
    if k == 's': return '"%s"' % v[1].replace('\\', '\\\\').replace('"', '\\"')
    if k in ('n', 'c', '?'): return v[1]
    if k == 'kw': return ':' + v[1]
    if k == 'b': return v[1]
    if k == 'd': return '(java-time.api/local-date "%s")' % v[1]
    if k == 'v': return '[%s]' % ' '.join(map(edn, v[1]))
    if k == 'l': return '(list %s)' % ' '.join(map(edn, v[1]))
    if k == 'lazy': return '(map identity [%s])' % ' '.join(map(edn, v[1]))
    if k == 'set': return '#{%s}' % ' '.join(map(edn, v[1]))
    if k == 'm': return '{%s}' % ' '.join(edn(a) + ' ' + edn(b) for a, b in v[1])
    if k in ('position', 'journal/entry', 'rollup/entry'): return '{%s :cell/type :%s}' % (' '.join(':%s %s' % (a, edn(b)) for a, b in v[1].items()), k)
    raise KeyError(k)
EMPTY = {'empty': None}
left = lambda s: {'aligned': [s, 'left']}
def number(s):
    i = next((s.index(c) for c in './' if c in s), len(s))
    return {'anchored': [s, i - 1]}
row = lambda cs, g='  ': {'row': [cs, g]}
stack = lambda cs: {'stack': cs}
class Any(list):
    """these in any order"""
# which kinds of value can be put in order with one another, and how
def order(v):
    k = v[0]
    if k == 'nil': return ('nil',)
    if k == 's': return ('s', v[1].encode('utf-16-be'))
    if k == 'n': return ('n', Fraction(v[2]))
    if k == 'kw': return ('kw', v[1])
    if k == 'c': return ('c', v[2])
    if k == 'b': return ('b', v[1] == 'true')
    if k == 'd': return ('d', v[1])
    if k == 'v':
        o = [order(x) for x in v[1]]
        return None if any(x is None for x in o) else ('v', len(o), o)
    return None
def less(a, b):
    """a before b; ValueError if they cannot be compared"""
    if a is None or b is None: raise ValueError
    if a == b: return False
    if a[0] == 'nil' or b[0] == 'nil': return a[0] == 'nil'
    if a[0] != b[0]: raise ValueError
    if a[0] == 'n' and any(x[1].denominator % p == 0 for x in (a, b) for p in (3, 7)): raise ValueError     # may have no decimal expansion
    if a[0] != 'v': return a[1] < b[1]
    if a[1] != b[1]: return a[1] < b[1]
    for x, y in zip(a[2], b[2]):
        if x != y: return less(x, y)
    return False
def sort(vs, key=lambda v: v):
    import functools
    if len(vs) < 2: return list(vs)
    try:
        for a, b in itertools.combinations(vs, 2): less(order(key(a)), order(key(b)))
    except ValueError: return Any(vs)
    return sorted(vs, key=functools.cmp_to_key(lambda a, b: -1 if less(order(key(a)), order(key(b))) else 1))
def cell(v):
    k = v[0]
    if k == 'nil': return EMPTY
    if k in ('s', 'd', 'b'): return left(v[1])
    if k == 'n': return number(v[2])
    if k == 'c': return left(v[2])
    if k == 'kw': return left(':' + v[1])
    if k == '?': return left('?')
    if k in ('v', 'l', 'lazy', 'set'):
        xs = sort(v[1]) if k == 'set' else v[1]
        if not xs: return EMPTY
        if len(xs) == 1: return cell(xs[0])
        return stack(type(xs)(map(cell, xs)) if isinstance(xs, Any) else [cell(x) for x in xs])
    if k == 'm':
        kvs = sort(v[1], key=lambda kv: kv[0])
        rows = [row([cell(a), cell(b)]) for a, b in kvs]
        return stack(Any(rows) if isinstance(kvs, Any) else rows)
    get = lambda m, a: cell(m[a]) if a in m else EMPTY
    if k == 'position':
        p = v[1]
        units = row([get(p, 'units'), get(p, 'cur')], ' ')
        if 'cost' not in p: return row([units])
        c = dict((a[1], b) for a, b in p['cost'][1])
        return row([units, row([get(c, 'date'), get(c, 'cur'), get(c, 'per-unit'), get(c, 'label'), left('*') if c.get('merge') == ('b', 'true') else EMPTY], ' ')])
    if k == 'journal/entry': return row([get(v[1], a) for a in ('date', 'acc', 'payee', 'narration', 'flag', 'units', 'cur', 'bal')])
    if k == 'rollup/entry':
        e, cells = v[1], []
        if 'total' in e: cells += [EMPTY] * int(e['total'][1][1][2]) + [cell(e['total'][1][0])]
        if 'item' in e: cells += [EMPTY] * (int(e['item'][1][1][2]) - len(cells)) + [cell(e['item'][1][0])]
        return row(cells)
    raise KeyError(k)
def same(want, got):
    if isinstance(want, Any): return isinstance(got, list) and len(got) == len(want) and any(all(map(same, p, got)) for p in itertools.permutations(want))
    if isinstance(want, list): return isinstance(got, list) and len(got) == len(want) and all(map(same, want, got))
    if isinstance(want, dict): return isinstance(got, dict) and set(got) == set(want) and all(same(want[k], got[k]) for k in want)
    return want == got
def ordered(want):
    """has but one order"""
    if isinstance(want, Any): return False
    return all(map(ordered, want)) if isinstance(want, list) else all(map(ordered, want.values())) if isinstance(want, dict) else True
def render(c):
    out, rc, err = run_pod('', json.dumps(c, default=str, ensure_ascii=False).encode(), args=[POD, 'tabulate'], timeout=20)
    return out.decode('utf-8', 'replace') if rc == 0 else None
def bare(c):
    """as Python's json writes it"""
    if isinstance(c, dict): return {k: bare(x) for k, x in c.items()}
    if isinstance(c, list): return [bare(x) for x in c]
    return int(c) if isinstance(c, Decimal) else c
def w(chunk, r):
    cs = [{'$edn': edn(v)} for v in chunk]
    for v, c, ans in zip(chunk, cs, call(F, cs)):
        r.add('values')
        want = cell(v)
        got = ans.get('cell') if isinstance(ans, dict) else None
        m = why(ans) if failed(ans) else None if same(want, bare(got)) else 'is %s, expected %s' % (dumps(got), dumps(want))
        # another cell may still print the same table
        if m and got and ordered(want) and render(bare(got)) == render(want) != None: m = None
        if m: r.violation('cell of %s: %s' % (edn(v)[:500], m[:900]), dict(clj=F, cases=[c]))
        else:
            r.outcome((v[0], next(iter(want)), len(v[1]) if isinstance(v[1:] and v[1], list) else 0))
            if r.n['values'] % 2503 == 1: r.sample(dict(value=edn(v)[:300], cell=dumps(got)[:300]))
def w_show(chunk, r):
    cs = [{'$edn': edn(v)} for v in chunk]
    for v, c, ans in zip(chunk, cs, call(S, cs)):
        want = cell(v)
        if not ordered(want): continue
        r.add('shown')
        text = render(want)
        if text is None: m = None if failed(ans) and not isinstance(ans, Dead) else 'tabulate fails, show says %s' % (ans,)      # D19, D20
        else: m = why(ans) if failed(ans) else 'answers %s' % ans[1] if ans[1] != 'ok' else None if ans[0] == text else 'prints\n%s\nexpected\n%s' % (ans[0], text)
        if m: r.violation('show %s: %s' % (edn(v)[:500], m[:900]), dict(clj=S, cases=[c]))
        else:
            r.outcome(('show', text is None, (text or '').count('\n')))
            if r.n['shown'] % 211 == 1: r.sample(dict(value=edn(v)[:300], shown=(text or '')[:300]))
# -- queries of ledgers: what they answer, shown -------------------------------------------------------------------
L = """(require 'limabean 'limabean.adapter.show 'limabean.user '[limabean.adapter.pod :as pod])
(fn [path] (with-out-str (binding [*err* *out*] (limabean.user/load-beanfile path)))
  (try (mapv (fn [q] (let [v (q)] [v (with-out-str (limabean.user/show v))]))
             [limabean.user/inventory limabean.user/balances limabean.user/income-statement #(limabean.user/rollup (limabean.user/inventory)) limabean.user/journal (fn [] limabean.user/*options*)])
       (finally (pod/stop (:pod limabean.user/*beans*)) (alter-var-root #'limabean.user/*beans* (constantly nil)))))"""
def value(x):
    """of what came as JSON; dates and text look the same"""
    if x is None: return ('nil',)
    if x is True or x is False: return ('b', str(x).lower())
    if isinstance(x, (Decimal, int)): return ('n', str(x), '{0:f}'.format(x))
    if isinstance(x, str): return ('s', x)
    if isinstance(x, list): return ('v', [value(y) for y in x])
    t = x.get('cell/type')
    if t == 'position': return (t, {k: value(y) if k != 'cost' else ('m', [(('kw', a), value(b)) for a, b in y.items()]) for k, y in x.items() if k != 'cell/type'})
    if t: return (t, {k: value(y) for k, y in x.items() if k != 'cell/type'})
    return ('m', [(('s', k), value(y)) for k, y in x.items()])
def options(v): return ('m', [(('kw', a[1]), ('kw', b[1]) if a[1] == 'booking' else b) for a, b in v[1]])
def w_ledgers(chunk, r):
    paths = [beanfile(t) for t in chunk]
    for t, p, ans in zip(chunk, paths, call(L, paths)):
        r.add('ledgers')
        os.unlink(p)
        if failed(ans): r.violation('%s\n%s' % (why(ans), t), dict(clj=L, files=[['main.beancount', t]])); continue
        for i, (q, (v, shown)) in enumerate(zip(('inventory', 'balances', 'income-statement', 'rollup', 'journal', 'options'), ans)):
            r.add('queries')
            x = value(v)
            text = render(cell(x)) if i < 5 else None
            if text is not None and shown != text: r.violation('(show (%s)) prints\n%s\nof %s, expected\n%s\nledger:\n%s' % (q, shown, dumps(v)[:600], text, t), dict(clj=L, files=[['main.beancount', t]]))
            else: r.outcome((q, text.count('\n') if text else None))
P = itertools.product
s = lambda x: ('s', x)
n = lambda src, text=None: ('n', src, text if text is not None else src.rstrip('MN'))
NUMBERS = [n('0'), n('-1'), n('1M'), n('1.50M'), n('-0.05M'), n('0.00000001M', '0.00000001'), n('0E-8M', '0.00000000'), n('1E+3M', '1000'), n('-1.5E+10M', '-15000000000'), n('79228162514264337593543950335M'), n('0.0000000000000000000000000001M'), n('1/3'), n('-22/7'), n('12345678901234567890N'), n('1.5'), n('-0.25')]
TEXTS = [s(''), s('a'), s('two words'), s(' b '), s('é☃日本'), s('"q\\'), s('1.5'), s('\n'), s('Assets:A')]
OTHERS = [('nil',), ('d', '2020-01-02'), ('d', '0001-12-31'), ('kw', 'a'), ('kw', 'n.s/b'), ('c', '\\a', 'a'), ('c', '\\space', ' '), ('b', 'true'), ('b', 'false'), ('?', "'sym"), ('?', '(Object.)'), ('?', 'inc'), ('?', '#"re"')]
LEAVES = NUMBERS + TEXTS + OTHERS
FEW = [('nil',), s('b'), s('a'), n('1.50M'), n('-12M'), ('kw', 'k'), ('d', '2020-01-02'), ('b', 'true'), ('?', "'sym")]
HOLD = [('nil',), s('a'), n('1.50M'), ('kw', 'k')]
FOUR = [s('b'), s('a'), n('1.50M'), n('-12M')]
def ord_(x, y):
    """{x y} and the like may be written"""
    return x != y and not (x[0] == y[0] == 'n' and Decimal(x[2]) == Decimal(y[2]) if '/' not in x[2:3] + y[2:3] and x[0] == y[0] == 'n' and '/' not in x[2] + y[2] else False)
def distinct(xs): return all(ord_(x, y) for x, y in itertools.combinations(xs, 2))
def two(xs):
    """one- and two-part values of these"""
    for k in ('v', 'l', 'lazy', 'set', 'm'):
        yield (k, [])
    for x in xs:
        for k in ('v', 'l', 'lazy', 'set'): yield (k, [x])
        for y in xs: yield ('m', [(x, y)])
    for x, y in P(xs, repeat=2):
        for k in ('v', 'l', 'lazy'): yield (k, [x, y])
        if ord_(x, y): yield ('set', [x, y])
def positions(deep):
    units = [n('1M'), n('-10.50M'), n('0.001M'), n('0M')]
    curs = [s('USD'), s('LONG-CUR')]
    costs = [None] + [('m', [(('kw', a), b) for a, b in zip(('date', 'cur', 'per-unit', 'label', 'merge'), c) if b]) for c in P([('d', '2020-01-02')], [s('USD'), s('E')], [n('10M'), n('1.123M')], [None, s('lot'), s('')], [None, ('b', 'true'), ('b', 'false')])] + [('m', [(('kw', 'per-unit'), n('1M'))]), ('m', [])]
    for u, c, k in P(units, curs, costs): yield ('position', dict(units=u, cur=c, **({'cost': k} if k else {})))
def entries():
    for date, payee, narration, flag, bal in P([('d', '2020-01-02'), ('nil',)], [None, s('p'), s('')], [None, s('n "q"')], [None, s('!')], [[], [('position', dict(units=n('1M'), cur=s('USD')))], [('position', dict(units=n(u), cur=s(c))) for u, c in (('-10.5M', 'EUR'), ('7M', 'USD'))], [('position', dict(units=n('%dM' % (i * 37 - 80)), cur=s('CU' + 'XYZABC'[i]))) for i in range(6)]]):
        yield ('journal/entry', {k: x for k, x in dict(date=date, acc=s('Assets:A'), payee=payee, narration=narration, flag=flag, units=n('-1.5M'), cur=s('USD'), bal=('v', bal)).items() if x})
def rollups():
    at = lambda u, d: ('v', [n(u), n(str(d))])
    yield ('rollup/entry', {})
    for i in range(5):
        yield ('rollup/entry', dict(item=at('1.5M', i)))
        yield ('rollup/entry', dict(total=at('-10M', i)))
        for t in range(i + 1):
            if t < i: yield ('rollup/entry', dict(item=at('1.5M', i), total=at('-10M', t)))
def cases(deep):
    yield from LEAVES
    yield from two(LEAVES)
    yield from (('m', [(x, y), (z, x)]) for x, y, z in P(LEAVES, FEW, LEAVES) if ord_(x, z))
    for k in ('v', 'l', 'set', 'm'):
        for size in (3, 4) if deep or k != 'm' else (3,):
            for xs in P(FEW if size == 3 or deep else FOUR + FEW[:1], repeat=size):
                if k == 'm':
                    if distinct(xs): yield ('m', [(x, xs[(i + 1) % size]) for i, x in enumerate(xs)])
                elif k != 'set' or distinct(xs): yield (k, list(xs))
    # nested twice
    inner = list(two(FEW if deep else HOLD))
    for x, y in P(inner, HOLD):
        for k in ('v', 'l', 'set'): yield (k, [x, y]); yield (k, [y, x])
        yield ('m', [(x, y)]); yield ('m', [(y, x), (s('z'), y)])
    for x, y in P(inner[::1 if deep else 3], inner[::1 if deep else 2]):
        yield ('v', [x, y])
        if ord_(x, y) and not equal(x, y): yield ('set', [x, y]); yield ('m', [(s('k'), x), (s('j'), y)]); yield ('m', [(x, y), (y, x)])
    # depth
    for k in ('v', 'l', 'm'):
        x = s('core')
        for i in range(12): x = (k, [x, n(str(i))]) if k != 'm' else ('m', [(s('k%d' % i), x), (n(str(i)), ('nil',))]) if i % 2 else ('m', [(s('k'), x)])
        yield x
    yield ('v', [n('%d.%s' % (i, '5' * (i % 7 + 1)) + 'M') for i in range(300)])
    yield ('m', [(s('k%d' % i), n('%dM' % i)) for i in range(100)])
    yield ('set', [n('%dM' % (i * 7919 % 101)) for i in range(101)])
    yield ('set', [s('k%d' % i) for i in range(40)])
    ps = list(positions(deep))
    yield from ps
    for i, p in enumerate(ps): yield ('v', [p, ps[(i * 7 + 1) % len(ps)]]); yield ('m', [(s('Assets:B'), ('v', [p])), (s('Assets:A'), ('v', [ps[(i * 5 + 2) % len(ps)], ps[(i * 11 + 3) % len(ps)]]))])
    es = list(entries())
    yield from es
    yield from (('v', [a, b]) for a, b in P(es, repeat=2))
    rs = list(rollups())
    yield from rs
    yield from (('m', [(s('Assets'), a), (s('Assets:A'), b)]) for a, b in P(rs, repeat=2))
    yield from (('v', [a, b, c]) for a, b, c in P(ps[:3] + es[:2] + rs[:3] + [s('x'), n('1.5M')], repeat=3))
def equal(x, y):
    """Clojure's = : lists and vectors of the same are equal"""
    seq = ('v', 'l', 'lazy')
    if x[0] in seq and y[0] in seq: return len(x[1]) == len(y[1]) and all(map(equal, x[1], y[1]))
    return x == y or x[0] == y[0] == 'set' and len(x[1]) == len(y[1]) and all(any(equal(a, b) for b in y[1]) for a in x[1])
def ledgers(deep):
    head = 'option "operating_currency" "USD"\n2018-01-01 open Assets:A\n2018-01-01 open Assets:A:B\n2018-01-01 open Income:J\n2018-01-01 open Expenses:Food:Out\n2018-01-01 open Equity:X\n'
    t = ['2020-01-02 * "p" "n"\n  Assets:A 10.50 USD\n  Equity:X\n', '2020-01-03 ! "buy"\n  Assets:A:B 2 STK {10 USD, "lot"}\n  Assets:A -20 USD\n', '2020-01-04 *\n  Expenses:Food:Out 3.333 USD\n  Income:J\n', '2020-02-01 pad Assets:A Equity:X\n2020-02-02 balance Assets:A 1000 USD\n', '2020-02-03 * "" ""\n  Assets:A:B -1 STK {}\n  Assets:A 12 USD\n  Income:J\n', '2020-02-03 *\n  Assets:A 100000000 EUR\n  Equity:X\n']
    for k in range(4 if not deep else 7):
        for c in itertools.combinations(t, k):
            if t[4] not in c or t[1] in c: yield head + ''.join(c)
    yield ''
def once(xs):
    seen = set()
    for x in xs:
        k = edn(x)
        if k not in seen: seen.add(k); yield x
def run(tier, seed):
    t = Result()
    deep = tier == 'thorough'
    end = time.time() + (700 if deep else 200)
    _, d1 = fan_out(w, once(cases(deep)), 300, t, end)
    few = [x for i, x in enumerate(once(cases(deep))) if i < len(LEAVES) or i % (23 if deep else 97) == 0 or x[0] in ('position', 'journal/entry', 'rollup/entry')]
    _, d2 = fan_out(w_show, few, 40, t, end)
    _, d3 = fan_out(w_ledgers, ledgers(deep), 4, t, end)
    k = t.n.get('values', 0) + t.n.get('shown', 0) + t.n.get('queries', 0)
    return t, dict(states=k, transitions=k, traces_validated_against_impl=k, exhaustive=d1 and d2 and d3)
