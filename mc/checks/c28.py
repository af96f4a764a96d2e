"""C28 an inventory is the sum of the postings: per account, currency and lot."""
import time
from ..clj import *
LEVEL = 'model_checking'
ASSUMPTIONS = ['the Clojure sources run on the interpreter in /verif/clj, not on Clojure itself']
F = """(require 'limabean 'limabean.core.registry)
(fn [{:keys [directives options]}]
  (limabean/inventory {:directives directives :options options :registry (limabean.core.registry/build directives options)}))"""
FILE = """(require 'limabean) (fn [path] (let [b (limabean/load-beanfile path) n #(mapv (fn [d] (select-keys d [:dct :acc :booking :postings])) %)] (try {:directives (n (:directives b)) :inventory (limabean/inventory b) :error (some? (:error b))} (finally (limabean.adapter.pod/stop (:pod b))))))"""
METHODS = ['strict', 'strict-with-size', 'fifo', 'lifo', 'hifo', 'none']
ORDER = ('date', 'cur', 'per-unit', 'label', 'merge')
def lot(c): return None if c is None else tuple(c.get(k) if k != 'per-unit' else Decimal(c[k]) for k in ORDER)
def rank(l):
    """sort key: without cost first, then by date, currency, cost per unit, label, merge flag, absent first"""
    return () if l is None else (l[0], l[1], l[2], l[3] is not None, l[3] or '', l[4] is not None, bool(l[4]))
def expected(postings, method):
    """{account: [(currency, units, lot)]} in the order of the list; lots which combine nothing keep the order of the postings"""
    accs = {}
    for p in postings: accs.setdefault(p['acc'], []).append(p)
    out = {}
    for a, ps in accs.items():
        rows = []
        for cur in sorted({p['cur'] for p in ps}):
            mine = [p for p in ps if p['cur'] == cur]
            sums, order = {}, []
            for i, p in enumerate(mine):
                l = lot(p.get('cost'))
                k = (l, i) if method(a) == 'none' and l is not None else (l,)
                if k not in sums: order.append(k)
                sums[k] = sums.get(k, 0) + Decimal(p['units'])
            if method(a) == 'none': order.sort(key=lambda k: len(k) > 1)
            else: order.sort(key=lambda k: rank(k[0]))
            rows += [(cur, sums[k], k[0]) for k in order if sums[k]]
        if rows: out[a] = rows
    return out
def postings(ds): return [p for d in ds if d['dct'] == 'txn' for p in d.get('postings', [])]
def booking(ds, options):
    """the method of an account's last open, else the option, else strict"""
    m = {d['acc']: str(d['booking']).lstrip(':') for d in ds if d['dct'] == 'open' and d.get('booking')}
    return lambda a: m.get(a, options.get('booking-method', 'strict'))
def observed(inv):
    return {a: [(p['cur'], Decimal(p['units']), lot(p.get('cost'))) for p in ps] for a, ps in inv.items()}
def show(x): return {a: ['%s %s %s' % (u, c, l or '') for c, u, l in ps] for a, ps in x.items()}
def judge(ds, options, ans):
    if failed(ans): return why(ans)
    try: got = observed(ans)
    except (KeyError, TypeError, ValueError, ArithmeticError, AttributeError): return 'unexpected result %s' % str(ans)[:300]
    want = expected(postings(ds), booking(ds, options))
    if got != want: return 'inventory %s, expected %s' % (show(got), show(want))
    for ps in ans.values():
        if any(set(p) - {'units', 'cur', 'cost', 'cell/type'} for p in ps): return 'a position with other attributes: %s' % ps
def w(chunk, r):
    for (ds, options), ans in zip(chunk, call(F, [dict(directives=d, options=o) for d, o in chunk])):
        r.add('cases')
        m = judge(ds, options, ans)
        if m: r.violation('options %s, directives %s: %s' % (options, dumps(ds)[:600], m), dict(clj=F, cases=[dict(directives=ds, options=options)]))
        else:
            r.outcome(tuple(sorted(len(v) for v in ans.values())))
            if r.n['cases'] % 211 == 1: r.sample(dict(directives=dumps(ds), inventory=show(observed(ans))))
# -- whole ledgers, through the server ----------------------------------------------------------
def w_file(chunk, r):
    paths = [beanfile(t) for t, _ in chunk]
    for (text, options), p, ans in zip(chunk, paths, call(FILE, paths)):
        r.add('ledgers')
        if not failed(ans) and ans.get('error'): r.add('not booked'); continue
        m = why(ans) if failed(ans) else judge(ans['directives'], options, ans['inventory'])
        if m: r.violation('%s\n%s' % (m, text), dict(clj=FILE, files=[['main.beancount', text]]))
        os.unlink(p)
# -- cases --------------------------------------------------------------------------------------
D = [ '2020-01-0%d' % i for i in range(1, 6)]
def cost(date=D[0], cur='USD', pu='10', label=None, merge=None):
    c = dict(date=date, cur=cur, **{'per-unit': Num(pu), 'total': Num('10')})
    if label is not None: c['label'] = label
    if merge is not None: c['merge'] = merge
    return c
COSTS = [None, cost(), cost(pu='10.00'), cost(D[1]), cost(pu='11.5'), cost(cur='EUR'), cost(label='a'), cost(merge=True)]
MORE = COSTS + [cost(pu='9'), cost(pu='100'), cost(label='b'), cost(label=''), cost(D[1], label='a'), cost(D[1], 'EUR', '11.5', 'a', True), cost(label='a', merge=True), cost('2019-12-31'), cost(pu='0'), cost(pu='0.00000001')]
A, B = 'Assets:A', 'Assets:B'
def pst(acc, units, cur='STK', c=None, **kw):
    d = dict(acc=acc, units=Num(units), cur=cur, **kw)
    if c: d['cost'] = c
    return d
def txn(*ps, **kw): return dict(dict(date=D[4], dct='txn', flag='*', postings=list(ps)), **kw)
def opened(a, b): return dict(dict(date=D[0], dct='open', acc=a), **({'booking': b} if b else {}))
P = itertools.product
def direct(deep):
    # every sequence of postings to one account
    small = [pst(A, u, 'STK', c) for u in ('1', '-1', '2.50') for c in COSTS] + [pst(A, u, 'USD') for u in ('1.00', '-1', '0.00')]
    for m in METHODS + [None]:
        for n in (1, 2):
            for s in P(small, repeat=n): yield [opened(A, m), txn(*s)], {}
    for s in P(small, repeat=3): yield [txn(*s)], {}
    for s in P(small[::1 if deep else 2], repeat=3): yield [txn(*s)], {'booking-method': 'none'}
    if deep:
        for s in P(small[::2], repeat=4): yield [opened(A, 'fifo'), txn(*s)], {}
    # every order of distinct lots
    for s in itertools.permutations(MORE, 3 if deep else 2): yield [txn(*(pst(A, '1', 'STK', c) for c in s))], {}
    for s in itertools.permutations(range(5)): yield [txn(*(pst(A, '1', 'STK', MORE[(0, 3, 6, 8, 13)[i]]) for i in s)), txn(*(pst(A, '1', ('B', 'a', 'A', 'CC', 'C')[i]) for i in s))], {}
    # default and own methods of two accounts; postings of one or of several transactions; other directives in between
    two = [pst(a, u, c, k) for a in (A, B) for u, c, k in (('1', 'STK', COSTS[1]), ('2', 'STK', COSTS[2]), ('-1', 'STK', COSTS[1]), ('1.5', 'USD', None))]
    for o in [{}] + [{'booking-method': m} for m in ('none', 'strict', 'fifo', 'strict-with-size')]:
        for a, b in P([None, 'none', 'strict', 'lifo'], repeat=2):
            for s in P(two, repeat=3 if deep else 2):
                yield [opened(A, a), opened(B, b)] + [txn(p) for p in s], o
            yield [opened(A, a), opened(B, b), txn(*two), txn(*two[::-1])], o
    # accounts of similar names, each with its own method
    for accs in (['Assets:A', 'Assets:AB', 'Assets:A:B'], ['Assets:A:B', 'Assets:A', 'Liabilities:A'], ['Assets:Ab', 'Assets:AB', 'Income:Assets:A'], ['Assets:A-1', 'Assets:A', 'Assets:A1:A']):
        for ms in P([None, 'none', 'fifo'], repeat=3):
            for o in ({}, {'booking-method': 'none'}): yield [opened(a, m) for a, m in zip(accs, ms)] + [txn(*(pst(a, u, 'STK', COSTS[1]) for u in ('1', '2') for a in accs))], o
    other = [dict(date=D[1], dct='balance', acc=A, units=Num('7'), cur='STK'), dict(date=D[1], dct='price', cur='STK', price={'per-unit': Num('7'), 'cur': 'USD'}), dict(date=D[1], dct='note', acc=A, comment='c'), dict(date=D[1], dct='pad', acc=A, source=B), dict(date=D[1], dct='close', acc=A), dict(date=D[1], dct='custom', type='t', values=[]), txn(), dict(date=D[1], dct='event', type='postings', description='d', postings=[pst(A, '5')])]
    for a, b in P(other, repeat=2):
        for s in P(two[:4], repeat=2): yield [a, txn(s[0]), b, txn(s[1], payee='p', narration='n'), a], {}
    # attributes of postings and transactions leave the sum alone
    extra = [dict(flag='!'), dict(price={'per-unit': Num('3'), 'cur': 'EUR'}), dict(tags=['t']), dict(links=['l']), dict(metadata={'k': {'number': Num('1')}}), dict(idx=Num('3')), dict(span=[0, 1, 2])]
    for e, f in P(extra, repeat=2):
        for c, k in P(COSTS[:4], repeat=2): yield [txn(pst(A, '1', 'STK', c, **e), pst(A, '2', 'STK', k, **f))], {}
    # values: scales, large, tiny, cancelling
    vals = ['1', '1.0', '-1.000', '0', '0.00', '9223372036854775807', '-9223372036854775808', '5000000000000000000', '79228162514264337593543950335', '0.0000000000000000000000000001', '-0.0000000000000000000000000001', '12345678901234.5678', '-1', '1e2']
    for n in (1, 2, 3):
        for s in P(vals, repeat=n):
            if n < 3 or deep or s[0] in vals[5:8]:
                yield [txn(*(pst(A, v) for v in s))], {}
                if n == 2: yield [txn(*(pst(A, v, 'STK', COSTS[1 + i]) for i, v in enumerate(s)))], {}
    # many accounts and currencies
    for n in (9, 40): yield [txn(*(pst('Assets:%s%d' % (x, i), str(i), 'C%d' % (i % 7)) for i in range(n) for x in 'aZ'))], {}
def ledgers(deep):
    lots = ['1 STK {10 USD}', '1 STK {10.00 USD}', '2 STK {11 USD, "a"}', '-1 STK {10 USD}', '-1 STK {10.0 USD}', '-1 STK {}', '1 STK', '-1 STK', '1 STK {10 USD, 2020-01-09}', '1 STK {10 USD, *}']
    for option in [None] + [m.upper().replace('-', '_') for m in METHODS]:
        for own in ('', ' "NONE"', ' "FIFO"') if deep or option in (None, 'NONE') else ('',):
            for n in (1, 2, 3) if deep or option in (None, 'NONE') and not own else (1, 2):
                for s in P(lots, repeat=n):
                    if n == 3 and not deep and s[0] not in lots[:3]: continue
                    t = 'option "booking_method" "%s"\n' % option if option else ''
                    t += '2020-01-01 open Assets:A%s\n2020-01-01 open Equity:E\n' % own
                    for i, l in enumerate(s):
                        t += '2020-01-0%d *\n  Assets:A %s\n  Equity:E\n' % (2 + (i > 1), l)
                    yield t, {'booking-method': option.lower().replace('_', '-')} if option else {}
def run(tier, seed):
    t = Result()
    deep = tier == 'thorough'
    end = time.time() + (700 if deep else 200)
    _, d1 = fan_out(w, direct(deep), 400, t, end)
    _, d2 = fan_out(w_file, ledgers(deep), 50, t, end)
    n = t.n.get('cases', 0) + t.n.get('ledgers', 0)
    return t, dict(states=n, transitions=n, traces_validated_against_impl=n, exhaustive=d1 and d2)
