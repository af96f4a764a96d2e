"""C32 a printed directive is Beancount text which reads back as the same directive."""
import time
from ..clj import *
from ..content import *
from .c14 import judge as judge14
LEVEL = 'model_checking'
ASSUMPTIONS = ['the Clojure sources run on the interpreter in /verif/clj, not on Clojure itself']
F = "(require 'limabean.core.format) (fn [d] (limabean.core.format/directive->str d))"
G = "(require 'limabean.adapter.print 'limabean.core.type) (fn [ds] (pr-str (limabean.core.type/directives ds)))"
def read(text):
    path, drop = ledger([('main.beancount', text)])
    try: return ask(path, [request('parser.directives')])[0]
    finally: drop()
def bad(ds, texts):
    """[(directive, what is wrong)]: together, then by halves"""
    if any(not isinstance(t, str) for t in texts): return [(d, why(t) if failed(t) else str(t)) for d, t in zip(ds, texts) if not isinstance(t, str)]
    m = judge14(read(''.join(texts)), ds)
    if not m: return []
    if len(ds) == 1: return [(ds[0], 'printed as %r: %s' % (texts[0], m))]
    h = len(ds) // 2
    return bad(ds[:h], texts[:h]) + bad(ds[h:], texts[h:]) or [(ds[0], 'with others: ' + m)]
def w(chunk, r):
    for name, ds in chunk:
        texts = call(F, ds)
        r.add('directives', len(ds)); r.add('batches')
        for d, m in bad(ds, texts): r.violation('%s: %s: %s' % (name, dumps(d)[:500], m[:900]), dict(clj=F, cases=[d]))
        # as the REPL prints a vector of directives
        all_ = call(G, [ds])[0]
        if all(isinstance(t, str) for t in texts) and all_ != '\n'.join(texts): r.violation('%s: printed together differently: %s' % (name, str(all_)[:500]), dict(clj=G, cases=[ds]))
        r.outcome((name, len(ds)))
        if r.n['batches'] % 97 == 1: r.sample(dict(kind=name, text=texts[0]))
# -- booked directives: printed and booked again they are the same, but for totals, which are not printed ----------
L = """(require 'limabean) (fn [path] (let [b (limabean/load-beanfile path)] (try {:text (pr-str (:directives b)) :error (some? (:error b))} (finally (limabean.adapter.pod/stop (:pod b))))))"""
def plain(x):
    if isinstance(x, dict): return {k: plain(v) for k, v in x.items() if k not in ('idx', 'span') and not (k == 'total' and 'per-unit' in x)}
    return [plain(y) for y in x] if isinstance(x, list) else x
def w_booked(chunk, r):
    paths = [beanfile(t) for t in chunk]
    for text_, p, ans in zip(chunk, paths, call(L, paths)):
        r.add('ledgers')
        first = ask(p, [request('book')])[0]
        os.unlink(p)
        if 'result' not in first: r.add('not booked'); continue
        if failed(ans): r.violation('%s\n%s' % (why(ans), text_), dict(clj=L, files=[['main.beancount', text_]])); continue
        head = ''.join(l + '\n' for l in text_.split('\n') if l.startswith('option'))
        # a pad has become the transaction after it, which balances
        path, drop = ledger([('main.beancount', head + ''.join(l + '\n' for l in ans['text'].split('\n') if ' pad ' not in l))])
        again = ask(path, [request('book')])[0]
        drop()
        if 'result' not in again: m = 'rejected: %s' % str(again)[:600]
        else:
            a, b = normal([d for d in plain(first['result']['directives']) if d['dct'] != 'pad']), normal(plain(again['result']['directives']))
            m = next(('directive %d: %s, then %s' % (i, x, y) for i, (x, y) in enumerate(itertools.zip_longest(a, b)) if x != y), None)
        if m: r.violation('booked, printed and booked again: %s\n%s\nprinted:\n%s' % (m, text_, ans['text']), dict(clj=L, files=[['main.beancount', text_]]))
        else: r.outcome(tuple(len(d.get('postings', ())) for d in first['result']['directives']))
def ledgers(deep):
    lots = ['A 1 STK {10 USD}', 'A 2.5 STK {10.00 USD, 2019-01-01, "la \\"b\\""}', 'A 1 STK {# 10 USD}', 'A 1 STK {11 USD, *}', 'A -1 STK {}', 'A -1 STK {10 USD}', 'A 5 USD @ 1.5 EUR', 'A 4 USD @@ 10 EUR', 'A -0.00000001 USD', 'A 3 STK {10 USD} @ 12 USD', '! A 7.00 USD', 'B 1 USD', 'A 100 USD']
    tails = ['\n  X', '\n  X\n    key: "v"\n  B 0.00 USD']
    heads = ['*', '! "p" "n"', 'txn "n \\"q\\" \\\\" #t ^l', '* "" "n"']
    extra = ['', '2020-01-03 pad Assets:A Equity:X\n2020-01-04 balance Assets:A 500 USD\n', '2020-01-03 balance Assets:A 0 ~ 1000 USD\n', '2020-01-03 custom "x" NULL 1 Assets:A TRUE #t\n2020-01-03 document Assets:A "/x y"\n', '2020-01-03 query "q" "SELECT \\"x\\""\n2020-01-03 event "a" "b"\n2020-01-03 price STK 0.00000012 USD\n2020-01-05 close Assets:C\n']
    for o in ('', 'option "booking_method" "FIFO"\n', 'option "booking_method" "NONE"\n') if deep else ('', 'option "booking_method" "FIFO"\n'):
        for n in (1, 2, 3) if deep else (1, 2):
            for i, s in enumerate(itertools.product(lots, repeat=n)):
                t = o + '2018-01-01 open Assets:A\n2018-01-01 open Assets:B USD, EUR "STRICT"\n2018-01-01 open Equity:X\n2018-01-01 open Assets:C\n  key: 0.00000000\n2018-01-01 commodity STK\n'
                for j, l in enumerate(s):
                    f, _, a = l.rpartition(' A ') if ' A ' in l else ('', '', l[2:] if l[:2] in ('A ', 'B ') else l)
                    acc = 'Assets:B' if l.startswith('B ') else 'Assets:A'
                    t += '2020-01-02 %s\n  %s%s %s%s\n' % (heads[(i + j) % 4], f and f + ' ', acc, a, tails[(i // 3 + j) % 2].replace('  X', '  Equity:X').replace('  B 0.00 USD', '  Assets:B 0.00 EUR' if 'EUR' in l else '  Assets:B 0.00 USD'))
                if any(l.startswith('A -1 STK') for l in s): t = t.replace('2020-01-02 ', '2019-06-01 * "lots"\n  Assets:A 4 STK {10 USD}\n  Assets:B -40 USD\n2020-01-02 ', 1)
                yield t + extra[i % 5]
def batches(name, ds, n=40):
    ds = list(ds)
    for i in range(0, len(ds), n): yield name, [dict(d, date='2020-%02d-%02d' % (1 + j // 28, 1 + j % 28)) if 'date' not in d else d for j, d in enumerate(ds[i:i + n])]
def cases(deep):
    for k, bodies in kinds():
        bodies = [b for b in bodies if writable(b)]
        yield from batches(k, bodies)
        yield from batches(k + ' with tags, links, metadata', [merge(b, e) for b in (bodies[:3] if not deep else bodies[:12]) for e in EXTRA_FULL] + [merge(bodies[0], e) for e in metadata_each()])
        yield from batches(k + ' dates', [dict(bodies[0], date=d) for d in sorted(DATES + ['2020-12-31', '0001-01-01', '9999-12-31', '2019-02-28', '2000-02-29'])])
    hs = list(headers())
    t = lambda ps, h={}: dict(dict(dct='txn', flag='*', postings=ps), **h)
    yield from batches('transaction header', [t([], h) for h in hs] + [t([dict(acc='Assets:A')], h) for h in hs])
    yield from batches('transaction with tags, links, metadata', [merge(t(ps, h), e) for h in (hs[0], hs[8]) for ps in ([], [dict(acc='Assets:A')]) for e in EXTRA_FULL] + [merge(t([dict(acc='Assets:A')]), e) for e in metadata_each()])
    ps = list(postings())
    yield from batches('posting', [t([p]) for p in ps])
    yield from batches('two postings', [t([p, q]) for p, q in zip(ps, ps[len(ps) // 3:] + ps[:len(ps) // 3])])
    rich = [dict(acc='Assets:A', units=Num('3'), cur='STK', **{'cost-spec': {'per-unit': Num('5'), 'cur': 'USD'}, 'price-spec': {'per-unit': Num('7'), 'cur': 'USD'}}), dict(acc='Assets:A')]
    yield from batches('posting flag', [t([dict(rich[0], flag=f), dict(rich[1], flag=g)]) for f in FLAGS for g in FLAGS])
    yield from batches('posting with tags, links, metadata', [t([merge(p, e), merge(q, e2)]) for p, q in itertools.permutations(rich) for e in EXTRA_FULL for e2 in (EXTRA_FULL if deep else EXTRA_FULL[::4] + EXTRA_FULL[-1:])] + [t([merge(rich[i], e), rich[1 - i]]) for e in metadata_each() for i in (0, 1)])
    nums = NUMS + ['0.00000000', '0.00000001', '-0.0000001', '0.000001', '1e7', '0.0', '100', '1000000000000', '79228162514264337593543950335', '0.0000000000000000000000000001']
    yield from batches('numbers', [t([dict(acc='Assets:A', units=Num(n), cur='STK', **{'cost-spec': {'per-unit': Num(m), 'total': Num(n), 'cur': c}, 'price-spec': {'per-unit': Num(m), 'cur': c}})]) for n in nums if n != '1e7' for m in nums if m != '1e7' for c in CURS[:2]])
    for n in nums:
        if n != '1e7': yield from batches('number', [dict(dct='balance', acc='Assets:A', units=Num(n), cur='USD', **({'tolerance': Num(n.lstrip('-'))})), dict(dct='price', cur='USD', price={'per-unit': Num(n), 'cur': 'EUR'}), dict(dct='note', acc='Assets:A', comment='c', metadata={'ka': {'number': Num(n)}, 'kb': {'units': Num(n), 'cur': 'USD'}}), dict(dct='custom', type='t', values=[{'number': Num(n)}, {'tag': 't'}, {'units': Num(n), 'cur': 'X'}]), t([dict(acc='Assets:A', units=Num(n), cur='STK', **{'cost-spec': {'per-unit': Num(n), 'cur': 'USD'}, 'price-spec': {'total': Num(n), 'cur': 'USD'}})])])
def run(tier, seed):
    t = Result()
    deep = tier == 'thorough'
    end = time.time() + (700 if deep else 200)
    _, d1 = fan_out(w, cases(deep), 4, t, end)
    _, d2 = fan_out(w_booked, ledgers(deep), 20, t, end)
    d, n = d1 and d2, t.n.get('directives', 0) + t.n.get('ledgers', 0)
    return t, dict(states=n, transitions=n, traces_validated_against_impl=n, exhaustive=d)
