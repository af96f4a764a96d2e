"""C15 booking the file and booking its parsed directives agree."""
import time, itertools, re
from ..content import *
from ..core import *
LEVEL = 'model_checking'
A, B, S, X, N = 'Assets:A', 'Assets:B', 'Assets:A:S', 'Equity:X', 'Assets:No'
def o(acc, *c, **k): return dict(dct='open', acc=acc, **dict({'currencies': list(c)} if c else {}, **k))
def t(*ps, **k): return dict(dict(dct='txn', flag='*', postings=[p if isinstance(p, dict) else dict(zip(('acc', 'units', 'cur'), (p[0], Num(p[1]), p[2]) if len(p) > 1 else p)) for p in ps]), **k)
def b(acc, u, cur='USD', **k): return dict(dct='balance', acc=acc, units=Num(u), cur=cur, **k)
PRE = [o(X), o(A), o(B, 'USD'), o('Assets:L', booking='fifo')]
LETTERS = [('open A again', o(A)), ('open S', o(S)), ('close A', dict(dct='close', acc=A)), ('close N', dict(dct='close', acc=N)),
  ('txn', t((A, '10', 'USD'), (X, '-10', 'USD'), narration='n')), ('txn unbalanced', t((A, '10', 'USD'), (X, '-9', 'USD'), payee='p', narration='q')),
  ('txn unopened first', t((N, '1', 'USD'), (X, '-1', 'USD'))), ('txn unopened last', t((A, '5', 'USD'), (B, '-4', 'USD'), (N, '-1', 'USD'), tags=['t'], metadata={'kk': {'string': 's'}})),
  ('txn bad currency', t((A, '1', 'EUR'), dict(acc=B, metadata={'kk': {'bool': True}}))), ('txn S', t((S, '1', 'USD'), (X, '-1', 'USD'))),
  ('buy', t(dict(acc='Assets:L', units=Num('2'), cur='STK', **{'cost-spec': {'per-unit': Num('5'), 'cur': 'USD'}}), (A,))), ('sell', t(dict(acc='Assets:L', units=Num('-3'), cur='STK', **{'cost-spec': {}}), (A,))),
  ('empty txn', t()), ('auto twice', t((A,), (X,))),
  ('balance A', b(A, '10')), ('balance A 1', b(A, '1', tolerance=Num('0.5'))), ('balance N', b(N, '0')), ('balance B EUR', b(B, '0', 'EUR')),
  ('pad A', dict(dct='pad', acc=A, source=X)), ('pad A from B', dict(dct='pad', acc=A, source=B, metadata={'kk': {'number': Num('1')}})), ('pad N', dict(dct='pad', acc=N, source=X)), ('pad S from A', dict(dct='pad', acc=B, source=N)),
  ('price', dict(dct='price', cur='STK', price={'per-unit': Num('1.5'), 'cur': 'USD'})), ('commodity', dict(dct='commodity', cur='USD')), ('note', dict(dct='note', acc=N, comment='c')), ('document', dict(dct='document', acc=A, path='x.pdf')),
  ('event', dict(dct='event', type='a', description='b')), ('query', dict(dct='query', name='a', content='b')), ('custom', dict(dct='custom', type='a', values=[{'bool': True}]))]
KIND = {'txn': 'transaction'}
def sets(x, key=None):
    if isinstance(x, Decimal): return str(x)
    if isinstance(x, dict): return {k: sets(v, k) for k, v in x.items()}
    if isinstance(x, list):
        l = [sets(v) for v in x]
        return sorted(l) if key in SETS else l
    return x
def listed(reason):
    """with the currencies it lists in order: theirs is that of a hash table (see C02)"""
    return re.sub(r"[A-Z][A-Z0-9'._-]*(,[A-Z][A-Z0-9'._-]*)+", lambda m: ','.join(sorted(m.group(0).split(','))), reason)
def compare(ds, a, b_):
    """ds: parser.directives; a: book, b_: book with params"""
    if 'result' in a or 'result' in b_:
        if 'result' not in a or 'result' not in b_: return 'book: %s; with its directives as params: %s' % (str(a)[:700], str(b_)[:700])
        if sets(a['result']) != sets(b_['result']): return 'booked %s; with params %s' % (sets(a['result']), sets(b_['result']))
        return None
    ea, eb = a['error'], b_['error']
    if ea['code'] != 2 or eb['code'] != 3: return 'error codes %s, %s' % (ea, eb)
    if len(ea['data']) != len(eb['data']): return '%d reports; with params %d: %s, %s' % (len(ea['data']), len(eb['data']), ea['data'], eb['data'])
    def element(idx):
        d = ds[int(idx[0])]
        return (KIND.get(d['dct'], d['dct']), d['span']) if len(idx) == 1 else ('posting', d['postings'][int(idx[1])]['span'])
    def fits(r, x):
        kind, span = element(x['idx'])
        if listed(r['reason']) != listed(x['reason']) or r.get('annotation') != x.get('annotation') or r['span'] != span: return False
        if kind not in r['message'].split(): return False
        c = r.get('contexts') or []
        if len(x['idx']) == 2:
            if [tuple(map(str, v)) for v in c] != [('transaction', str(ds[int(x['idx'][0])]['span']))]: return False
        rel = [element(v) for v in x.get('related') or []]
        return [[l, s] for l, s in rel] == [list(v) for v in r.get('related') or []]
    left = list(eb['data'])
    for r in ea['data']:
        h = next((x for x in left if fits(r, x)), None)
        if h is None: return 'report %s corresponds to none of %s (spans: %s)' % (r, left, [(d['dct'], d['span'], [p['span'] for p in d.get('postings', ())]) for d in ds])
        left.remove(h)
    return None
def w(chunk, r):
    for name, files in chunk:
        path, drop = ledger(files)
        with Session(path) as s:
            d = s.request('parser.directives'); raw = s.raw
            msg = lines = None
            try:
                ds = d['result']['directives']
                a = s.request('book')
                l = '{"jsonrpc":"2.0","id":1,"method":"book","params":%s}' % dumps(ds)
                b_ = s.ask(l)
                lines = [request('book'), l]
                if isinstance(a, Dead) or isinstance(b_, Dead): msg = 'no answer: %r, %r' % (a, b_)
                else:
                    msg = compare(ds, a, b_)
                    r.outcome((tuple(sorted(x['reason'].split(' ')[0] + str(len(x['idx'])) for x in b_['error']['data'])) if 'error' in b_ else 'booked'))
                    r.add('booked' if 'result' in a else 'rejected')
            except (KeyError, TypeError, IndexError) as e: msg = 'unexpected answer (%r): %s' % (e, str(d)[:600])
        r.add('files'); r.add('transitions', 2)
        if r.n['files'] % 211 == 1: r.sample(dict(case=name, files=[list(f) for f in files], answer=str(a)[:600]))
        if msg: r.violation('%s: %s' % (name, msg), dict(files=[list(f) for f in files], lines=lines))
        drop()
def cases(deep):
    n = len(LETTERS)
    def day(i): return '20%02d-%02d-%02d' % (20 + i // 336, 1 + i // 28 % 12, 1 + i % 28)
    head = [dict(d, date='2019-01-01') for d in PRE]
    def file(seq, dates, sp=0): return [('main.beancount', [document(head), '; é\n\n' + document(head, STYLES[2])][sp] + document([dict(LETTERS[l][1], date=day(k)) for l, k in zip(seq, dates)], STYLES[sp * 2]))]
    for k in (1, 2): 
        for seq in itertools.product(range(n), repeat=k):
            yield ('sequence', file(seq, range(k)))
            yield ('written in reverse', file(seq, range(k)[::-1]))
            yield ('on one day, with comments', file(seq, [0] * k, 1))
    some = [i for i, l in enumerate(LETTERS) if l[0] in ('open S', 'close A', 'txn', 'txn unbalanced', 'txn unopened last', 'txn bad currency', 'txn S', 'buy', 'balance A', 'balance A 1', 'pad A', 'pad A from B', 'pad N', 'note')]
    for seq in itertools.product(some if not deep else range(n), repeat=3):
        yield ('sequence', file(seq, range(3)))
    if deep:
        for seq in itertools.product(some, repeat=4): yield ('sequence', file(seq, range(4)))
    # ledgers most of which can be booked: lots, prices, amounts left out, pads, all of it carrying tags, links and metadata
    L = 'Assets:L'
    c = lambda per, **k: {'cost-spec': dict({'per-unit': Num(per), 'cur': 'USD'}, **k)}
    p = lambda acc, u=None, cur=None, **k: dict(acc=acc, **({'units': Num(u)} if u else {}), **({'cur': cur} if cur else {}), **k)
    good = [[t(p(L, '2', 'STK', **c('5')), p(A))], [t(p(L, '3.5', 'STK', **c('6.25', label='q')), p(A, '-21.875', 'USD'), payee='P', narration='N')], [t(p(L, '1', 'STK', **c('5', date='2018-05-05', merge=True)), p(X), tags=['a', 'b'], links=['l'])],
            [t(p(L, '-1.5', 'STK', **{'cost-spec': {}}), p(A), metadata={'kk': {'number': Num('1.50')}})], [t(p(L, '-4', 'STK', flag='!', metadata={'pp': {'string': 's'}}, **{'cost-spec': {'cur': 'USD'}}), p(X))],
            [t(p(A, '10.00', 'EUR', **{'price-spec': {'per-unit': Num('1.2'), 'cur': 'USD'}}), p(B))], [t(p(A, '10', 'EUR', **{'price-spec': {'total': Num('12.5'), 'cur': 'USD'}}), p(B, '-12.5', 'USD'))], [t(p(A, '3', 'USD'), p(A, '4.00', 'EUR'), p(X, None, 'USD'), p(X, None, 'EUR'))],
            [t(p(A, '1'), p(X, '-1', 'USD'))], [t(p(A, '1.0049', 'USD'), p(X, '-1.00', 'USD'))], [dict(dct='pad', acc=A, source=X, tags=['pad'], metadata={'mm': {'acc': A}}), b(A, '100')], [dict(dct='pad', acc=B, source=X), t((A, '1', 'USD'), (X, '-1', 'USD')), b(B, '-7.25', links=['ba'])],
            [o(S, 'USD', 'EUR', booking='lifo'), t((S, '1', 'USD'), (X, '-1', 'USD'))], [dict(dct='custom', type='a', values=[{'units': Num('1.0'), 'cur': 'USD'}]), dict(dct='note', acc=A, comment='c')]]
    opts_ = ['', 'option "booking_method" "LIFO"\n', 'option "inferred_tolerance_multiplier" "0.1"\n']
    stock = [dict(t(p(L, '2000', 'STK', **c('4')), p(X, '-8000', 'USD')), date='2019-02-01')]      # enough to sell
    for k in (1, 2, 3):
        for seq in itertools.product(range(len(good)), repeat=k):
            for v in (0, 1, 2) if k < 3 or deep else (0,):
                ds = [dict(d, date=day(j if v != 1 else 3 * (k - j))) for j, g in enumerate(seq) for d in good[g]]
                yield ('bookable', [('main.beancount', opts_[v] + document(head + stock * (sum(seq) % 3 > 0), STYLES[v]) + ('' if v != 2 else '\n') + document(ds, STYLES[v * 2]))])
    for g in itertools.product(range(len(good)), repeat=2):
        yield ('bookable, long', [('main.beancount', document(head + stock) + document([dict(d, date=day(j)) for j in range(12) for d in good[g[j % 2]] if d['dct'] not in ('open', 'pad', 'balance') or j < 2]))])
    for m in (60, 300, 700):
        yield ('bookable, very long', [('main.beancount', document(head + stock) + document([dict(d, date=day(j)) for j in range(m) for d in good[(5 * j + j // 14) % 14] if d['dct'] not in ('open', 'pad', 'balance') and not ('S' in str(d) and S in str(d))]))])
        yield ('very long', file([(5 * j + j // n) % n for j in range(m)], range(m)))
        yield ('very long, written in reverse', file([(7 * j + j // n) % n for j in range(m)], range(m)[::-1]))
        yield ('errors at the same thing', file([next(i for i, l in enumerate(LETTERS) if l[0] == x) for x in ('open A again', 'txn S', 'txn unbalanced', 'open S', 'open S') for _ in range(m)], range(5 * m)))
    # in two files, the included one with the earlier directives
    for i, j in itertools.product(range(n), repeat=2):
        yield ('included', [('main.beancount', 'include "sub.beancount"\n' + document([dict(LETTERS[j][1], date=day(1))])), ('sub.beancount', document(head) + '\n\n' + document([dict(LETTERS[i][1], date=day(0))]))])
    # the options hold for both
    for opt in ('option "booking_method" "LIFO"\n', 'option "inferred_tolerance_multiplier" "1.1"\n', 'option "inferred_tolerance_default" "*:5"\n', 'option "name_assets" "Assets"\noption "title" "T"\n', 'plugin "limabean.something" "x"\n'):
        for i, j in itertools.product(some, repeat=2):
            f = file((i, j), (0, 1))
            yield ('with options', [(f[0][0], opt + f[0][1])])
    # everything at once, and all directives with all their optional parts
    yield ('all letters', file(range(n), range(n)))
    yield ('all letters, reversed', file(range(n)[::-1], range(n)))
    for k, bodies in kinds():
        bodies = [x for x in bodies if writable(x)]
        for c in chunks([merge(bodies[i % len(bodies)], e) for i, e in enumerate(EXTRA_FULL)] + bodies, 25):
            for pre in (head, []): yield (k, [('main.beancount', document(pre) + document([dict(x, date=day(i)) for i, x in enumerate(c)]))])
    for c in chunks(postings(), 12): yield ('postings', [('main.beancount', document(head) + document([dict(dct='txn', flag='*', postings=[p, dict(acc=X)], date=day(i)) for i, p in enumerate(c)]))])
    for c in chunks(headers(), 12): yield ('headers', [('main.beancount', document(head) + document([dict(dct='txn', postings=[dict(acc=A, units=Num('1'), cur='USD', flag='!'), dict(acc=X)], date=day(i), **h) for i, h in enumerate(c)]))])
    for m in chunks(metadata_each(), 15): yield ('metadata', [('main.beancount', document(head) + document([merge(dict(dct='txn', flag='*', date=day(i), postings=[merge(dict(acc=A, units=Num('1'), cur='USD'), e), dict(acc=X)]), e) for i, e in enumerate(m)]))])
def run(tier, seed):
    t_ = Result()
    deep = tier == 'thorough'
    deadline = time.time() + (700 if deep else 240)
    _, done = fan_out(w, cases(deep), 25, t_, deadline)
    n = t_.n.get('files', 0)
    return t_, dict(states=n, transitions=t_.n.get('transitions', 0), traces_validated_against_impl=n, exhaustive=done)
