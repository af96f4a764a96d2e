"""C13 booking preserves order, position and content of directives."""
import time, itertools
from ..content import *
from ..seqs import *
LEVEL = 'model_checking'
X = 'Equity:X'
ODD_FLAGS = ['', 'txn', 'P', 'p', "'", '**', 'a b', 'é', "'PP", 'null']       # of directives which are passed, these are strings like others
ALLOWED = {'idx', 'flag', 'acc', 'units', 'cur', 'cost', 'price', 'tags', 'links', 'metadata'}
def preserved(ds, led, resp):
    got = resp['result']['directives']
    want = []
    for i, out in led.booked:
        want.append((i, ds[i], out))
        if ds[i]['dct'] == 'pad': want.append((i, None, out))
    if [int(g['idx']) for g in got] != [x[0] for x in want]: return 'booked positions %s, expected %s' % ([int(g['idx']) for g in got], [x[0] for x in want])
    for g, (i, d, out) in zip(got, want):
        if d is None:
            e = dict(idx=i, date=ds[i]['date'], dct='txn', flag="'P", **{k: ds[i][k] for k in ('tags', 'links', 'metadata') if ds[i].get(k)})
            if normal({k: v for k, v in g.items() if k not in ('postings', 'payee', 'narration')}) != normal(e): return 'padding transaction of %d is %s' % (i, g)
            continue
        e = dict(d, idx=i)
        if d['dct'] == 'txn':
            e.pop('postings'); h = {k: v for k, v in g.items() if k != 'postings'}
            if normal(h) != normal(e): return 'directive %d booked as %s, given %s' % (i, h, e)
            pieces = [(k, p, len(b)) for k, (p, b) in enumerate(zip(d['postings'], out)) for _ in b]
            if [int(q.get('idx', -1)) for q in g['postings']] != [k for k, _, _ in pieces]: return 'transaction %d: posting positions %s, expected %s' % (i, [q.get('idx') for q in g['postings']], [k for k, _, _ in pieces])
            for q, (k, p, n) in zip(g['postings'], pieces):
                if set(q) - ALLOWED: return 'posting %d.%d has %s' % (i, k, set(q) - ALLOWED)
                keep = ['flag', 'acc', 'tags', 'links', 'metadata']
                if p.get('units') is not None and n == 1: keep.append('units')
                if p.get('cur') is not None: keep.append('cur')
                a, b = [normal({f: y[f] for f in keep if y.get(f) is not None}) for y in (q, p)]
                if a != b: return 'posting %d.%d booked as %s, given %s' % (i, k, a, b)
                for spec, got_ in (('cost-spec', 'cost'), ('price-spec', 'price')):     # whatever is said of cost and price holds of what is booked
                    said = p.get(spec) or {} if spec == 'cost-spec' or 'cost-spec' not in p else {}      # at cost, the price is ignored
                    if 'total' in said: said = {f: v for f, v in said.items() if f not in ('total', 'per-unit')}
                    is_ = q.get(got_) or {}
                    for f in ('per-unit', 'cur', 'date', 'label'):
                        if said.get(f) is not None and (is_.get(f) is None or normal(is_[f]) != normal(said[f])): return 'posting %d.%d booked with %s %s, given %s' % (i, k, got_, is_, p[spec])
        elif normal(g) != normal(e): return 'directive %d booked as %s, given %s' % (i, g, e)
    return None
# what the ledger file itself says is of no concern when directives are passed
OWN = '''2020-01-01 open Assets:A USD
  kk: "own"
2020-01-01 open Assets:Own
2020-01-03 * "own" #own
  Assets:A  17 USD
  Assets:Own
2020-01-04 close Assets:Own
2020-01-05 pad Assets:A Assets:Own
2020-01-06 balance Assets:A 1 USD
plugin "own.plugin"
'''
def w(chunk, r):
    lines = [request('book', ds) for _, ds in chunk]
    for bean in ('', OWN): asked(bean, chunk, lines, r)
def asked(bean, chunk, lines, r):
    for (name, ds), l, resp in zip(chunk, lines, ask(beanfile(bean), lines)):
        led = Ledger().run(ds)
        r.add('replayed'); r.add('transitions', len(ds))
        if led.errors:
            r.add('not bookable'); r.outcome((name, False)); continue
        try:
            msg = 'no answer: %r' % resp if isinstance(resp, Dead) else 'rejected: %s' % str(resp['error'])[:600] if 'error' in resp else preserved(ds, led, resp)
        except (KeyError, TypeError, IndexError, ValueError) as e: msg = 'unexpected answer (%r) %s' % (e, str(resp)[:500])
        r.add('directives', len(ds)); r.outcome((name, True))
        if r.n['replayed'] % 101 == 1: r.sample(dict(case=name, request=l[:1200]))
        if msg: r.violation('%s: %s' % (name, msg), dict(bean=bean, lines=[l]), answer=str(resp)[:2000])

def scenario(d, n):
    """directives around d that make it bookable; accounts renamed apart by n"""
    ren = lambda a: '%s:V%d' % (a, n)
    k = d['dct']
    if k == 'open': return [dict(d, acc=ren(d['acc']))]
    if k == 'close': return [op(ren(d['acc'])), dict(d, acc=ren(d['acc']))]
    if k == 'balance':
        a = ren(d['acc'])
        return [op(a), op(ren(X)), mv(a, ren(X), str(d['units']), d['cur']), dict(d, acc=a)]
    if k == 'pad':
        a, b = ren(d['acc']), ren(d['source'] + ':S')
        return [op(a), op(b), dict(d, acc=a, source=b), bal(a, '5')]
    return [d]
def place(scs, dates):
    """scenarios in order, everything dated by position"""
    ds = [x for s in scs for x in s]
    return [x if 'date' in x else dict(x, date=dates(i)) for i, x in enumerate(ds)]
DATE_FUNCS = [day, same_day, backwards]
def txns():
    """bookable transactions covering every way a posting is booked: as written, priced, at cost, split over lots, completed, zero"""
    A, B, F = 'Assets:A', 'Assets:B', 'Assets:F'
    c = lambda per, cur='USD', **k: {'cost-spec': dict({'per-unit': Num(per), 'cur': cur}, **k)}
    pre = [op(A), op(B), op(X), op(F, booking='fifo'), tx(post(F, '2', 'STK', **c('4')), (X, '-8', 'USD')), tx(post(F, '3', 'STK', **c('5', label='L')), (X, '-15', 'USD'))]
    pre += [op('Assets:M', booking='lifo')] + [tx(post('Assets:M', '1', 'STK', **c(str(20 + i), label='m%d' % i)), (X,)) for i in range(7)]
    T = {'plain': [post(A, '1', 'USD'), post(X, '-1', 'USD')], 'auto': [post(A, '1.50', 'USD'), post(X)], 'auto first': [post(X), post(A, '1.50', 'USD')], 'auto of two currencies': [post(A, '1', 'USD'), post(B, '2', 'EUR'), post(X, None, 'USD'), post(X, None, 'EUR')],
         'priced': [post(A, '2', 'EUR', **{'price-spec': {'per-unit': Num('3'), 'cur': 'USD'}}), post(X, '-6', 'USD')], 'total price': [post(A, '2', 'EUR', **{'price-spec': {'total': Num('6.00'), 'cur': 'USD'}}), post(X, '-6.00', 'USD')],
         'at cost': [post(A, '2', 'STK', **c('3')), post(X, '-6', 'USD')], 'at total cost': [post(A, '2', 'STK', **{'cost-spec': {'total': Num('7'), 'cur': 'USD'}}), post(X, '-7', 'USD')],
         'reduction': [post(F, '-1', 'STK', **{'cost-spec': {}}), post(X, '4', 'USD')], 'split reduction': [post(B, '1', 'EUR'), post(F, '-4', 'STK', **{'cost-spec': {}}), post(X, '18', 'USD'), post(X, '-1', 'EUR')],
         'split reduction at a price': [post(F, '-3', 'STK', **{'cost-spec': {}, 'price-spec': {'per-unit': Num('9'), 'cur': 'USD'}}), post(X)], 'no currency': [post(A, '1', 'USD'), post(X, '-1')], 'no units': [post(A, '1', 'USD'), post(X, None, 'USD')],
         'split over many lots': [post('Assets:M', '-5.5', 'STK', **{'cost-spec': {}}), post(X), post(B, '2', 'EUR'), post(B, '-2', 'EUR')], 'two splits': [post(F, '-4', 'STK', **{'cost-spec': {}}), post('Assets:M', '-6.5', 'STK', **{'cost-spec': {}}), post(X)],
         'zero': [post(A, '0', 'USD')], 'zero auto': [post(A, '0', 'USD'), post(X)], 'empty': [], 'same account twice': [post(A, '1', 'USD'), post(A, '1', 'USD'), post(A, '-2', 'USD')], 'cost and price': [post(A, '2', 'STK', **dict(c('3', date='2019-01-01', label='z'), **{'price-spec': {'per-unit': Num('4'), 'cur': 'USD'}})), post(X, '-6', 'USD')]}
    return pre, T
def cases(deep):
    accs = [op(a) for a in ACCS]
    yield ('nothing', [])
    for k, bodies in kinds():
        ex = bodies + [merge(b, e) for b in (bodies[:3] if not deep else bodies[:10]) for e in EXTRA_FULL] + [merge(bodies[0], e) for e in metadata_each()] + [dict(bodies[0], date=d) for d in DATES]
        for j, dates in enumerate(DATE_FUNCS):
            step = 12
            for i in range(0, len(ex), step): yield (k, place([scenario(b, n) for n, b in enumerate(ex[i:i + step])], dates))
        for b in ex[:: 1 if deep else 7]: yield (k + ' alone', place([scenario(b, 0)], day))
    pre, T = txns()
    mk = lambda ps, **h: dict(dict(dct='txn', flag='*', postings=ps), **h)
    for name, ps in T.items():
        for h in list(headers()) + [{'flag': '*', **e} for e in opts(('payee', ['', 'P']), ('narration', ['', 'N']))] + [dict(flag=f, narration='n') for f in ODD_FLAGS]: yield ('header of ' + name, place([pre, [mk(ps, **h)]], day))
        for e in EXTRA_FULL + list(metadata_each()): yield ('content of ' + name, place([pre, [merge(mk(ps), e)]], day))
        for k in range(len(ps)):
            for e in EXTRA_FULL + list(metadata_each()) + [{'flag': f} for f in FLAGS + ODD_FLAGS]:
                q = list(ps); q[k] = merge(ps[k], e); yield ('posting of ' + name, place([pre, [mk(q)]], day))
            for f, e, e2, g in itertools.product((None, '!', "'A"), EXTRA_FULL[::4], EXTRA_FULL[1::6], (EXTRA_FULL[0], EXTRA_FULL[-1])):
                q = [merge(p, e2) for p in ps]; q[k] = merge(ps[k], dict(e, **({'flag': f} if f else {})))
                yield ('postings of ' + name, place([pre, [merge(mk(q), g)]], same_day))
    # lots: label, date and numbers as given, when bought and when sold
    A, L = 'Assets:A', 'Assets:L'
    own = [dict(label=x) for x in STRINGS + ['USD', 'STK', A, '5', 'NULL', '*', '#t']] + [dict(date=x) for x in DATES] + [dict(label=x, date=y) for x in STRINGS[::3] for y in DATES[1:3]]
    for k in own:
        for n in ('5', '0.0000000000012345678', '1.25', '3.10', '1234567890.123456789'):
            q = [post(A, '2', 'STK', **{'cost-spec': dict({'per-unit': Num(n), 'cur': 'USD'}, **k)}), post(X)]
            yield ('lot bought', place([pre, [mk(q)]], day))
            yield ('lot sold', place([pre, [op(L), mk([merge(q[0], {'acc': L}), q[1]]), mk([post(L, '-1', 'STK', **{'cost-spec': k}), post(X)]), mk([post(L, '-1', 'STK', **{'cost-spec': dict({'per-unit': Num(n)})}), post(X)])]], day))
    for n in [n for n in NUMS[1:] if len(n) < 29 or n[0] == '-'] + ['0.0000000000012345678', '1234567890.123456789']:
        for ps in ({'per-unit': Num(n), 'cur': 'USD'}, {'total': Num(n), 'cur': 'USD'}): yield ('price', place([pre, [mk([post(A, '1', 'EUR', **{'price-spec': ps}), post(X)])]], day))
    # positions: every sequence of scenarios of different kinds, so that idx and order are independent of kind and date
    sc = {k: [merge(bodies[0], EXTRA_FULL[-1])] for k, bodies in kinds()}
    letters = [('d', b[0]) for b in sc.values()] + [('t', n) for n in ('plain', 'split reduction', 'auto of two currencies')]
    def build(seq):
        scs = [pre]
        for n, l in enumerate(seq):
            kind, x = letters[l]
            if kind == 'd': scs.append(scenario(x, n)); continue
            own = 'Assets:F:V%d' % n      # lots of its own, so that any number of these can be booked
            scs.append(([merge(d, {'acc': own}) if 'acc' in d else dict(d, postings=[merge(p, {'acc': own}) if p['acc'] == 'Assets:F' else p for p in d['postings']]) for d in pre[3:6]] if 'reduction' in x else []) +
                       [merge(mk([merge(p, {'acc': own}) if p['acc'] == 'Assets:F' else p for p in T[x]]), {'tags': ['n%d' % n]})])
        return scs
    for n in (1, 2, 3) if deep else (1, 2):
        for seq in itertools.product(range(len(letters)), repeat=n):
            for dates in DATE_FUNCS: yield ('sequence', place(build(seq), dates))
    for rot in range(len(letters)):
        seq = [(rot + 4 * i) % len(letters) for i in range(40)]
        yield ('long sequence', place(build(seq), same_day if rot % 2 else day))
    for rot, n in ((0, 300), (5, 700)) + (((3, 3000),) if deep else ()):
        yield ('very long sequence', place(build([(rot + 4 * i + i // len(letters)) % len(letters) for i in range(n)]), same_day if rot % 2 else day))
    # pads: the padding transaction takes idx, tags, links and metadata of its pad, wherever the assertion is
    for e in EXTRA_FULL + list(metadata_each()):
        for gap in (0, 1, 3):
            for acc in ACCS[:3]:
                yield ('pad', place([[op(acc), op(X), op('Assets:B'), merge(pad(acc, X), e)], [mv('Assets:B', X, '1'), dict(dct='note', acc=acc, comment='c'), mv(acc, X, '2')][:gap], [merge(bal(acc, '7.5'), EXTRA_FULL[gap])]], day))
    for e, f in itertools.product(EXTRA_FULL[::3], EXTRA_FULL[::4]):      # two pads, assertions in either order
        for o in (0, 1):
            b = [bal('Assets:A', '1'), bal('Assets:B', '2')]
            yield ('two pads', place([[op('Assets:A'), op('Assets:B'), op(X), merge(pad('Assets:A', X), e), merge(pad('Assets:B', X), f)], b[::-1] if o else b], day))
def run(tier, seed):
    t = Result()
    deep = tier == 'thorough'
    _, done = fan_out(w, cases(deep), 100, t, time.time() + (600 if deep else 240))
    return t, dict(states=t.n.get('directives', 0), transitions=t.n.get('transitions', 0), traces_validated_against_impl=t.n.get('replayed', 0), exhaustive=done)
