"""C12 all erroneous directives are reported, with their index, and have no effect on the others."""
import time
from ..seqs import *
LEVEL = 'model_checking'
A, S, U, X = 'Assets:A', 'Assets:A:S', 'Assets:U', 'Equity:X'
NEUTRAL = [dict(dct='note', acc=A, comment='c'), dict(dct='price', cur='STK', price={'per-unit': Num('3'), 'cur': 'USD'}), dict(dct='note', acc='Assets:Never', comment='c'), dict(dct='event', type='t', description='d'), dict(dct='query', name='n', content='c'),
           dict(dct='commodity', cur='USD'), dict(dct='document', acc='Assets:Never', path='p'), dict(dct='custom', type='t', values=[]), dict(dct='custom', type='t', values=[{'acc': A}])]
def rejected(resp):
    """indices of directives an answer says are rejected outright"""
    out = set()
    for r in resp['error']['data']:
        k = error_kind_(r['reason'])
        if k in ('account', 'txn', 'currency') or k == 'pad' and not r['reason'].startswith('unused'): out.add(int(r['idx'][0]))
    return out
from ..ledger import error_kind as error_kind_
def errs(resp):
    e = observed_errors(resp)
    return [] if e is None else e
def shifted(e, f):
    g = lambda t: (f[t[0]],) + t[1:]
    if e.idx[0] not in f or any(t[0] not in f for t in e.related): return None
    return (e.kind, g(e.idx), tuple(g(t) for t in e.related), e.margin, e.cur)
_sp = None
def w(chunk, r):
    sp = _sp
    built = [sp.build(s) for s in chunk]
    path = beanfile(sp.bean)
    resps = ask(path, [sp.line(b) for b in built])
    second = []
    for s, b, resp in zip(chunk, built, resps):
        ds = [p[0] for p in b]
        msg, led = sp.judge(ds, resp)
        r.add('replayed'); r.add('transitions')
        r.outcome(tuple(sorted((e.kind, len(e.idx)) for e in led.errors)))
        if msg:
            r.violation('%s: after %s: %s' % (sp.name, ' ; '.join(sp.names(s)), msg), dict(bean=sp.bean, lines=[sp.line(b)]), key=led.finding, answer=str(resp)[:1500]); continue
        if r.n['replayed'] % 97 == 1: r.sample(dict(space=sp.name, sequence=sp.names(s), errors=[repr(e) for e in led.errors][:6]))
        neutral = [sp.placed_neutral(i) for i in range(len(b))]
        # neutral directives in between
        f = {i: 2 * i + 1 for i in range(len(b))}
        second.append((s, b, resp, [x for i, y in enumerate(b) for x in (neutral[i], y)] + neutral[:1], f, 'with neutral directives in between'))
        if 'error' in resp:
            rej = rejected(resp)
            # a pad whose source may not hold the currency is found out at the assertion only
            rej = {i for i in rej if not (ds[i]['dct'] == 'pad' and any(e.kind == 'currency' and e.idx == (i,) for e in errs(resp)))}
            # a repeated open or close is judged by what preceded it: unaffected by removing rejected directives
            if rej:
                kept = [i for i in range(len(b)) if i not in rej]
                second.append((s, b, resp, [b[i] for i in kept], {i: j for j, i in enumerate(kept)}, 'without the rejected directives %s' % sorted(rej)))
                one = min(rej); kept = [i for i in range(len(b)) if i != one]
                if len(rej) > 1: second.append((s, b, resp, [b[i] for i in kept], {i: j for j, i in enumerate(kept)}, 'without the rejected directive %d' % one))
    resps = ask(path, [sp.line(x[3]) for x in second])
    for (s, b, resp, b2, f, what), resp2 in zip(second, resps):
        r.add('metamorphic'); r.add('transitions')
        try:
            want = sorted((x for x in (shifted(e, f) for e in errs(resp)) if x), key=repr)
            got = sorted(((e.kind, e.idx, e.related, e.margin, e.cur) for e in errs(resp2)), key=repr)
            bad = None if want == got else 'errors %s, expected %s' % (got, want)
        except (KeyError, TypeError) as e: bad = 'unexpected answer %r' % (resp2,)
        if bad: r.violation('%s: %s, %s: %s' % (sp.name, ' ; '.join(sp.names(s)), what, bad), dict(bean=sp.bean, lines=[sp.line(b), sp.line(b2)]))
class Sp(Space):
    def placed_neutral(self, i):
        ns = NEUTRAL
        d = dict(ns[i % len(ns)], date=self.dates(i))
        return d, dumps(d)
def run(tier, seed):
    global _sp
    t = Result()
    deep = tier == 'thorough'
    deadline = time.time() + (800 if deep else 240)
    L = [('open A', op(A)), ('open S fifo', op(S, booking='fifo')), ('open U USD', op(U, 'USD')), ('close A', cl(A)), ('close S', cl(S)),
         ('tx A 1', mv(A, X, '1')), ('tx A unbalanced', tx((A, '1', 'USD'))), ('tx S,A,No', tx((S, '1', 'USD'), (A, '1', 'USD'), ('Assets:No', '-2', 'USD'))), ('tx U EUR', mv(U, X, '4', 'EUR')), ('tx X,U EUR', mv(X, U, '4', 'EUR')), ('tx two auto', tx((A, '1', 'USD'), (S,), (X,))),
         ('buy S', tx(post(S, '2', 'STK', **{'cost-spec': {'per-unit': Num('5'), 'cur': 'USD'}}), (X, '-10', 'USD'))), ('buy S, closed', tx(post(S, '2', 'STK', **{'cost-spec': {'per-unit': Num('6'), 'cur': 'USD'}}), ('Assets:No', '-12', 'USD'))),
         ('sell S', tx(post(S, '-1', 'STK', **{'cost-spec': {}}), (X,))), ('sell S, closed', tx(post(S, '-1', 'STK', **{'cost-spec': {}}), ('Assets:No',))),
         ('bal A 1', bal(A, '1')), ('bal A EUR', bal(A, '2', 'EUR')), ('bal U GBP', bal(U, '2', 'GBP')), ('bal U 3', bal(U, '3')), ('pad A<X', pad(A, X)), ('pad U<A', pad(U, A)), ('pad A<S', pad(A, S)), ('pad U<No', pad(U, 'Assets:No'))]
    def probes(led):
        out = []
        for a in (A, S, U):
            for c in ('USD', 'EUR', 'STK'):
                if not led.account_error(a, (0,)) and not led.currency_error(a, c, (0,)): out.append(bal(a, '777', c))
        return out
    n = len(L)
    todo = [(Sp('from empty', [op(X)], L, probes), 3 if deep else 2), (Sp('accounts open', [op(X), op(A), op(S, booking='lifo'), op(U, 'USD')], L, probes), 4 if deep else 3),
            (Sp('same day', [op(X), op(A), op(U, 'USD')], L, probes, dates=same_day), 3 if deep else 2), (Sp('dates decreasing', [op(X), op(A), op(U, 'USD')], L, probes, dates=backwards), 3 if deep else 2)]
    pick = lambda *names: [l for l in L if l[0] in names] + [('close X', cl(X)), ('pad X<A', pad(X, A))]
    todo += [(Sp('two accounts', [op(X), op(A)], pick('close A', 'tx A 1', 'bal A 1', 'pad A<X', 'bal A EUR'), probes), 6 if deep else 5), (Sp('two accounts from empty', [], pick('open A', 'close A', 'tx A 1', 'bal A 1', 'pad A<X') + [('open X', op(X))], probes), 6 if deep else 5)]
    cov, done = dict(spaces=[]), True
    def go(sp, seqs, what):
        global _sp
        nonlocal done
        _sp = sp
        if t.viol: return
        n0 = t.n.get('replayed', 0)
        _, d = fan_out(w, seqs, 200, t, deadline); done = done and d
        cov['spaces'].append(dict(space=sp.name, sequences=what, count=t.n.get('replayed', 0) - n0))
    for sp, depth in todo: go(sp, sequences(len(sp.letters), depth), 'all of depth %d' % depth)
    # many errors in one booking: blocks of up to 60 directives, every letter among many of the others
    ex = []
    for k in (1, 2, 5, 20):
        for i in range(n):
            for j in range(n): ex.append((i,) * k + (j,) * k + (i, j))
    for i in range(n): ex.append(tuple((i + j) % n for j in range(n)) * 3); ex.append(tuple((i - j) % n for j in range(n)) * 2)
    go(todo[1][0], ex, 'repetitions')
    for sp, _ in todo: go(sp, list(long_sequences(len(sp.letters))), 'long')
    cov.update(states=t.n.get('replayed', 0), transitions=t.n.get('transitions', 0), traces_validated_against_impl=t.n.get('replayed', 0), complete=done)
    return t, cov
