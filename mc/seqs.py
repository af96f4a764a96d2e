"""Exploration of directive sequences: every sequence over an alphabet up to a depth (tree), and breadth-first search over
the canonical states of the reference model beyond that. Every sequence/transition is replayed on the real server
(one `book` request with the whole history plus probes) and compared with the model."""
import time, datetime, itertools
from .core import *
from .ledger import Ledger, compare_errors, observed_errors

_dates = {}
def day(i, start=datetime.date(2020, 1, 1)):
    s = _dates.get(i)
    if s is None: s = _dates[i] = (start + datetime.timedelta(days=i)).isoformat()
    return s

# directive constructors (without date: given by position)
def op(acc, *curs, booking=None):
    d = dict(dct='open', acc=acc)
    if curs: d['currencies'] = list(curs)
    if booking: d['booking'] = booking
    return d
def cl(acc): return dict(dct='close', acc=acc)
def bal(acc, units, cur='USD', tol=None):
    d = dict(dct='balance', acc=acc, units=Num(units), cur=cur)
    if tol is not None: d['tolerance'] = Num(tol)
    return d
def pad(acc, source): return dict(dct='pad', acc=acc, source=source)
def post(acc, units=None, cur=None, **kw):
    p = dict(acc=acc)
    if units is not None: p['units'] = Num(units)
    if cur is not None: p['cur'] = cur
    p.update(kw)
    return p
def tx(*ps, **kw):
    d = dict(dct='txn', flag='*', postings=[p if isinstance(p, dict) else post(*p) for p in ps])
    d.update(kw)
    return d
def mv(a, b, units, cur='USD'):
    """move units from b to a"""
    neg = units[1:] if units.startswith('-') else '-' + units
    return tx((a, units, cur), (b, neg, cur))

def same_day(i): return '2020-02-29'
def backwards(i): return day(-i)
def new_year(i): return day(i, datetime.date(2019, 12, 30))

ROUND = Decimal('1e-20')
def close_to(a, b):
    """equal as numbers; quotients may differ beyond the 20th significant digit"""
    return a == b or abs(a - b) <= ROUND * max(abs(a), abs(b), Decimal(1))
def posting_view(p):
    """(acc, units, cur, cost, price) of a booked posting in an answer"""
    c, pr = p.get('cost'), p.get('price')
    return (p['acc'], p['units'], p['cur'],
            None if c is None else (c['date'], c['cur'], c['per-unit'], c.get('label'), bool(c.get('merge')), c['total']),
            None if pr is None else (pr['per-unit'], pr.get('total'), pr['cur']))
def same_view(a, b):
    if type(a) != type(b) and not (isinstance(a, Decimal) and isinstance(b, Decimal)): return False
    if isinstance(a, tuple): return len(a) == len(b) and all(same_view(x, y) for x, y in zip(a, b))
    if isinstance(a, Decimal): return close_to(a, b)
    return a == b
def want_postings(acc, booked):
    return [(acc, b['units'], b['cur'], None if b['cost'] is None else b['cost'] + (b['total'],), b['price']) for b in booked]
def booked_transactions(ds, led, resp, pads=True, txns=True):
    """compares the booked transactions (and padding transactions) with the model's"""
    got = resp['result']['directives']
    want = []
    for i, out in led.booked:
        want.append((i, ds[i]['dct'], None if ds[i]['dct'] == 'pad' else out))
        if ds[i]['dct'] == 'pad': want.append((i, 'txn', out))
    if [(int(x['idx']), x['dct']) for x in got] != [w[:2] for w in want]:
        return 'booked directives are %s, expected %s' % ([(int(x['idx']), x['dct']) for x in got], [w[:2] for w in want])
    for x, (i, dct, out) in zip(got, want):
        if dct != 'txn': continue
        if isinstance(out, dict):
            if not pads: continue
            exp = [(a, u, c, None, None) for a, u, c in out['postings']]
            if x['date'] != ds[i]['date']: return 'padding transaction dated %s not %s' % (x['date'], ds[i]['date'])
            if x['flag'] != "'P": return 'padding transaction flagged %r' % x['flag']
            for q in x['postings']:
                if q.get('flag') != "'P" or any(q.get(k) is not None for k in ('cost', 'price', 'idx')): return 'padding posting %s' % q
        else:
            if not txns: continue
            exp = [v for p, b in zip(ds[i]['postings'], out) for v in want_postings(p['acc'], b)]
        have = [posting_view(p) for p in x['postings']]
        if len(have) != len(exp) or not all(same_view(a, b) for a, b in zip(have, exp)):
            return 'directive %d booked as %s, expected %s' % (i, have, exp)
    return None
def booked_pads(ds, led, resp): return booked_transactions(ds, led, resp, txns=False)

def exact_probes(accs, curs):
    """assertions of exactly the totals the model expects (they hold), then of something else (they fail)"""
    def f(led):
        out = []
        for a in accs:
            for c in curs:
                if led.account_error(a, (0,)) or led.currency_error(a, c, (0,)): continue
                t = led.total(a, c)
                out.append(bal(a, format(t, 'f'), c, tol='0'))
        for a in accs[:1]:
            for c in curs[:1]:
                if not led.account_error(a, (0,)) and not led.currency_error(a, c, (0,)): out.append(bal(a, format(led.total(a, c) + 1, 'f'), c, tol='0.5'))
        return out
    return f

class Space:
    """prefix: directives before, letters: alphabet [(name, directive)], probes: directives after.
    kinds: the error kinds this space judges (None: all)."""
    def __init__(self, name, prefix, letters, probes=(), bean='', kinds=None, margins=True, lines=False, mult=None, tol_default=None, on_success=None, project=None, method=None, dates=None):
        self.dates = dates or day
        self.project, self.method = project, method
        self.name, self.prefix, self.letters = name, list(prefix), list(letters)
        self.probes = probes if callable(probes) else list(probes)   # or a function of the model after the sequence
        self.bean, self.kinds, self.margins, self.lines = bean, kinds, margins, lines
        self.mult, self.tol_default, self.on_success = mult, tol_default, on_success
        self.cache = {}
    def placed(self, i, d):
        k = (i, id(d))
        v = self.cache.get(k)
        if v is None:
            d2 = dict(d)
            d2.setdefault('date', self.dates(i))
            v = self.cache[k] = (d2, dumps(d2))
        return v
    def build(self, seq):
        ds = self.prefix + [self.letters[l][1] for l in seq]
        if not callable(self.probes): return [self.placed(i, d) for i, d in enumerate(ds + self.probes)]
        r = [self.placed(i, d) for i, d in enumerate(ds)]
        led = Ledger(self.mult, self.tol_default, self.method).run_only([p[0] for p in r])
        for i, d in enumerate(self.probes(led)):
            d = dict(d, date=self.dates(len(ds) + i))
            r.append((d, dumps(d)))
        return r
    def line(self, placed):
        return '{"jsonrpc":"2.0","id":1,"method":"book","params":[' + ','.join(p[1] for p in placed) + ']}'
    def model(self, ds, quirks=()):
        return Ledger(self.mult, self.tol_default, self.method, quirks).run(ds)
    def canon(self, seq):
        return Ledger(self.mult, self.tol_default, self.method).run_only([p[0] for p in self.build(seq)][:len(self.prefix) + len(seq)]).canon(self.project)
    def names(self, seq): return [self.letters[l][0] for l in seq]
    def judge(self, ds, resp):
        """what is wrong, if anything, and the model; its finding is the known finding which what is wrong is an instance of"""
        msg, led = self.compare(ds, resp, self.model(ds))
        led.finding = None
        if msg and any(m in ('fifo', 'lifo', 'hifo') for m in (*led.method.values(), led.default_method)):
            if self.compare(ds, resp, self.model(ds, ('D23',)))[0] is None: led.finding = 'D23'
        return msg, led
    def compare(self, ds, resp, led):
        if isinstance(resp, Dead): return 'no answer: %r (expected errors %r)' % (resp, led.errors), led
        try: got = observed_errors(resp)
        except (KeyError, TypeError, IndexError) as e: return 'unexpected answer %s (%r)' % (str(resp)[:300], e), led
        if got is None and led.errors and not all(e.optional for e in led.errors):
            return (None if self.kinds and not any(e.kind in self.kinds for e in led.errors) else 'booked, but expected errors %r' % led.errors), led
        if got is None:
            return (self.on_success(ds, led, resp) if self.on_success else None), led
        if not got: return 'failed without any error report', led
        return compare_errors(led.errors, got, self.kinds, self.margins, self.lines), led

def run_chunk(space, seqs, r, want_states=False):
    built = [space.build(s) for s in seqs]
    resps = ask(beanfile(space.bean), [space.line(b) for b in built])
    for s, b, resp in zip(seqs, built, resps):
        ds = [p[0] for p in b]
        msg, led = space.judge(ds, resp)
        r.add('replayed'); r.add('transitions', 1)
        r.add('%s: %s%s' % (space.name, 'long ' if len(s) > 8 else '', 'booked' if not led.errors else 'rejected'))
        if msg:
            r.violation('%s: after %s: %s' % (space.name, ' ; '.join(space.names(s)), msg), dict(bean=space.bean, lines=[space.line(b)]), key=led.finding, answer=str(resp)[:2000])
        r.outcome((space.name,) + tuple(sorted((e.kind, len(e.idx), len(getattr(e, 'related', ()))) for e in led.errors)))
        if want_states: r.states.add((space.canon(s), tuple(s)))
        if r.n['replayed'] % 97 == 1: r.sample(dict(space=space.name, sequence=space.names(s), request=space.line(b)[:1500], errors=[repr(e) for e in led.errors][:6]))

_space = None
def _tree(chunk, r): run_chunk(_space, chunk, r)
def _bfs(chunk, r): run_chunk(_space, chunk, r, True)

def sequences(n, depth):
    for k in range(depth + 1):
        yield from itertools.product(range(n), repeat=k)

def long_sequences(n):
    """every letter many times before and after every other; every pair of letters in a row, within a long mixture"""
    for i in range(n):
        for j in range(n):
            if i != j: yield from ((i,) * 9 + (j,), (i,) + (j,) * 7 + (i,), (i, j) * 6)
    s = [x for d in range(n) for i in range(n) for x in (i, (i + d) % n)]
    for size in (24, 150):
        for i in range(0, len(s), size): yield tuple(s[i:i + size + 1])

def explore(spaces, total, deadline):
    """spaces: [(space, tree depth, bfs states limit, explicit sequences)]. Returns coverage."""
    global _space
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, spaces=[])
    for space, depth, limit, extra in spaces:
        _space = space
        n0 = total.n.get('replayed', 0)
        n = len(space.letters)
        done = True
        if depth is not None:
            _, done = fan_out(_tree, sequences(n, depth), 400, total, deadline)
        tree = total.n.get('replayed', 0) - n0
        long = 0
        if depth is not None and not total.viol:
            ls = list(long_sequences(n)); long = len(ls)
            _, d = fan_out(_tree, ls, 60, total, deadline)
            done = done and d
        if extra and not total.viol:
            _, d = fan_out(_tree, extra, 50, total, deadline)
            done = done and d
        seen, closed, maxd = {space.canon(()): ()}, True, 0
        if limit:
            frontier = [()]
            while frontier and not total.viol:
                if time.time() > deadline or len(seen) > limit: closed = False; break
                total.states = set()
                _, d = fan_out(_bfs, (h + (l,) for h in frontier for l in range(n)), 200, total, deadline)
                frontier = []
                if not d: closed = False
                for c, h in sorted(total.states, key=lambda x: (len(x[1]), x[1])):
                    if c not in seen:
                        seen[c] = h; frontier.append(h); maxd = max(maxd, len(h))
                total.states = set()
        cov['states'] += len(seen)
        cov['spaces'].append(dict(space=space.name, letters=n, tree_depth=depth, tree_sequences=tree, tree_complete=done, long_sequences=long,
                                  bfs_states=len(seen), bfs_closed=closed if limit else None, bfs_max_depth=maxd, explicit=len(extra or ())))
        if total.viol: break
    cov['transitions'] = total.n.get('transitions', 0)
    cov['traces_validated_against_impl'] = total.n.get('replayed', 0)
    return cov
