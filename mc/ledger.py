"""Reference model of booking a sequence of directives, (transactions: booking.py):
account lifecycle, currency constraints, balance assertions, padding, error reporting.

Boring on purpose: dictionaries and exact decimals. A directive is the dict sent to `book`.
"""
from decimal import Decimal as D
from .core import Num
from .booking import book_txn, accumulate, Tol, order
ZERO = D(0)

def within(base, acc):
    return acc == base or acc.startswith(base + ':')
def scale(d):
    return max(0, -d.as_tuple().exponent)
def dec(x):
    return D(str(x))

class Err:
    """kind: account/currency/balance/pad/txn; idx: (directive,) or (directive, posting); related: sorted list of idx"""
    __slots__ = ('kind', 'idx', 'related', 'margin', 'cur', 'lines', 'optional')
    def __init__(self, kind, idx, related=(), margin=None, cur=None, lines=None, optional=False):
        self.kind, self.idx, self.related = kind, tuple(idx), tuple(related)
        self.margin, self.cur, self.lines, self.optional = margin, cur, lines, optional
    def key(self):
        return (self.kind, self.idx, self.related)
    def __repr__(self):
        return '%s@%s%s%s' % (self.kind, list(self.idx), ' rel %s' % (list(self.related),) if self.related else '',
                              ' margin %s %s lines %s' % (self.margin, self.cur, self.lines) if self.margin is not None else '')

class Ledger:
    def __init__(self, multiplier=None, tol_default=None, default_method=None, quirks=()):
        self.quirks = quirks
        self.mult = D('0.5') if multiplier is None else D(multiplier)
        self.opened = {}     # acc -> (idx, currencies or None)
        self.closed = {}     # acc -> idx
        self.tol = Tol(multiplier, tol_default, quirks)
        self.pos = {}        # acc -> positions [cur, cost, units, cost total]
        self.method = {}     # acc -> booking method
        self.default_method = default_method if default_method and default_method != 'average' else 'strict'
        self.pads = {}       # acc -> (idx, source, log entry)
        self.seen = {}       # acc -> (length of log, amount, currency) at its last balance assertion
        self.log = []        # booked transactions in order: dict(idx, date, postings [(acc, units, cur)])
        self.errors = []
        self.booked = []     # (idx, None) or (idx, pad postings)
        self.tainted = set() # accounts with a rejected second pad: what their next assertion says is not specified

    # -- helpers
    def account_error(self, acc, idx):
        if acc in self.opened: return None
        if acc in self.closed: return Err('account', idx, [(self.closed[acc],)])
        return Err('account', idx)
    def currency_error(self, acc, cur, idx):
        oidx, curs = self.opened_ever[acc] if acc not in self.opened else self.opened[acc]
        if curs and cur not in curs: return Err('currency', idx, [(oidx,)])
        return None
    def total(self, base, cur):
        return sum((p[2] for a, ps in self.pos.items() if within(base, a) for p in ps if p[0] == cur), ZERO)
    def add(self, acc, cur, units):
        accumulate(self.pos[acc], units, cur, None, None, 'strict', self.quirks)

    # -- one directive
    def step(self, i, d):
        getattr(self, 'd_' + d['dct'], self.neutral)(i, d)
    def run(self, ds):
        self.opened_ever = {}
        for i, d in enumerate(ds): self.step(i, d)
        return self.finish()
    def run_only(self, ds):
        self.opened_ever = {}
        for i, d in enumerate(ds): self.step(i, d)
        return self
    def finish(self):
        for acc, (idx, source, entry) in self.pads.items():
            self.errors.append(Err('pad', (idx,)))
        return self
    def neutral(self, i, d):
        self.booked.append((i, None))
    def d_open(self, i, d):
        acc = d['acc']
        if acc in self.opened:
            self.errors.append(Err('account', (i,), [(self.opened[acc][0],)]))
        elif acc in self.closed:
            self.errors.append(Err('account', (i,), [(self.closed[acc],)]))
        else:
            self.opened[acc] = self.opened_ever[acc] = (i, frozenset(d.get('currencies') or ()))
            self.pos[acc] = []
            m = d.get('booking') or self.default_method
            self.method[acc] = 'strict' if m == 'average' else m
            self.booked.append((i, None))
    def d_close(self, i, d):
        acc = d['acc']
        if acc not in self.opened:
            # relating to the earlier close is not promised for a repeated close
            e = Err('account', (i,)); self.errors.append(e)
        else:
            del self.opened[acc]
            self.closed[acc] = i
            self.booked.append((i, None))
    def d_pad(self, i, d):
        for acc in (d['source'], d['acc']):
            e = self.account_error(acc, (i,))
            if e:
                # both may be in error; which one is reported is not specified
                others = [x for x in (self.account_error(a, (i,)) for a in (d['source'], d['acc'])) if x]
                self.errors.append(others[0] if len(others) == 1 or others[0].related == others[1].related else Any(others))
                return
        if within(d['acc'], d['source']):
            self.errors.append(Err('pad', (i,)))
            return
        if d['acc'] in self.pads:
            idx, _, _ = self.pads.pop(d['acc'])
            self.errors.append(Err('pad', (idx,), [(i,)]))
            self.tainted.add(d['acc'])
            return
        entry = dict(idx=i, date=d['date'], postings=[])
        self.log.append(entry)
        self.pads[d['acc']] = (i, d['source'], entry)
        self.tainted.discard(d['acc'])
        self.booked.append((i, entry))
    def d_txn(self, i, d):
        r = book_txn(d['date'], d['postings'], self.pos.get, lambda a: self.method.get(a, self.default_method), self.tol, self.quirks)
        if r is None:
            self.errors.append(Err('txn', (i,)))
            return
        out, updates = r
        for k, (p, booked) in enumerate(zip(d['postings'], out)):
            e = self.account_error(p['acc'], (i, k)) or self.currency_error(p['acc'], booked[0]['cur'], (i, k))
            if e:
                self.errors.append(e)
                return
        self.pos.update(updates)
        text = next((d[k] for k in ('payee', 'narration') if d.get(k) is not None), '')
        self.log.append(dict(idx=i, date=d['date'], text=' '.join(text.split()), postings=[(p['acc'], b['units'], b['cur']) for p, booked in zip(d['postings'], out) for b in booked]))
        self.booked.append((i, out))
    def d_balance(self, i, d):
        acc, cur, want = d['acc'], d['cur'], dec(d['units'])
        e = self.account_error(acc, (i,)) or self.currency_error(acc, cur, (i,))
        if e:
            self.errors.append(e)
            return
        if d.get('tolerance') is not None: tol = dec(d['tolerance'])
        elif scale(want) > 0: tol = D(1).scaleb(-scale(want)) * self.mult * 2
        else: tol = ZERO
        margin = want - self.total(acc, cur)
        bad = abs(margin) > tol
        pad = self.pads.pop(acc, None)
        if pad and bad:
            e = self.currency_error(pad[1], cur, (pad[0],))
            if e:
                self.errors.append(e)
                self.add(acc, cur, margin)
                return
        since, before, before_cur = self.seen.get(acc, (0, ZERO, cur))
        self.seen[acc] = (len(self.log), want, cur)
        if pad and not bad:
            self.errors.append(Err('pad', (pad[0],)))
        elif pad:
            pad[2]['postings'] = [(acc, margin, cur), (pad[1], -margin, cur)]
            self.add(acc, cur, margin)
            self.add(pad[1], cur, -margin)
        elif bad:
            run, lines = before if before_cur == cur else ZERO, []
            for t in self.log[since:]:
                for a, u, c in t['postings']:
                    if c == cur and within(acc, a):
                        run += u
                        lines.append((t['date'], a[len(acc):], u, run, t.get('text', '')))
            if len({l[1] for l in lines}) < 2: lines = [l[:1] + ('',) + l[2:] for l in lines]
            self.errors.append(Err('balance', (i,), margin=margin, cur=cur, lines=(run, lines), optional=acc in self.tainted))
            self.add(acc, cur, margin)
        if acc in self.tainted and bad: self.tainted.discard(acc)
        self.booked.append((i, None))

    def canon(self, keep=None):
        """state relevant to the future: accounts' status, holdings, pending pads (positions in the input are not).
        keep: which of the components matter to the errors judged (o: opened, c: closed, h: holdings, p: pads)"""
        st = tuple(sorted((a, tuple(sorted(c or ()))) for a, (_, c) in self.opened.items()))
        f = lambda k, v: v if keep is None or k in keep else ()
        return (f('o', st), f('c', tuple(sorted(self.closed))),
                f('h', tuple((a, tuple((p[0], p[1], p[2].normalize()) for p in ps if p[2])) for a, ps in sorted(self.pos.items()))),
                f('p', (tuple(sorted((a, p[1]) for a, p in self.pads.items())), tuple(sorted(self.tainted)))))

class Any:
    """one of several errors, which one is not specified"""
    def __init__(self, errs): self.errs = errs; self.kind = errs[0].kind; self.optional = False; self.margin = None; self.idx = errs[0].idx; self.related = ()
    def keys(self): return [e.key() for e in self.errs]
    def __repr__(self): return 'one of %s' % self.errs

# ---------------------------------------------------------------------------------------------
# observations

import re
def error_kind(reason):
    r = reason.lower()
    if 'currency incompatible' in r: return 'currency'
    if 'account not open' in r or 'account was closed' in r or 'already opened' in r or 'already closed' in r: return 'account'
    if r.startswith('accumulated'): return 'balance'
    if r.startswith('unused') or 'source account' in r: return 'pad'
    return 'txn'

MARGIN = re.compile(r'accumulated (-?[0-9.]+), error (-?[0-9.]+) (\S+)\s*$')
NUM = re.compile(r'^-?[0-9][0-9.,]*$')
def annotation_lines(text):
    """[(date, rest of account name, units, running total, description)] of the annotation of a failed balance"""
    out = []
    for l in (text or '').split('\n'):
        t = l.split()
        if not t: continue
        acc = t.pop(1) if len(t) > 1 and t[1].startswith(':') else ''
        nums = [D(x.replace(',', '')) if NUM.match(x) else x for x in t[1:3]]
        out.append((t[0], acc) + tuple(nums) + (' '.join(t[3:]),))
    return out

def observed_errors(resp):
    """errors of a response to book with params, or None if it booked; raises KeyError for anything unexpected"""
    if 'result' in resp: return None
    e = resp['error']
    if e['code'] != 3: raise KeyError('unexpected error %s %s' % (e['code'], e.get('message')))
    out = []
    for r in e['data']:
        k = error_kind(r['reason'])
        x = Err(k, [int(v) for v in r['idx']], sorted(tuple(int(v) for v in q) for q in r.get('related') or []))
        if k == 'balance':
            m = MARGIN.search(r['reason'])
            x.lines = (None, annotation_lines(r.get('annotation')))
            if m: x.margin, x.cur, x.lines = D(m.group(2)), m.group(3), (D(m.group(1)), x.lines[1])
        out.append(x)
    return out

def compare_errors(want, got, kinds=None, margins=True, lines=False):
    """None, or what differs between the model's errors and the observed ones (restricted to some kinds)"""
    want = list(want)
    left = list(got)
    for w in want:
        keys = w.keys() if isinstance(w, Any) else [w.key()]
        hit = None
        for g in left:
            if g.key() in keys: hit = g; break
        if hit is None and not isinstance(w, Any) and w.kind == 'account':   # a repeated close may or may not relate
            for g in left:
                if g.kind == 'account' and g.idx == w.idx and not w.related: hit = g; break
        if hit is None:
            if w.optional: continue
            if kinds is None or w.kind in kinds: return 'missing error %r; got %r' % (w, got)
            continue
        left.remove(hit)
        if margins and w.margin is not None and (kinds is None or w.kind in kinds):
            if hit.margin != w.margin or hit.cur != w.cur: return 'margin: expected %r got %r' % (w, hit)
        if lines and w.margin is not None and hit.lines != w.lines: return 'diagnosis: expected %r got %r' % (w, hit)
    for g in left:
        if kinds is None or g.kind in kinds: return 'unexpected error %r; expected %r' % (g, want)
    return None
