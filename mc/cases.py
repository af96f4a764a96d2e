"""Exhaustive enumeration of single cases (a list of directives under given options), judged by the reference model."""
from .seqs import *

class Case:
    """ds: directives (undated ones are dated by position)"""
    __slots__ = ('ds', 'bean', 'mult', 'tol_default', 'method', 'name')
    def __init__(self, ds, name='', mult=None, tol_default=None, method=None):
        self.ds = [d if 'date' in d else dict(d, date=day(i)) for i, d in enumerate(ds)]
        self.name, self.mult, self.tol_default, self.method = name, mult, tol_default, method
        self.bean = options(mult, tol_default, method)

def options(mult=None, tol_default=None, method=None):
    o = ''
    if mult is not None: o += 'option "inferred_tolerance_multiplier" "%s"\n' % mult
    for c, v in (tol_default or {}).items(): o += 'option "inferred_tolerance_default" "%s:%s"\n' % (c, v)
    if method is not None: o += 'option "booking_method" "%s"\n' % method.upper().replace('-', '_')
    return o

def zero_sums(ds, resp, tol):
    """every booked transaction of an answer balances, judged from the answer alone (the rounding of each weight allowed for)"""
    from .booking import rescale, sane, scale
    for x in resp['result']['directives']:
        if x['dct'] != 'txn': continue
        by = {}
        for p in x['postings']:
            u, c, pr = p['units'], p.get('cost'), p.get('price')
            if c is not None: cur, per = c['cur'], c['per-unit']
            elif pr is not None: cur, per = pr['cur'], pr['per-unit']
            else: cur, per = p['cur'], None
            if per is None: w, slack = u, Decimal(0)
            else:
                w = u * per; s = sane(scale(u), scale(per)); slack = Decimal(1).scaleb(-s)
                t = (c if c is not None else pr).get('total')
                if t is not None:      # as given: the per-unit number is a quotient of it
                    if abs(abs(t) - abs(w)) > slack and c is None: return 'total %s of %s units at %s' % (t, u, per)
            by.setdefault(cur, []).append((w, slack))
        for cur, ws in by.items():
            total = sum((w for w, _ in ws), Decimal(0)); slack = sum((s for _, s in ws), Decimal(0))
            # coarsest imaginable tolerance
            t = max([tol.mult, Decimal(tol.default.get(cur, tol.default.get('*', 0)))])
            if abs(total) > t + slack: return 'transaction %d has %s %s left over' % (x['idx'], total, cur)
    return None

def w_cases(chunk, r, known=None, invariant=False):
    """known(case): [(key of a finding, Ledger arguments of the model of that wrong behaviour)]"""
    by = {}
    for c in chunk: by.setdefault(c.bean, []).append(c)
    for bean, cs in by.items():
        lines = [request('book', c.ds) for c in cs]
        for c, l, resp in zip(cs, lines, ask(beanfile(bean), lines)):
            def judge(skip=False, **kw):
                led = Ledger(c.mult, c.tol_default, c.method, **kw).run(c.ds)
                if isinstance(resp, Dead): return 'no answer: %r' % resp, led
                try:
                    got = observed_errors(resp)
                    if got is None and led.errors: return 'booked, but expected %r' % led.errors, led
                    if got is None: return booked_transactions(c.ds, led, resp) or (zero_sums(c.ds, resp, led.tol) if invariant and not skip else None), led
                    return compare_errors(led.errors, got), led
                except (KeyError, TypeError, IndexError) as e: return 'unexpected answer %s (%r)' % (str(resp)[:300], e), led
            msg, led = judge()
            r.add('replayed'); r.add('transitions')
            r.outcome((c.name, bool(led.errors)))
            r.add('accepted' if not led.errors else 'rejected')
            if r.n['replayed'] % 499 == 1: r.sample(dict(case=c.name, bean=bean, request=l[:1500], errors=[repr(e) for e in led.errors]))
            if msg:
                key = None
                if known:
                    key = next((k for k, kw in known(c) if not judge(skip=True, **kw)[0]), None)
                r.violation('%s: %s' % (c.name, msg), dict(bean=bean, lines=[l]), key=key, answer=str(resp)[:2000])

def with_method(spec, **kw): return {'cost-spec' if spec == 'cost' else 'price-spec': kw}
def at(kind, per=None, total=None, cur=None, **kw):
    """cost-spec or price-spec"""
    d = dict(kw)
    if per is not None: d['per-unit'] = Num(per)
    if total is not None: d['total'] = Num(total)
    if cur is not None: d['cur'] = cur
    return {kind + '-spec': d}
