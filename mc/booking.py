"""Reference model of booking one transaction: categorising postings by balancing currency, reducing lots, completing
missing numbers, checking the balance. Written from Beancount's booking rules, with plain lists and exact decimals.

book_txn(date, postings, inventory, method, tol) ->
   None when the transaction is in error, else (out, updates):
     out[k]: list of booked postings for input posting k: dict(units, cur, cost, price)
     updates: account -> positions (list of [cur, cost or None, units, cost_total])
inventory(acc) -> positions list or None if the account was never opened.
A cost is (date, cur, per_unit, label, merge).
"""
from decimal import Decimal as D, ROUND_HALF_UP
ZERO = D(0)

def dec(x): return x if isinstance(x, D) else D(str(x))
def scale(d): return max(0, -d.as_tuple().exponent)
def rescale(d, s): return d.quantize(D(1).scaleb(-s), rounding=ROUND_HALF_UP)
def div(a, b):
    """quotient to 28 or so digits (the implementation's decimals are 96 bit)"""
    return a / b

class Failed(Exception): pass

class Tol:
    def __init__(self, mult=None, default=None, quirks=()):
        self.quirks = quirks
        self.mult = D('0.5') if mult is None else D(mult)
        self.default = default or {}
    def residual(self, values, cur):
        """None when values sum to zero within tolerance, else their sum"""
        values = list(values)
        s = sum(values, ZERO)
        scales = [scale(v) for v in values if scale(v)]
        if scales:
            t = D(1).scaleb(-min(scales)) * self.mult
            if 'D14' in self.quirks: t = round(t, 28)
            return s if abs(s) >= t and (s or 'D14' in self.quirks) else None
        t = self.default.get(cur, self.default.get('*'))
        if t is not None: return s if abs(s) > D(t) else None
        return s if s else None

def order(p):
    """sort key of positions: by currency, without cost first, then date, cost currency, per-unit, label"""
    cur, cost = p[0], p[1]
    if cost is None: return (cur, 0)
    d, c, per, label, merge = cost
    return (cur, 1, d, c, per, label is not None, label or '', merge)

def accumulate(positions, units, cur, cost, total, method, quirks=()):
    if 'D23' in quirks: return accumulate_unsorted(positions, units, cur, cost, total, method)
    if cost is None or method != 'none':
        for p in positions:
            if p[0] == cur and p[1] == cost:
                p[2] += units
                return
    p = [cur, cost, units, total]
    positions.append(p)
    if method != 'none': positions.sort(key=order)
    else: positions.sort(key=lambda p: (p[0], p[1] is not None))   # stable: appended after those of its currency

def accumulate_unsorted(positions, units, cur, cost, total, method):
    """as the implementation does it: binary search for a place, in a list which D23 may have left out of order"""
    new = order((cur, cost))
    key = order if method != 'none' else lambda p: (p[0], p[1] is not None)
    # without lots being merged, those with cost are appended after others of their currency
    after = cost is not None and method == 'none'
    if after: new = (cur, True)
    elif method == 'none': new = (cur, False)
    base, size = 0, len(positions)
    if size == 0: positions.append([cur, cost, units, total]); return
    while size > 1:
        half = size // 2
        k = key(positions[base + half])
        if k < new or k == new: base += half
        size -= half
    k = key(positions[base])
    if k == new and not after: positions[base][2] += units
    else: positions.insert(base + (k < new or k == new and after), [cur, cost, units, total])

def num(spec, k):
    v = spec.get(k) if spec else None
    return None if v is None else dec(v)

def sane(us, cs): return cs if us == 0 else us

def book_txn(date, postings, inventory, method, tol, quirks=()):
    """quirks: behaviours known to be wrong to model (see known_findings.json):
    D12: a total cost or price is weighed as written, without the sign of the units
    D13: a missing cost or price number which would have to be negative is made positive, and the transaction doesn't balance
    D22: of a compound cost the total part alone is weighed
    D23: a reduction which takes lots in order gives all that the account holds the currency it reduces
    D14 (in Tol): a tolerance below the 28th decimal place counts as zero, and nothing is below that, not even zero"""
    try: return _book(date, postings, inventory, method, tol, quirks)
    except Failed: return None

def _book(date, postings, inventory, method, tol, quirks):
    n = len(postings)
    groups, autos, unknown = {}, {}, []
    ann = []
    for k, p in enumerate(postings):
        cur, cs, ps = p.get('cur'), p.get('cost-spec'), p.get('price-spec')
        cc, pc = (cs or {}).get('cur'), (ps or {}).get('cur')
        a = dict(k=k, p=p, cur=cur, cs=cs, ps=ps, cost_cur=cc or pc, price_cur=pc or cc,
                 units=None if p.get('units') is None else dec(p['units']))
        ann.append(a)
        bucket = a['cost_cur'] or a['price_cur'] or (cur if cs is None and ps is None else None)
        if a['units'] is None and cur is None:
            if bucket in autos: raise Failed('ambiguous auto-post')
            autos[bucket] = a
        elif bucket: groups.setdefault(bucket, []).append(a)
        else: unknown.append(a)
    if len(unknown) == 1 and len(groups) == 1:
        a = unknown.pop()
        only = next(iter(groups))
        if a['cur'] is None and a['cs'] is None and a['ps'] is None: a['cur'] = only
        a['cost_cur'] = a['cost_cur'] or only
        a['price_cur'] = a['price_cur'] or only
        groups[only].append(a)
    for a in unknown:
        pos = inventory(a['p']['acc']) or []
        b = None
        if a['cs'] is not None and a['cost_cur'] is None:
            cs = {p[1][1] for p in pos if p[1]}
            if len(cs) == 1: b = next(iter(cs))
        if b is None:
            cs = {p[0] for p in pos}
            if len(cs) == 1: b = next(iter(cs))
        if b is None: raise Failed('cannot infer anything')
        groups.setdefault(b, []).append(a)
    if None in autos:
        a = autos.pop(None)
        if autos: raise Failed('ambiguous auto-post')
        if len(groups) != 1: raise Failed('auto-post with %d currencies' % len(groups))
        next(iter(groups.values())).append(a)
    else:
        for b, a in autos.items(): groups.setdefault(b, []).append(a)
    out, updates, bad = [None] * n, {}, False
    def current(acc):
        if acc in updates: return updates[acc]
        p = inventory(acc)
        return None if p is None else [list(x) for x in p]
    for gcur, group in groups.items():
        weights = []
        reduced = {}
        for a in group:
            acc = a['p']['acc']
            r = reduce_lots(a, current(acc), method(acc), tol, quirks)
            if r:
                booked, positions = r
                updates[acc] = positions
                reduced[a['k']] = booked
                weights.append(sum((rescale(b['units'] * b['cost'][2], sane(scale(b['units']), scale(b['cost'][2]))) for b in booked), ZERO))
            else:
                weights.append(weight(a, quirks))
        missing = [i for i, w in enumerate(weights) if w is None]
        if len(missing) > 1: raise Failed('too many missing numbers')
        res = tol.residual([w for w in weights if w is not None], gcur)
        if missing: weights[missing[0]] = -(res or ZERO)
        elif res is not None: bad = True
        for a, w in zip(group, weights):
            k = a['k']
            if k in reduced: out[k] = reduced[k]
            else: out[k] = [complete(date, gcur, a, w, quirks)]
        for a in group:
            if a['k'] in reduced: continue
            acc, b = a['p']['acc'], out[a['k']][0]
            pos = current(acc)
            if pos is None: pos = []
            accumulate(pos, b['units'], b['cur'], b['cost'], b['total'] if b['cost'] else None, method(acc), quirks)
            updates[acc] = pos
    if bad: raise Failed('unbalanced')
    return out, updates

def sgn(total, units, quirks):
    return -total if 'D12' not in quirks and units is not None and units < 0 else total

def numbers(a, quirks):
    """total and per-unit number; those of a compound cost (per-unit # total) are added up"""
    cs, u = a['cs'], a['units']
    spec = cs if cs is not None else a['ps']
    t, per = num(spec, 'total'), num(spec, 'per-unit')
    if cs is not None and t is not None and per is not None and u is not None and 'D22' not in quirks: return abs(u) * per + t, None
    return t, per

def weight(a, quirks):
    u = a['units']
    spec = a['cs'] if a['cs'] is not None else a['ps']
    if spec is None: return u
    t, per = numbers(a, quirks)
    if t is not None: return sgn(t, u, quirks)
    if per is not None and u is not None: return rescale(per * u, sane(scale(u), scale(per)))
    return None

def complete(date, gcur, a, w, quirks):
    u, cs, ps = a['units'], a['cs'], a['ps']
    if cs is None and ps is None: return dict(units=w, cur=gcur, cost=None, price=None)
    spec = cs if cs is not None else ps
    t, per = numbers(a, quirks)
    if per is not None:
        if u is None:
            if per == 0: raise Failed('cannot infer units')
            u = rescale(div(w, per), scale(w))
        total = u * per if t is None else t
    else:
        if u is None: raise Failed('cannot infer units')
        total = w if t is None else t
        if u == 0: raise Failed('cannot infer cost or price')
        if t is None and total * u < 0 and 'D13' not in quirks: raise Failed('negative cost or price')
        per = abs(div(total, u))
    if a['cur'] is None: raise Failed('cannot infer currency')
    if cs is not None:
        if a['cost_cur'] is None: raise Failed('cannot infer cost currency')
        cost = (cs.get('date') or date, a['cost_cur'], per, cs.get('label'), bool(cs.get('merge')))
        return dict(units=u, cur=a['cur'], cost=cost, total=total, price=None)
    if a['price_cur'] is None: raise Failed('cannot infer price currency')
    return dict(units=u, cur=a['cur'], cost=None, price=(per, total, a['price_cur']))

def reduce_lots(a, positions, method, tol, quirks=()):
    """None if the posting is not a reduction, else (booked postings, new positions)"""
    u, cur, cs = a['units'], a['cur'], a['cs']
    if method == 'none' or u is None or cur is None or cs is None or positions is None: return None
    mine = [p for p in positions if p[0] == cur]
    if not any((u > 0 > p[2]) or (u < 0 < p[2]) for p in mine):
        if u < 0 and not mine: raise Failed('no position matches')
        return None
    per = num(cs, 'per-unit')
    match = [p for p in mine if p[1] is not None
             and (cs.get('date') is None or cs['date'] == p[1][0])
             and (cs.get('cur') is None or cs['cur'] == p[1][1])
             and (per is None or per == p[1][2])
             and (cs.get('label') is None or cs['label'] == p[1][3])]
    if not match: raise Failed('no position matches')
    def one(p):
        if abs(u) > abs(p[2]): raise Failed('not enough lots')
        take = [(p, u)]
        return take
    def unique():
        if len({p[1][1] for p in match}) != 1: raise Failed('multiple cost currencies')
    in_order = False
    if len(match) == 1: take = one(match[0])
    elif tol.residual([p[2] for p in match] + [u], cur) is None:
        unique()
        take = [(p, -p[2]) for p in match]
    elif method in ('fifo', 'lifo', 'hifo'):
        unique()
        in_order = True
        o = list(match)
        if method == 'lifo': o.reverse()
        if method == 'hifo': o.sort(key=lambda p: -p[1][2])
        take, left = [], u
        for p in o:
            c = left if abs(left) <= abs(p[2]) else -p[2]
            take.append((p, c)); left -= c
            if not left: break
        if left: raise Failed('not enough lots')
    elif method == 'strict-with-size':
        o = sorted([p for p in match if p[2] == -u], key=lambda p: p[1][0])
        if not o: raise Failed('ambiguous')
        take = one(o[0])
    else: raise Failed('ambiguous')
    booked = [dict(units=c, cur=cur, cost=p[1], total=p[3], price=None) for p, c in take]
    taken = {id(p): c for p, c in take}
    ordered = 'D23' in quirks and in_order
    new = []
    for p in positions:
        q = [cur if ordered else p[0], p[1], p[2] + taken.get(id(p), ZERO), p[3]]
        if q[2] or id(p) not in taken and not ordered: new.append(q)
    return booked, new
