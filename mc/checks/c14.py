"""C14 parser.directives says what the ledger file says."""
import time, itertools, os
from ..content import *
from ..core import *
LEVEL = 'model_checking'
def dated(ds, dates=('2020-01-01',)):
    return [d if 'date' in d else dict(d, date=dates[i % len(dates)]) for i, d in enumerate(ds)]
def judge(resp, want):
    """want: directives in the expected order"""
    if isinstance(resp, Dead): return 'no answer: %r' % resp
    if 'result' not in resp: return 'rejected: %s' % str(resp.get('error'))[:600]
    got = resp['result'].get('directives')
    if not isinstance(got, list): return 'unexpected answer ' + str(resp)[:300]
    for i, (g, w) in enumerate(zip(got, want)):
        g, w = normal(g), normal(w)
        if g != w: return 'directive %d answered as %s, written as %s' % (i, g, w)
    if len(got) != len(want): return '%d directives answered, %d written' % (len(got), len(want))
    return None
def w(chunk, r):
    """cases: (name, [(file name, text)] main first, expected directives)"""
    for name, files, want in chunk:
        path, drop = ledger(files)
        out, rc, err = run_pod(path, (request('parser.directives') + '\n').encode())
        try: resp = loads(out.decode())
        except ValueError: resp = Dead('exit status %s' % rc, err)
        msg = judge(resp, want)
        r.add('files'); r.add('directives', len(want)); r.add('replayed'); r.add('transitions', len(want))
        r.outcome((name,))
        if r.n['files'] % 151 == 1: r.sample(dict(case=name, files=[[a, b[:600]] for a, b in files]))
        if msg: r.violation('%s: %s' % (name, msg), dict(files=[list(f) for f in files], lines=[request('parser.directives')]), answer=str(resp)[:1500])
        drop()

def batches(name, ds, n, styles=STYLES):
    for st in styles:
        for i in range(0, len(ds), n):
            part = [dict(d, date='2020-%02d-%02d' % (1 + j // 28, 1 + j % 28)) if 'date' not in d else d for j, d in enumerate(ds[i:i + n])]
            yield (name, [('main.beancount', document(part, st))], [part[k] for k in file_order(part)])

def cases(deep):
    A = dict(dct='open', acc='Assets:A')
    for k, bodies in kinds():
        bodies = [b for b in bodies if writable(b)]
        yield from batches(k, bodies, 40)
        ex = [merge(b, e) for b in (bodies[:3] if not deep else bodies[:12]) for e in EXTRA_FULL]
        ex += [merge(bodies[0], e) for e in (metadata_each() if k in ('open', 'note', 'custom') or deep else [{'metadata': {'key': m}} for m in META])]
        yield from batches(k + ' with tags, links, metadata', ex, 40)
        yield from batches(k + ' dates', [dict(bodies[0], date=d) for d in DATES + ['2020-12-31', '0001-01-01', '9999-12-31', '2019-02-28', '2000-02-29']], 8)
        for st in STYLES: yield (k + ' alone', [('main.beancount', document([dict(bodies[-1], date='2020-01-01')], st))], [dict(bodies[-1], date='2020-01-01')])
    hs = list(headers())
    t = lambda ps, h={}: dict(dict(dct='txn', flag='*', postings=ps), **h)
    yield from batches('transaction header', [t([], h) for h in hs] + [t([dict(acc='Assets:A')], h) for h in hs], 40)
    yield from batches('transaction with tags, links, metadata', [merge(t(ps, h), e) for h in (hs[0], hs[8]) for ps in ([], [dict(acc='Assets:A')]) for e in EXTRA_FULL] +
                       [merge(t([dict(acc='Assets:A')]), e) for e in metadata_each()], 40)
    ps = list(postings())
    yield from batches('posting', [t([p]) for p in ps], 40, STYLES if deep else STYLES[:5])
    yield from batches('two postings', [t([p, q]) for p, q in zip(ps, ps[len(ps) // 3:] + ps[:len(ps) // 3])], 40)
    rich = [dict(acc='Assets:A', units=Num('3'), cur='STK', **{'cost-spec': {'per-unit': Num('5'), 'cur': 'USD'}, 'price-spec': {'per-unit': Num('7'), 'cur': 'USD'}}), dict(acc='Assets:A')]
    yield from batches('posting flag', [t([dict(p, flag=f)]) for p in rich for f in FLAGS] + [t([dict(rich[0], flag=f), dict(rich[1], flag=g)]) for f in FLAGS for g in FLAGS], 40)
    yield from batches('posting with tags, links, metadata', [t([merge(p, e), merge(q, e2)]) for p, q in itertools.permutations(rich) for e in EXTRA_FULL for e2 in (EXTRA_FULL if deep else EXTRA_FULL[::4] + EXTRA_FULL[-1:])] +
                       [t([merge(rich[i], e), rich[1 - i]]) for e in metadata_each() for i in (0, 1)], 40)
    yield from batches('everything on one transaction', [merge(t([merge(rich[0], e), merge(rich[1], f), rich[0]], hs[8]), g) for e in EXTRA_FULL[1::5] for f in EXTRA_FULL[::7] for g in EXTRA_FULL[2::6]], 20)
    yield from batches('numbers', [t([dict(acc='Assets:A', units=Num(n), cur='STK', **{'cost-spec': {'per-unit': Num(m), 'total': Num(n), 'cur': c}, 'price-spec': {'per-unit': Num(m), 'cur': c}})]) for n in NUMS for m in NUMS for c in CURS], 40)
    for n in (3, 7, 15, 40): yield from batches('%d postings' % n, [t([dict(acc='Assets:A%d' % i, units=Num(str(i)), cur='USD', metadata={'kk': {'number': Num(str(i))}}) for i in range(n)])], 1)
    # order: every sequence of kinds over two dates
    few = [A, dict(dct='close', acc='Assets:A'), dict(dct='balance', acc='Assets:A', units=Num('1'), cur='USD'), t([], hs[0]), dict(dct='pad', acc='Assets:A', source='Equity:X'), dict(dct='note', acc='Assets:A', comment='c')]
    # distinguishable copies
    def mark(d, i): return dict(d, metadata={'kk': {'number': Num(str(i))}})
    letters = [(d, date) for d in few for date in ('2020-01-02', '2020-01-01')]
    for n in (2, 3, 4) if deep else (2, 3):
        for seq in itertools.product(letters, repeat=n):
            ds = [dict(mark(d, i), date=date) for i, (d, date) in enumerate(seq)]
            yield ('order', [('main.beancount', document(ds))], [ds[k] for k in file_order(ds)])
    all_ = [(mark(b[0], i)) for i, (k, b) in enumerate(kinds())] + [mark(t([]), 99)]
    for a, b in itertools.permutations(all_, 2):
        for d1, d2 in (('2020-01-01', '2020-01-01'), ('2020-01-02', '2020-01-01')):
            ds = [dict(a, date=d1), dict(b, date=d2)]
            yield ('order', [('main.beancount', document(ds))], [ds[k] for k in file_order(ds)])
    perms = []
    for q in (list(range(12)), list(range(11, -1, -1))):
        for i in range(12):
            perms.append(q[i:] + q[:i])
            for j in range(i): p = list(q); p[i], p[j] = p[j], p[i]; perms.append(p)
    for perm in perms:
        ds = [dict(mark(all_[k], k), date='2020-01-0%d' % (1 + k % 2)) for k in perm]
        yield ('order of all kinds', [('main.beancount', document(ds))], [ds[k] for k in file_order(ds)])
    yield ('many', [('main.beancount', document([dict(mark(few[i % 6], i), date='2020-01-%02d' % (1 + i * 7 % 28)) for i in range(500)]))], (lambda ds: [ds[k] for k in file_order(ds)])([dict(mark(few[i % 6], i), date='2020-01-%02d' % (1 + i * 7 % 28)) for i in range(500)]))
    # ignored lines and blank lines between any two directives
    fill = ['', '\n', '; c\n', '* heading\n', '   \n', '\t; c\n', ';; a "quote\n', '# x\n', '*** "x" #t\n']
    for f in fill:
        for g in fill:
            for body in ([A, few[3]], [few[3], A], [few[4], few[5]]):
                x, y = [dict(d, date='2020-01-01') for d in body]
                yield ('filling', [('main.beancount', (f if f[:1] not in '*#' else chr(10) + f) + document([x]) + g + document([y]) + f)], [[x, y][k] for k in file_order([x, y])])
    yield ('empty', [('main.beancount', '')], [])
    for f in fill: yield ('empty', [('main.beancount', f if f[:1] not in '*#' else chr(10) + f)], [])      # the parser takes a heading only after a line end
    yield from pushed(deep)
    yield from included(deep)

def pushed(deep):
    """pushtag, poptag, pushmeta, popmeta around directives with and without tags and metadata of their own"""
    D = [dict(dct='commodity', cur='USD'), dict(dct='commodity', cur='USD', tags=['a']), dict(dct='commodity', cur='USD', metadata={'kk': {'string': 'own'}}), dict(dct='txn', flag='*', postings=[dict(acc='Assets:A')], links=['l'])]
    ops = [('pushtag #a', 'T', 'a'), ('pushtag #b', 'T', 'b'), ('poptag #a', 't', 'a'), ('poptag #b', 't', 'b'), ('pushmeta kk: 1', 'M', ('kk', {'number': Num('1')})), ('pushmeta kk: "s"', 'M', ('kk', {'string': 's'})),
           ('pushmeta other: USD', 'M', ('other', {'cur': 'USD'})), ('popmeta kk:', 'm', 'kk'), ('popmeta other:', 'm', 'other')] + [(None, 'D', d) for d in D]
    for n in range(1, (5 if deep else 4) + 1):
        for seq in itertools.product(range(len(ops)), repeat=n):
            if ops[seq[-1]][1] != 'D' and n > 1: continue
            tags, meta, lines, want, ok, i = [], [], [], [], True, 0
            for o in seq:
                t, k, x = ops[o]
                if k == 'T': tags.append(x)
                elif k == 't':
                    if x not in tags: ok = False; break
                    tags.reverse(); tags.remove(x); tags.reverse()
                elif k == 'M': meta.append(x)
                elif k == 'm':
                    if x not in [m[0] for m in meta]: ok = False; break
                    meta.pop(max(i2 for i2, m in enumerate(meta) if m[0] == x))
                else:
                    d = dict(x, date='2020-01-%02d' % (i + 1)); i += 1
                    lines += text(d)
                    e = dict(d)
                    ts = sorted(set(tags) | set(d.get('tags', ())))
                    if ts: e['tags'] = ts
                    m = dict(meta); m.update(d.get('metadata', {}))
                    if m: e['metadata'] = m
                    want.append(e)
                    continue
                lines.append(t)
            if not ok or not want: continue
            closing = ['poptag #' + t for t in reversed(tags)] + ['popmeta %s:' % m[0] for m in reversed(meta)]
            yield ('pushed', [('main.beancount', '\n'.join(lines + closing) + '\n')], want)

def included(deep):
    """each directive exactly once, whatever file it is in"""
    d = lambda i, k=0: [dict(dct='commodity', cur='C%s' % chr(65 + i), date='2020-01-%02d' % (10 + i)), dict(dct='open', acc='Assets:A%d' % i, date='2020-01-15'), dict(dct='txn', flag='*', narration='n%d' % i, postings=[dict(acc='Assets:X')], date='2020-01-%02d' % (20 - i))][k]
    layouts = [('b.beancount',), ('sub/b.beancount',), ('b.beancount', 'c.beancount'), ('sub/b.beancount', 'sub/c.beancount'), ('sub/b.beancount', 'other/b.beancount')]
    for lay in layouts:
        for kinds_ in itertools.product(range(3), repeat=len(lay) + 1):
            for chain in (False, True):
                if chain and len(lay) < 2: continue
                for place in (0, 1, 2):
                    ds = [d(i, k) for i, k in enumerate(kinds_)] + [d(7)]
                    inc = ['include "%s"' % (l if not chain or i == 0 else os.path.relpath(l, os.path.dirname(lay[0]) or '.')) for i, l in enumerate(lay)]
                    main = [text(ds[0]), text(ds[-1])]
                    main.insert(place, inc if not chain else inc[:1])
                    files = [('main.beancount', '\n'.join(l for b in main for l in b) + '\n')]
                    for i, l in enumerate(lay):
                        t = text(ds[i + 1])
                        if chain and i == 0: t = t + inc[1:]
                        files.append((l, '\n'.join(t) + '\n'))
                    # same-day directives of different files: their mutual order is not promised, so all dates of these are made distinct
                    if len({x['date'] for x in ds}) < len(ds): continue
                    yield ('included', files, [ds[k] for k in file_order(ds)])
                    yield ('included twice', [(files[0][0], files[0][1] + inc[0] + '\n')] + files[1:], [ds[k] for k in file_order(ds)])
    for n in (1, 2, 5):
        ds = [d(i) for i in range(n + 1)]
        yield ('glob', [('main.beancount', 'include "sub/*.beancount"\n' + '\n'.join(text(ds[0])) + '\n')] + [('sub/f%d.beancount' % i, '\n'.join(text(ds[i])) + '\n') for i in range(1, n + 1)], ds)
def run(tier, seed):
    t = Result()
    deep = tier == 'thorough'
    deadline = time.time() + (600 if deep else 240)
    _, done = fan_out(w, cases(deep), 8, t, deadline)
    return t, dict(states=t.n.get('directives', 0), transitions=t.n.get('transitions', 0), traces_validated_against_impl=t.n.get('replayed', 0), exhaustive=done)
