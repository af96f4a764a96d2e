"""C16 decimal numbers survive exactly, in every position of file and request; sums are exact."""
import time, itertools
from ..content import *
from ..seqs import *
LEVEL = 'model_checking'
A, X = 'Assets:A', 'Equity:X'
def numbers(maxdigits=28):
    """every digit count and scale, boundary coefficients, both signs"""
    out = []
    for n in range(1, maxdigits + 1):
        cs = {'1' + '0' * (n - 1), '9' * n, ('1234567890' * 3)[:n], '1' + '0' * max(0, n - 2) + ('1' if n > 1 else ''), '5' * n}
        for s in range(0, 29):
            for c in sorted(cs):
                ip, fp = (c[:-s] if s < n else '') if s else c, (c[-s:] if s else '')
                fp = fp.rjust(s, '0')
                if len((ip or '0') + fp) - (0 if ip else 1) > 28: continue
                v = (ip or '0') + ('.' + fp if s else '')
                out.append(v)
    edge = [2 ** k + d for k in (7, 8, 15, 16, 24, 31, 32, 52, 53, 54, 62, 63, 64, 65, 80, 95) for d in (-1, 0, 1)] + [2 ** 96 - 1]
    for e in edge:
        e = str(e)
        if int(e) >= 2 ** 96: continue
        out.append(e)
        for s in (1, 2, 10, len(e) - 1, len(e), 28):
            if s <= 28:
                d = e.rjust(s + 1, '0'); out.append(d[:-s] + '.' + d[-s:])
    zeros = ['0' + ('.' + '0' * s if s else '') for s in range(29)]
    return zeros + [x for v in dict.fromkeys(out) for x in (v, '-' + v)]
def positions(n):
    """directives holding n in every numeric position, and how to find it in an answer"""
    N = Num(n)
    d = '2020-01-01'
    return [dict(dct='price', date=d, cur='STK', price={'per-unit': N, 'cur': 'USD'}, metadata={'kn': {'number': N}, 'ka': {'units': N, 'cur': 'EUR'}}),
            dict(dct='custom', date=d, type='t', values=[{'number': N}, {'units': N, 'cur': 'EUR'}]),
            dict(dct='balance', date=d, acc=A, units=N, cur='USD', tolerance=Num(n.lstrip('-'))),
            dict(dct='txn', date=d, flag='*', postings=[dict(acc=A, units=N, cur='STK', metadata={'kn': {'number': N}}, **{'cost-spec': {'per-unit': N, 'total': N, 'cur': 'USD'}, 'price-spec': {'per-unit': N, 'cur': 'USD'}}),
                                                       dict(acc=A, units=N, cur='STK', **{'price-spec': {'total': N, 'cur': 'USD'}})])]
def custom_split(ds):
    # in a file a number followed by a negative amount is one expression: separate them
    return [dict(d, values=[d['values'][0], {'bool': True}, d['values'][1]]) if d['dct'] == 'custom' else d for d in ds]
def w_file(chunk, r):
    ds = [x for n in chunk for x in custom_split(positions(n))]
    ds = [dict(d, date=day(i)) for i, d in enumerate(ds)]
    # price may not be negative etc: whatever the parser rejects is not an answer; then number by number
    def one(part, numbers_):
        t = document(part)
        path, drop = ledger([('main.beancount', t)])
        out, rc, err = run_pod(path, (request('parser.directives') + '\n').encode())
        drop()
        try: resp = loads(out.decode())
        except ValueError: resp = Dead('exit status %s' % rc, err)
        msg = None
        if isinstance(resp, Dead): msg = 'no answer: %r' % resp
        elif 'result' not in resp: msg = 'rejected: %s' % str(resp['error'])[:500]
        else:
            got = resp['result']['directives']
            for g, d in zip(got, part):
                if normal(g) != normal(d): msg = 'answered %s for %s' % (normal(g), normal(d)); break
            if not msg and len(got) != len(part): msg = 'lost a directive'
        r.add('replayed'); r.add('transitions', len(numbers_))
        if msg: r.violation('file: ' + msg, dict(files=[['main.beancount', t]], lines=[request('parser.directives')]), answer=str(resp)[:1500])
    one(ds, chunk)
    r.add('numbers in files', len(chunk))
    r.outcome(('file', len(chunk)))
    r.sample(dict(file=document(ds)[:800]))
def w_request(chunk, r):
    """the same number in a request comes back in the booked directives"""
    lines, dss = [], []
    for n in chunk:
        N, neg = Num(n), Num(n[1:] if n.startswith('-') else '-' + n)
        p = positions(n)
        ds = [op(A), op(X), p[0], p[1], tx(dict(acc=A, units=N, cur='USD', metadata={'kn': {'number': N}}), dict(acc=X, units=neg, cur='USD')), dict(p[2], date=day(5)),
              tx(post(A, '1', 'STK', **{'cost-spec': {'per-unit': Num(n.lstrip('-')), 'cur': 'EUR'}}), post(X, '-' + n.lstrip('-'), 'EUR')) if Decimal(n) else dict(dct='note', acc=A, comment='c'),
              tx(post(A, '1', 'ABC', **{'price-spec': {'total': Num(n.lstrip('-')), 'cur': 'GBP'}}), post(X, '-' + n.lstrip('-'), 'GBP'))]
        if len(n.partition('.')[2]) > 27:      # a tolerance of half a unit is not a number of 28 decimals any more: no transactions
            ds[4] = dict(dct='note', acc=A, comment='c'); ds[6] = ds[7] = ds[4]; ds[5] = dict(p[2], tolerance=Num(n.lstrip('-')))
        ds = [dict(d, date=day(i)) for i, d in enumerate(ds)]
        dss.append(ds); lines.append(request('book', ds))
    for n, ds, l, resp in zip(chunk, dss, lines, ask(beanfile(''), lines)):
        r.add('replayed'); r.add('transitions'); r.add('numbers in requests')
        r.outcome(('request', 'result' in (resp if isinstance(resp, dict) else {})))
        try:
            got = resp['result']['directives']
            msg = None
            for i in (2, 3, 5):
                if normal(got[i]) != normal(dict(ds[i], idx=i)): msg = 'answered %s for %s' % (normal(got[i]), normal(ds[i]))
            for i in (4, 6, 7):
                if ds[i]['dct'] != 'txn': continue
                a = [(exact(p['units']), p['acc'], normal(p.get('metadata'))) for p in got[i]['postings']]
                b = [(exact(p['units']), p['acc'], normal(p.get('metadata'))) for p in ds[i]['postings']]
                if a != b: msg = 'answered %s for %s' % (a, b)
            if ds[6]['dct'] == 'txn' and exact(got[6]['postings'][0]['cost']['per-unit']) != exact(n.lstrip('-')): msg = 'cost %s for %s' % (got[6]['postings'][0]['cost'], n)
            if ds[7]['dct'] == 'txn' and exact(got[7]['postings'][0]['price']['total']) != exact(n.lstrip('-')): msg = 'total price %s for %s' % (got[7]['postings'][0]['price'], n)
        except (KeyError, TypeError, IndexError) as e: msg = 'unexpected answer (%r) %s' % (e, str(resp)[:700])
        if msg: r.violation('request with %s: %s' % (n, msg), dict(bean='', lines=[l]), answer=str(resp)[:1500])
def w_option(chunk, r):
    """as option values, and their effect"""
    for n in chunk:
        t = 'option "inferred_tolerance_default" "USD:%s"\noption "inferred_tolerance_default" "*:%s"\noption "inferred_tolerance_multiplier" "%s"\n' % (n, n, n)
        a = ask(beanfile(t), [request('parser.options')])[0]
        r.add('replayed'); r.add('transitions'); r.add('numbers in options')
        try:
            o = a['result']
            got = [exact(o['inferred-tolerance-default']['USD']), exact(o['inferred-tolerance-default-fallback']), exact(o['inferred-tolerance-multiplier'])]
            msg = None if got == [exact(n)] * 3 else 'answered %s' % got
        except (KeyError, TypeError) as e: msg = 'unexpected answer %s (%r)' % (str(a)[:400], e)
        if msg: r.violation('option %s: %s' % (n, msg), dict(bean=t, lines=[request('parser.options')]))
def fits(*ds):
    """whether numbers and their sum need at most 28 digits"""
    s = sum(ds)
    e = min([0] + [d.as_tuple().exponent for d in ds])
    return all(len(str(int(abs(x) * Decimal(10) ** -e))) <= 28 for x in list(ds) + [s]) and -e <= 27
def w_sums(chunk, r):
    """totals of postings: asserted exactly with zero tolerance they hold; one unit of the last place off, the margin is exactly that"""
    lines, wants = [], []
    for vals in chunk:
        ds = [op(A), op('Assets:A:B'), op(X)]
        tot = Decimal(0)
        for i, v in enumerate(vals):
            ds.append(tx((A if i % 2 == 0 else 'Assets:A:B', v, 'USD'), (X, v[1:] if v.startswith('-') else '-' + v, 'USD')))
            tot += Decimal(v)
        e = min([0] + [Decimal(v).as_tuple().exponent for v in vals])
        ulp = Decimal(1).scaleb(e)
        ds.append(bal(A, format(tot, 'f'), tol='0'))
        ds.append(bal(X, format(-tot + ulp, 'f'), tol='0'))
        ds.append(bal(A, format(tot + ulp, 'f'), tol=format(ulp, 'f')))
        ds = [dict(d, date=day(i)) for i, d in enumerate(ds)]
        lines.append(request('book', ds)); wants.append((len(ds) - 2, ulp, tot))
    for vals, l, (k, ulp, tot), resp in zip(chunk, lines, wants, ask(beanfile(''), lines)):
        r.add('replayed'); r.add('transitions'); r.add('sums')
        try:
            es = observed_errors(resp)
            msg = None if es is not None and len(es) == 1 and es[0].idx == (k,) and es[0].margin == ulp and es[0].lines[0] == -tot else 'expected a margin of %s against %s at %d; got %s' % (ulp, -tot, k, es)
        except (KeyError, TypeError) as e: msg = 'unexpected answer (%r) %s' % (e, str(resp)[:400])
        if msg: r.violation('sum of %s: %s' % (vals, msg), dict(bean='', lines=[l]), answer=str(resp)[:1500])
def run(tier, seed):
    t = Result()
    deep = tier == 'thorough'
    dl = time.time() + (600 if deep else 240)
    ns = numbers()
    done = fan_out(w_file, ns, 40, t, dl)[1]
    done = fan_out(w_request, ns, 100, t, dl)[1] and done
    pos = [n for n in ns if not n.startswith('-') and len(n.replace('.', '')) <= 29]
    done = fan_out(w_option, pos if deep else pos[::3], 20, t, dl)[1] and done
    base = ['0.1', '0.2', '-0.3', '0.7', '1.15', '100', '-99.99', '0.0000001', '123456789012.345', '-0.005', '33.333333333333', '9007199254740993', '0.30000000000000004', '4503599627370497.5', '1000000000000000000000.01', '-0.01', '2.675']
    sums = [v for n in (1, 2, 3, 4) for v in itertools.product(base, repeat=n) if (n < 4 or deep) and fits(*map(Decimal, v))]
    sums += [(a, b) for a in ns[::17] for b in ns[::13] if fits(Decimal(a), Decimal(b), Decimal(1).scaleb(min(Decimal(a).as_tuple().exponent, Decimal(b).as_tuple().exponent)))]
    sums += [tuple(base[(i * k + j) % len(base)] for i in range(n)) for n in (10, 50) for k in (1, 2, 3, 5) for j in range(len(base)) if fits(*map(Decimal, [base[(i * k + j) % len(base)] for i in range(n)]))]
    done = fan_out(w_sums, sums, 100, t, dl)[1] and done
    return t, dict(states=len(ns), transitions=t.n.get('transitions', 0), traces_validated_against_impl=t.n.get('replayed', 0), exhaustive=done)
