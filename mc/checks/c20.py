"""C20 options and plugins: every option at several values, every pair, plugin sequences; their effect on booking."""
import time, itertools
from ..cases import *
LEVEL = 'model_checking'
DEFAULTS = {'name-assets': 'Assets', 'name-liabilities': 'Liabilities', 'name-equity': 'Equity', 'name-income': 'Income', 'name-expenses': 'Expenses'}
SUBS = ['Opening-Balances', 'A', 'Earnings:Previous:2020-X', '1:2', 'Vermögen']
D_ = Decimal
VALUES = {      # option -> [(value written, value answered)]
    'title': [(s, s) for s in ('My Ledger', '', 'é☃𝄞', 'a "quoted" \\ name', 'two\nlines', '  ', 'true', '1.50', 'null')],
    'inferred_tolerance_multiplier': [(s, D_(s)) for s in ('0.5', '1', '1.2', '0', '0.50', '10.000', '0.123456789', '2')],
    'infer_tolerance_from_cost': [('TRUE', True), ('FALSE', False), ('true', True), ('false', False), ('True', True), ('fAlSe', False)],
    'render_commas': [('TRUE', True), ('FALSE', False), ('true', True), ('false', False), ('1', True), ('0', False)],
    'conversion_currency': [(s, s) for s in ('NOTHING', 'USD', "A.B'C-D_9", 'VERYLONGCURRENCYNAME')],
    'booking_method': [(s, s.lower().replace('_', '-')) for s in ('STRICT', 'STRICT_WITH_SIZE', 'NONE', 'AVERAGE', 'FIFO', 'LIFO', 'HIFO')],
    'plugin_processing_mode': [('DEFAULT', 'default'), ('RAW', 'raw')],
    'name_assets': [(s, s) for s in ('Vermögen', 'A', 'Activa', 'Assets', 'Income2')],
    'name_liabilities': [(s, s) for s in ('Verbindlichkeiten', 'L', 'Passiva-1')],
    'name_equity': [(s, s) for s in ('Eigenkapital', 'E', 'Kapital')],
    'name_income': [(s, s) for s in ('Einkommen', 'I', 'Inc')],
    'name_expenses': [(s, s) for s in ('Ausgaben', 'X', 'Exp-9')],
    'long_string_maxlines': [('64', None), ('1', None), ('0', None)],
}
for o in ('previous_balances', 'previous_earnings', 'previous_conversions', 'current_earnings', 'current_conversions', 'unrealized_gains'): VALUES['account_' + o] = [(s, s) for s in SUBS]
VALUES['account_rounding'] = [(s, s) for s in SUBS]
MANY = {'inferred_tolerance_default': ['USD:0.005', 'EUR:1', 'GBP:0', '*:0.50', 'STK:0.0000001', 'JPY:1000', "A.B'C:2", '*:0', '*:0.00', 'USD:1000000', 'USD:0.0', '*:1234567.0000001'],
        'operating_currency': ['USD', 'EUR', "A.B'C", 'STK'],
        'documents': ['docs', '/abs/docs', '../up', 'docs/é ☃', 'a/b/c', '.']}
def quoted(s): return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'
KEBAB = lambda s: s.replace('_', '-')
def apart(vs):
    """which of two defaults for one currency counts is not specified"""
    return ':' not in vs[0] or len({v.split(':')[0] for v in vs}) == len(vs)
def sets():
    """ways of setting one option: (option, [written values])"""
    for o, vs in VALUES.items():
        for v in vs: yield o, [v[0]]
    for o, vs in MANY.items():
        for v in vs: yield o, [v]
        for c in itertools.permutations(vs, 2):
            if apart(c): yield o, list(c)
        vs = [v for i, v in enumerate(vs) if apart(vs[:i] + [v])] if o != 'inferred_tolerance_default' else vs[:7]
        yield o, vs; yield o, vs[::-1]
def expected(opts, base):
    """the answer to these options, [(option, [values])] in one directory"""
    r = dict(DEFAULTS)
    for o, vs in opts:
        if o in VALUES:
            a = dict(VALUES[o])[vs[0]]
            if a is not None: r[KEBAB(o)] = a
        elif o == 'inferred_tolerance_default':
            m = {}
            for v in vs:
                c, n = v.split(':')
                if c == '*': r['inferred-tolerance-default-fallback'] = D_(n)
                else: m[c] = D_(n)
            if m: r.setdefault('inferred-tolerance-default', {}).update(m)
        elif o == 'operating_currency': r.setdefault('operating-currency', set()).update(vs)
        else: r.setdefault('documents', set()).update(v if v.startswith('/') else base + '/' + v for v in vs)
    return r
def same(got, want):
    if not isinstance(got, dict) or not isinstance(want, dict): return False
    got = {k: v for k, v in got.items() if k not in ('long-string-maxlines',) and v is not None}       # null for an option not set is the same as nothing
    if set(got) != set(want): return False
    for k, v in want.items():
        g = got[k]
        if isinstance(v, set):
            if not isinstance(g, list) or len(g) != len(v) or set(g) != v: return False
        elif isinstance(v, dict):
            if not isinstance(g, dict) or {a: str(b) for a, b in g.items()} != {a: str(b) for a, b in v.items()}: return False
        elif type(g) is not type(v) or str(g) != str(v): return False
    return True
def write(opts): return ''.join('option %s %s\n' % (quoted(o), quoted(v)) for o, vs in opts for v in vs)
def plug(ps): return ''.join('plugin %s%s\n' % (quoted(n), '' if c is None else ' ' + quoted(c)) for n, c in ps)
def w_answers(chunk, r):
    """(name, [(file, text)], options by file [(dir, opts)], plugins in order)"""
    for name, files, opts, plugins in chunk:
        path, drop = ledger(files)
        lines = [request('parser.options'), request('parser.plugins')]
        a, b = ask(path, lines)
        want = dict(DEFAULTS)
        for d, os_ in opts:
            for k, v in expected(os_, os.path.join(os.path.dirname(path), d).rstrip('/')).items():
                if k in DEFAULTS: want[k] = v if v != DEFAULTS[k] else want[k]
                elif isinstance(v, (set, dict)): want.setdefault(k, type(v)()).update(v)
                else: want[k] = v
        msg = None
        wantp = [dict(name=n, config=c) for n, c in plugins]
        if isinstance(a, Dead) or not same(a.get('result'), want): msg = 'options answered %s, expected %s' % (str(a)[:1500], want)
        elif isinstance(b, Dead) or [dict(dict(config=None), **x) for x in b.get('result') or ()] != wantp or not isinstance(b.get('result'), list): msg = 'plugins answered %s, expected %s' % (str(b)[:1500], wantp)
        drop()
        r.add('ledgers'); r.add('transitions', 2); r.outcome((name, len(want), len(wantp)))
        if r.n['ledgers'] % 199 == 1: r.sample(dict(case=name, files=[list(f) for f in files], options={k: str(v) for k, v in want.items()}, plugins=wantp))
        if msg: r.violation('%s: %s' % (name, msg), dict(files=[list(f) for f in files], lines=lines))
ALL = [(o, [vs[1][0]]) for o, vs in VALUES.items()] + [(o, vs[:3]) for o, vs in MANY.items()]
def answers(deep):
    one = lambda name, opts, plugins=(), extra='': (name, [('main.beancount', write(opts) + plug(plugins) + extra)], [('', opts)], list(plugins))
    yield one('none', [])
    yield ('empty', [('main.beancount', '')], [], [])
    ss = list(sets())
    for s in ss: yield one('one option', [s])
    few = {}
    for s in ss: few.setdefault((s[0], len(s[1]) > 1), s)
    for s in (ss if deep else few.values()):
        for u in few.values():
            if u[0] == s[0]: continue
            if s[0].startswith('name_') and u[0].startswith('name_') and s[1] == u[1]: continue
            yield one('two options', [s, u])
            if deep: yield one('two options', [u, s], [('p', None)])
    for n in (9, 17, 33, 65, 300):
        for o, vs in (('inferred_tolerance_default', ['C%s%s:0.%d' % (chr(65 + i // 26), chr(65 + i % 26), i + 1) for i in range(n)]), ('operating_currency', ['C%s%s' % (chr(65 + i // 26), chr(65 + i % 26)) for i in range(n)]), ('documents', ['d%d/x' % (i * 7 % n) for i in range(n)])):
            yield one('many values', [(o, vs)]); yield one('many values', [(o, vs[::-1])], [('p%d' % i, None) for i in range(n)])
    yield one('all', ALL); yield one('all reversed', ALL[::-1])
    for i in range(len(ALL)): yield one('all but one', ALL[:i] + ALL[i + 1:], [('p', 'c')])
    for k in range(len(ALL)): yield one('rotated', ALL[k:] + ALL[:k])
    # with directives around, at the end, in included files
    for s in few.values():
        if not s[0].startswith('name_'):
            yield ('after directives', [('main.beancount', '2020-01-01 open Assets:A\n2020-01-02 custom "option" "title" "no"\n' + write([s]) + '2020-01-03 close Assets:A\n')], [('', [s])], [])
        yield ('included', [('main.beancount', 'include "s/sub.beancount"\n'), ('s/sub.beancount', write([s]))], [('s', [s])], [])
        for u in list(few.values())[::5] if not deep else few.values():
            if u[0] != s[0]: yield ('main and included', [('main.beancount', write([s]) + 'include "s/sub.beancount"\n'), ('s/sub.beancount', write([u]))], [('', [s]), ('s', [u])], [])
    yield ('documents in two files', [('main.beancount', write([('documents', ['docs'])]) + 'include "s/sub.beancount"\n'), ('s/sub.beancount', write([('documents', ['docs', 'x'])]))], [('', [('documents', ['docs'])]), ('s', [('documents', ['docs', 'x'])])], [])
    for ta, tb in itertools.permutations(MANY['inferred_tolerance_default'], 2):
        o = 'inferred_tolerance_default'
        if not apart((ta, tb)): continue
        yield ('in two files', [('main.beancount', write([(o, [ta])]) + 'include "s/sub.beancount"\n'), ('s/sub.beancount', write([(o, [tb])]))], [('', [(o, [ta])]), ('s', [(o, [tb])])], [])
    # plugins
    ps = [('a', None), ('a', 'conf'), ('b.c:d', ''), ('', None), ('limabean.plugins.x', '{:k "v" \\ é☃}'), ('b', 'two\nlines\t'), ('B é', 'null'), ('z', ' ')]
    for k in (1, 2, 3):
        for c in itertools.product(ps, repeat=k): yield one('plugins', [], c)
    for c in itertools.product(ps[:4], repeat=4): yield one('plugins', [], c)
    for c in itertools.product(ps[:5], repeat=2):
        for m in ('DEFAULT', 'RAW'): yield one('plugins by mode', [('plugin_processing_mode', [m])], c)
        yield one('plugins among directives', [], c, '2020-01-02 custom "plugin" "no"\n; plugin "no"\n')
        yield ('plugins included', [('main.beancount', 'include "sub.beancount"\n'), ('sub.beancount', plug(c))], [], list(c))
    yield one('many plugins', [], [('p%d' % (i * 7 % 50), 'c%d' % i if i % 3 else None) for i in range(100)])
# effects ------------------------------------------------------------------------------------------
A, B, X = 'Assets:A', 'Assets:B', 'Equity:X'
def probes():
    """histories that tell the booking methods and tolerances apart, with explicit dates (ascending)"""
    lot = lambda u, c, d=None: post(A, u, 'STK', **at('cost', per=c, cur='EUR', **(dict(date=d) if d else {})))
    opens = [op(A), op(B), op(X)]
    buys = [tx(lot('1', '5'), (X, '-5', 'EUR')), tx(lot('1', '9'), (X, '-9', 'EUR')), tx(lot('1', '7'), (X, '-7', 'EUR'))]
    sell = lambda u, w: tx(post(A, u, 'STK', **{'cost-spec': {}}), post(X))
    for u in ('-1', '-2', '-3', '-4', '1'): yield 'lots', opens + buys + [sell(u, None)]
    yield 'sized', opens + [tx(lot('1', '5'), (X, '-5', 'EUR')), tx(lot('2', '9'), (X, '-18', 'EUR')), sell('-2', None)]
    yield 'own method', [op(A, booking='lifo'), op(B), op(X)] + buys + [sell('-1', None)]
    yield 'own method', [op(A, booking='fifo'), op(B), op(X)] + buys + [sell('-1', None)]
    for c in ('USD', 'EUR', 'GBP'):
        for d in ('0', '0.004', '0.005', '0.006', '0.01', '0.012', '0.02', '0.5', '1', '1.5', '2', '1000', '1001'):
            yield 'residual', opens + [tx((A, '1.00', c), (X, format(-1 - D_(d), 'f'), c))]
            if '.' not in d: yield 'residual', opens + [tx((A, '1', c), (X, str(-1 - int(d)), c))]
            yield 'assertion', opens + [mv(A, X, '1.00', c), bal(A, format(D_('1.00') + D_(d), 'f'), c)]
            if '.' in d: yield 'assertion', opens + [mv(A, X, '1', c), bal(A, str(1 + D_(d).quantize(D_('0.1'))), c)]
EFFECTS = [[], [('booking_method', ['STRICT'])], [('booking_method', ['STRICT_WITH_SIZE'])], [('booking_method', ['NONE'])], [('booking_method', ['FIFO'])], [('booking_method', ['LIFO'])], [('booking_method', ['HIFO'])], [('booking_method', ['AVERAGE'])],
           [('inferred_tolerance_multiplier', ['1'])], [('inferred_tolerance_multiplier', ['1.2'])], [('inferred_tolerance_multiplier', ['0.1'])],
           [('inferred_tolerance_default', ['USD:1'])], [('inferred_tolerance_default', ['*:1'])], [('inferred_tolerance_default', ['*:0'])], [('inferred_tolerance_default', ['USD:0'])], [('inferred_tolerance_default', ['USD:0', '*:1'])], [('inferred_tolerance_default', ['*:0', 'USD:1'])], [('inferred_tolerance_multiplier', ['2']), ('inferred_tolerance_default', ['*:0'])], [('inferred_tolerance_default', ['EUR:0.5', 'USD:1.5', '*:1000'])],
           [('inferred_tolerance_multiplier', ['1.2']), ('inferred_tolerance_default', ['USD:1', '*:2']), ('booking_method', ['HIFO'])]]
def settings(opts):
    o = {}
    for k, vs in opts: o.setdefault(k, []).extend(vs)
    m = o.get('inferred_tolerance_multiplier', [None])[0]
    t = dict(v.split(':') for v in o.get('inferred_tolerance_default', ()))
    b = o.get('booking_method', [None])[0]
    return m, t or None, b and b.lower().replace('_', '-')
def bean(d):
    """one directive of the probes in beancount syntax"""
    def amt(p, k=None): return '' if p is None else p
    if d['dct'] == 'open': return '%s open %s%s' % (d['date'], d['acc'], ' "%s"' % d['booking'].upper() if 'booking' in d else '')
    if d['dct'] == 'balance': return '%s balance %s %s %s' % (d['date'], d['acc'], d['units'], d['cur'])
    s = '%s *' % d['date']
    for p in d['postings']:
        s += '\n  ' + p['acc']
        if 'units' in p: s += ' %s %s' % (p['units'], p['cur'])
        c = p.get('cost-spec')
        if c is not None: s += ' {%s}' % ('%s %s' % (c['per-unit'], c['cur']) if c else '')
    return s
def w_effects(chunk, r):
    by = {}
    for how, opts, name, ds in chunk: by.setdefault((how, json.dumps(opts)), []).append((name, ds))
    for (how, o), items in by.items():
        opts = json.loads(o)
        ds_ = [[dict(d, date=day(i)) for i, d in enumerate(ds)] for _, ds in items]
        if how == 'params':
            lines = [request('book', d) for d in ds_]
            files = [write(opts)] * len(items)
            answers_ = ask(beanfile(write(opts)), lines)
        else:
            files = [write(opts) + '\n'.join(map(bean, d)) + '\n' for d in ds_]
            if how == 'options last': files = ['\n'.join(map(bean, d)) + '\n' + write(opts) for d in ds_]
            lines, answers_ = [request('book')] * len(items), []
            for f in files:
                p, drop = ledger([('main.beancount', f)]); answers_.append(ask(p, [request('book')])[0]); drop()
        for (name, _), ds, f, l, resp in zip(items, ds_, files, lines, answers_):
            m, t, b = settings(opts)
            led = Ledger(m, t, b).run(ds)
            msg = None
            r.add('booked'); r.add('transitions'); r.outcome((how, name, bool(led.errors)))
            if isinstance(resp, Dead): msg = 'no answer: %r' % resp
            else:
                try:
                    if 'result' in resp: msg = 'booked, but expected %r' % led.errors if led.errors else booked_transactions(ds, led, resp)
                    elif not led.errors: msg = 'rejected, but expected success: %s' % str(resp)[:600]
                    elif how == 'params':
                        if {tuple(map(int, e['idx'])) for e in resp['error']['data']} != {e.idx for e in led.errors}: msg = 'errors %s, expected %r' % (str(resp)[:600], led.errors)
                    elif len(resp['error']['data']) != len(led.errors): msg = 'errors %s, expected %r' % (str(resp)[:600], led.errors)
                except (KeyError, TypeError, IndexError) as e: msg = 'unexpected answer %s (%r)' % (str(resp)[:600], e)
            if r.n['booked'] % 997 == 1: r.sample(dict(case=name, how=how, options=opts, request=l[:1000], errors=[repr(e) for e in led.errors]))
            if msg: r.violation('%s with options %s, directives from %s: %s' % (name, opts, how, msg), dict(bean=f, lines=[l]))
def effects(deep):
    ps = list(probes())
    other = [s for s in sets() if len(s[1]) == 1 and s[0] not in ('booking_method', 'inferred_tolerance_multiplier', 'inferred_tolerance_default') and not s[0].startswith('name_')]
    seen, quiet = set(), []
    for s in other:
        if s[0] not in seen or deep: seen.add(s[0]); quiet.append(s)
    for e in EFFECTS:
        for n, d in ps:
            yield 'params', e, n, d
            yield 'file', e, n, d
    for s in quiet:
        for n, d in ps[::1 if deep else 4]: yield 'params', [s], n, d
        for e in EFFECTS[4::3]:
            for n, d in ps[:8]: yield 'params', [s] + e, n, d
        yield 'file', [s], *ps[0]
    if deep:
        for e in itertools.product(EFFECTS[:8], EFFECTS[8:]):
            if {o for o, _ in e[0]} & {o for o, _ in e[1]}: continue
            for n, d in ps: yield 'params', e[0] + e[1], n, d
    for e in EFFECTS[1:]:
        for n, d in ps[:8] + ps[8::9]: yield 'options last', e, n, d
def run(tier, seed):
    t = Result()
    deep = tier == 'thorough'
    end = time.time() + (700 if deep else 240)
    _, d1 = fan_out(w_answers, answers(True), 20, t, end)
    _, d2 = fan_out(w_effects, effects(True), 60, t, end)
    return t, dict(states=t.n.get('ledgers', 0) + t.n.get('booked', 0), transitions=t.n.get('transitions', 0), traces_validated_against_impl=t.n.get('ledgers', 0) + t.n.get('booked', 0), exhaustive=d1 and d2)
