"""C21 ledgers that do not parse or cannot be read: every method answers errors, the same ones, and nothing else."""
import time, itertools, re
from ..content import *
from ..core import *
LEVEL = 'model_checking'
# what is wrong, and the text the report's span denotes (None: not specified)
BAD = [('2020-01-01 opn Assets:A', 'opn'), ('2020-13-01 open Assets:A', '2020-13-01'), ('2020-02-30 open Assets:A', '2020-02-30'), ('2020-01-01 open Asset:A', 'Asset:A'), ('2020-01-01 open assets:A', 'assets'),
       ('2020-01-01 open Assets:A usd', 'usd'), ('2020-01-01 open Assets:A "FOO"', '"FOO"'), ('2020-01-01 balance Assets:A 1', None), ('2020-01-01 balance Assets:A USD', 'USD'), ('2020-01-01 close', None), ('garbage', 'garbage'),
       ('2020-01-01', None), ('2020-01-01 * "a"\n  Assets:A 1 USD {', None), ('2020-01-01 * "a"\n  Assets:A 1 USD @ @ 2', '@'), ('2020-01-01 * "a" "b" "c"\n  Assets:A', '"c"'), ('  Assets:A 1 USD', None),
       ('option "foo" "bar"', '"foo"'), ('option "title"', None), ('option "booking_method" "SOME"', '"SOME"'), ('plugin', None), ('include', None), ('pushtag #t', 'pushtag #t'), ('poptag #t2', 'poptag #t2'), ('popmeta kk:', 'popmeta kk:'),
       ('2020-01-01 price USD', None), ('2020-01-01 note Assets:A', None), ('2020-01-01 event "x"', None), ('2020-01-01 pad Assets:A', None), ('2020-01-01 document Assets:A', None), ('2020-01-01 custom', None), ('2020-01-01 query "a"', None),
       ('2020-01-01 commodity usd', 'usd'), ('2020-01-01 * "a" #t #t', '#t'), ('2020-01-01 open Assets:A\n  kk: 1\n  kk: 2', 'kk'), ('2020-01-01 open Assets:A USD,USD', 'USD'),
       ('2020-01-01 balance Assets:A 99999999999999999999999999999999 USD', '99999999999999999999999999999999'), ('2020-01-01 open Assets:A ~', '~'), ('\x01', '\x01'), ('include "none"', '"none"'), ('2020-01-01 balance Assets:A 1 / USD', 'USD'),
       ('2020-01-01 * "a"\n  Assets:A 1 USD {1 USD, 2 USD}', '{1 USD, 2 USD}'), ('1 + 2', '1'), ('2020-01-01 opén Assets:A', 'op'), ('2020-01-01 * "unterminated', None), ('include "dir"', '"dir"'), ('include "latin"', '"latin"'), ('é', None)]
ENDLESS = {'2020-01-01 * "unterminated'}       # swallows what follows
GOOD = ['2019-01-01 open Assets:A\n', '\n; comment é☃\n', '2019-01-02 * "é☃𝄞" "n"\n  Assets:A  1 USD\n  Equity:X\n  kk: "v"\n', 'option "operating_currency" "USD"\n', 'plugin "p" "c"\n', '2019-01-03 custom "x" 1 USD\n']
PARAMS = {'book []': [], 'book some': [dict(dct='open', date='2020-01-01', acc='Assets:A')], 'book bad': [dict(dct='close', date='2020-01-01', acc='Assets:A')]}
METHODS = [('parser.plugins', None), ('parser.directives', None), ('parser.options', None), ('book', None)] + [('book', p) for p in PARAMS.values()]
# requests that must keep working whatever the ledger says, with what they answer
def key(e): return dumps({k: v for k, v in e.items() if v is not None})
def check_unparsable(files, wanted, r, rounds=1):
    """wanted: [(file, first line, last line, text or None)] each to be reported; what is wrong, requests"""
    path, drop = ledger(files)
    base = os.path.dirname(path)
    log = []
    with Session(path) as s:
        def req(m, p=None): log.append(request(m, p)); return s.ask(log[-1])
        try:
            first = None
            for _ in range(rounds):
                for m, p in METHODS:
                    a = req(m, p)
                    r.add('requests')
                    if isinstance(a, Dead): return '%s: %r' % (m, a), log
                    if 'result' in a or 'error' not in a: return '%s answers data: %s' % (m, str(a)[:300]), log
                    if int(a['error']['code']) != 2: return '%s answers error code %s' % (m, a['error']['code']), log
                    es = a['error'].get('data')
                    if not isinstance(es, list) or not es: return '%s answers no reports: %s' % (m, str(a)[:300]), log
                    k = sorted(map(key, es))
                    if first is None: first, reports = k, es
                    elif k != first: return '%s answers %s, an earlier method %s' % (m, k, first), log
                st = req('status')
                if isinstance(st, Dead) or 'error' in st: return 'status answers %s' % st, log
            for e in reports:
                if not isinstance(e.get('message'), str) or not e['message'].strip() or not isinstance(e.get('reason'), str): return 'report without message or reason: %s' % e, log
                ctx = [(n, int(a), int(b)) for n, a, b in IN.findall(e['message'][len(e['reason']):])]
                if not e['message'].startswith(e['reason']): ctx = []
                elif IN.sub('', e['message'][len(e['reason']):]): return 'message %r does not tell the reason %r and where' % (e['message'], e['reason']), log
                if ctx != [(c[0], int(c[1][1]), int(c[1][2])) for c in e.get('contexts') or []] or 'contexts' in e and not e['contexts']: return 'contexts of %s, expected %s' % (e, ctx), log
            places = [x for e in reports for x in [e['span']] + [c[1] for k in ('contexts', 'related') for c in e.get(k) or ()]]
            g = req('parser.resolve-spans', places)
            if isinstance(g, Dead) or len(g.get('result') or ()) != len(places): return 'spans not resolved: %s' % str(g)[:300], log
            it = iter(g['result'])
            found = []
            sizes = {os.path.join(base, n): (t if isinstance(t, bytes) else t.encode()).count(b'\n') + 1 for n, t in files}
            for e in reports:
                x = next(it)
                if x['file-name'] not in sizes or not 1 <= int(x['start-line']) <= int(x['end-line']) <= sizes[x['file-name']]: return 'report %s is at %s' % (e, x), log
                found.append((x['file-name'], int(x['start-line']), x['content'], e))
                for c in (e.get('contexts') or []):
                    y = next(it)
                    if y['file-name'] != x['file-name'] or int(y['start-line']) > int(x['start-line']): return 'context %s of %s is at %s' % (c, e, y), log
                for c in (e.get('related') or []): next(it)
            for f, l0, l1, txt in wanted:
                if not any(n == os.path.join(base, f) and l0 <= l <= l1 and (txt is None or c == txt) for n, l, c, _ in found): return 'no report at %s:%d-%d %r; reported are %s' % (f, l0, l1, txt, [x[:3] for x in found]), log
            for n, l, c, e in found:
                if not any(n == os.path.join(base, f) and l0 <= l <= l1 for f, l0, l1, _ in wanted): return 'report %s at %s:%d, where nothing is wrong' % (e, n, l), log
            # formatting
            for m, label in (('parser.format-errors', 'Error'), ('parser.format-warnings', 'Warning')):
                a = req(m, reports)
                t = a.get('result') if not isinstance(a, Dead) else None
                if not isinstance(t, str) or t.count(label) < len(reports): return 'formatting answers %s' % str(a)[:600], log
                for n, l, _, e in found:
                    if e['message'] not in t or '%s:%d:' % (n, l) not in t.replace('\x1b[0m', '') and '%d' % l not in t: return 'the text of %s is %s' % (e, t), log
            a = req('parser.create-synthetic-spans', [dict(name='syn', content='text')])
            b = req('parser.resolve-spans', a['result'])
            if b['result'][0]['content'] != 'text' or b['result'][0]['file-name'] != 'syn': return 'synthetic span resolves to %s' % b, log
            if s.close() != 0: return 'exit status not 0', log
        except (KeyError, TypeError, AttributeError) as e: return 'unexpected answer %r' % e, log
        finally: drop()
    return None, log
IN = re.compile(r' in (\w+) at (\d+)\.\.(\d+)')
EXTRA = [('dir/x', ''), ('latin', b'; \xe9\n')]
def w(chunk, r):
    for name, files, wanted in chunk:
        files = files + EXTRA
        msg, log = check_unparsable(files, wanted, r, 2 if name == 'one' else 1)
        r.add('ledgers'); r.outcome((name, len(wanted)))
        if r.n['ledgers'] % 101 == 1: r.sample(dict(case=name, files=[[n, t] for n, t in files if isinstance(t, str)], wrong=wanted))
        if msg: r.violation('%s: %s' % (name, msg), dict(files=[[n, t] for n, t in files if isinstance(t, str)], lines=log))
def assemble(parts):
    """parts: [(text, None or (text of span,))] -> text, wanted [(first line, last line, text)]"""
    out, line, wanted = '', 1, []
    for t, bad in parts:
        if not t.endswith('\n'): t += '\n'
        n = t.count('\n')
        if bad: wanted.append((line, line + n - 1, bad[0]))
        out += t; line += n
    return out, wanted
def main_only(parts):
    t, w_ = assemble(parts)
    return [('main.beancount', t)], [('main.beancount',) + x for x in w_]
def cases(deep):
    good = [(t, None) for t in GOOD]
    for b in BAD:
        bad = (b[0], b[1:])
        for i in range(len(GOOD) + 1):
            if b[0].startswith(' ') and i == 3: continue       # indented text after a directive can be something else
            f, w_ = main_only(good[:i] + [bad] + good[i:])
            if b[0] in ENDLESS: w_ = [('main.beancount', w_[0][1], 99, None)]
            if b[0] in ENDLESS and i < len(GOOD): continue
            yield ('one', f, w_)
        if not b[0].startswith(' '):
            # only that; no newline at the end
            if b[0] not in ENDLESS: yield ('alone', *main_only([bad]))
            # in an included file, directly, twice removed and in a directory; and after a good include
            t, w_ = assemble(good[:2] + [bad] + good[2:3] if b[0] not in ENDLESS else good[:2] + [bad])
            if 'include "' in b[0]:
                yield ('included', [('main.beancount', GOOD[0] + 'include "sub.beancount"\n' + GOOD[2]), ('sub.beancount', t)], [('sub.beancount',) + x for x in w_])
                continue
            for n in ('sub.beancount', 's/é.beancount'):
                yield ('included', [('main.beancount', GOOD[0] + 'include "%s"\n' % n + GOOD[2]), (n, t)], [(n,) + x for x in w_])
            yield ('included twice removed', [('main.beancount', GOOD[0] + 'include "sub.beancount"\n'), ('sub.beancount', GOOD[2] + 'include "sub2.beancount"'), ('sub2.beancount', t)], [('sub2.beancount',) + x for x in w_])
            yield ('second include', [('main.beancount', 'include "a"\ninclude "b"\n' + GOOD[0]), ('a', GOOD[2]), ('b', t)], [('b',) + x for x in w_])
    plain = [b for b in BAD if b[0] not in ENDLESS and not b[0].startswith(' ') and b[1] is not None]
    for b, c in itertools.product(plain, repeat=2):
        if b is not c and not deep and (BAD.index(b) + BAD.index(c)) % 3: continue
        yield ('two', *main_only([good[0], (b[0], b[1:]), good[2], (c[0], c[1:]), good[5]]))
        if 'include "' in b[0] + c[0]: continue
        t, w_ = assemble([good[0], (b[0], b[1:])]); u, v = assemble([(c[0], c[1:]), good[5]])
        yield ('two files', [('main.beancount', t + 'include "sub"\n'), ('sub', u)], [('main.beancount',) + x for x in w_] + [('sub',) + x for x in v])
    for b in plain:
        # the same mistake again and again; after some mistakes the parser skips what comes next to them
        x = (b[0], b[1:])
        for parts in ([x, good[0], x], [good[0], x, good[2], x, good[5], x], [x, good[5], good[2], x]):
            if 'include "' in b[0] and parts.count(x) > 1: continue
            yield ('again', *main_only(parts))
    ls = list(plain)
    for k in range(0, len(ls), 3):
        parts = []
        for j, b in enumerate(ls[k:] + ls[:k]): parts += [(b[0], b[1:]), good[(2, 0, 5)[j % 3]]]
        yield ('all', *main_only(parts))
    once = [b for b in ls if 'include "' not in b[0]]
    for m in (60, 130, 300):
        parts = []
        for j in range(m): parts += [(once[j % len(once)][0], once[j % len(once)][1:]), good[(2, 0, 5)[j % 3]]]
        yield ('very many', *main_only(parts))
        t, w_ = assemble(parts)
        yield ('very many, included', [('main.beancount', GOOD[0] + once[0][0] + '\ninclude "sub"\n'), ('sub', t)], [('sub',) + x for x in w_] + [('main.beancount', 2, 2, once[0][1])])
    yield ('includes itself', [('main.beancount', GOOD[0] + 'include "main.beancount"\n')], [('main.beancount', 2, 2, '"main.beancount"')])
    yield ('cycle', [('main.beancount', GOOD[0] + 'include "a"\n'), ('a', 'include "main.beancount"\n')], [('a', 1, 1, '"main.beancount"')])
# unreadable ledgers -------------------------------------------------------------------------------
def unreadable():
    """(name, path made in an empty directory)"""
    def mk(f):
        def g():
            d = tempfile.mkdtemp(dir=tmpdir())
            return d, f(d)
        return g
    j = os.path.join
    def latin(d): open(j(d, 'l.beancount'), 'wb').write(b'2020-01-01 open Assets:A\n; caf\xe9\n'); return j(d, 'l.beancount')
    def loop(d): os.symlink('loop', j(d, 'loop')); return j(d, 'loop')
    def dangling(d): os.symlink('nowhere', j(d, 'link')); return j(d, 'link')
    def below(d): open(j(d, 'f'), 'w').close(); return j(d, 'f', 'x.beancount')
    def dir_(d): os.mkdir(j(d, 'dir')); return j(d, 'dir')
    yield 'missing', mk(lambda d: j(d, 'none.beancount'))
    yield 'missing é☃ "q" \\', mk(lambda d: j(d, 'é☃ "q" \\.beancount'))
    yield 'missing directory', mk(lambda d: j(d, 'no', 'such', 'x.beancount'))
    yield 'directory', mk(dir_)
    yield 'not UTF-8', mk(latin)
    yield 'symlink loop', mk(loop)
    yield 'dangling symlink', mk(dangling)
    yield 'below a file', mk(below)
    yield 'name too long', mk(lambda d: j(d, 'x' * 300))
ALLM = METHODS + [('status', None), ('parser.resolve-spans', [[0, 0, 0]]), ('parser.resolve-spans', []), ('parser.create-synthetic-spans', [dict(name='n', content='c')]), ('parser.format-errors', []), ('parser.format-warnings', [dict(message='m', reason='r', span=[0, 0, 0])]), ('parser.format-errors', [dict(message='m', reason='r', span=[0, 0, 0])])]
def w_unreadable(chunk, r):
    table = dict(unreadable())
    for name, seq in chunk:
        d, path = table[name]()
        lines = [request(m, p, i + 1) for i, (m, p) in enumerate(ALLM[x] for x in seq)]
        out = ask(path, lines)
        r.add('unreadable'); r.add('requests', len(lines)); r.outcome(('unreadable', name))
        for l, a, i in zip(lines, out, range(len(lines))):
            msg = None
            if isinstance(a, Dead) or 'result' in a or not isinstance(a.get('error'), dict): msg = 'answered %s' % str(a)[:300]
            elif int(a['error']['code']) != 1: msg = 'error code %s' % a['error']['code']
            elif path not in a['error']['message']: msg = 'message %r does not name the file' % a['error']['message']
            elif a['error'].get('data') is not None: msg = 'data %s' % a
            elif a['id'] != i + 1: msg = 'id %s' % a['id']
            if msg: r.violation('unreadable ledger (%s): %s: %s' % (name, l, msg), dict(files=[['main.beancount', '']], lines=lines)); break
        shutil.rmtree(d, ignore_errors=True)
def unreadable_cases(deep):
    n = len(ALLM)
    for name, _ in unreadable():
        for k in (1, 2, 3) if deep else (1, 2):
            for seq in itertools.product(range(n), repeat=k): yield name, seq
        yield name, tuple(range(n)) * 3
def run(tier, seed):
    t = Result()
    deep = tier == 'thorough'
    end = time.time() + (700 if deep else 240)
    _, d1 = fan_out(w, cases(True), 10, t, end)
    _, d2 = fan_out(w_unreadable, unreadable_cases(True), 60, t, end)
    return t, dict(states=t.n.get('ledgers', 0) + t.n.get('unreadable', 0), transitions=t.n.get('requests', 0), traces_validated_against_impl=t.n.get('ledgers', 0) + t.n.get('unreadable', 0), exhaustive=d1 and d2)
