"""C18 synthetic spans: every history of creations, with everything resolved after each step."""
import time, itertools
from ..content import *
from ..core import *
LEVEL = 'model_checking'
NAMES = ['n', 'm', '', 'é☃𝄞', 'n n/../x.beancount', 'MAIN', 'SUB']      # MAIN, SUB: the paths of the ledger's files
CONTENTS = ['one line', '', 'two\nlines', '2020-01-01 * "é☃" "𝄞"\n  Assets:A\n', 'x', 'é', '  padded \t\n\n', '  ', 'a\r\nb', '\n\nx', 'ends in 日本', 'one line']
LEDGERS = [('plain', [('main.beancount', '2020-01-01 open Assets:A ; é\n\n2020-01-02 * "é☃𝄞"\n  Assets:A 1 USD\n  Assets:B -1 USD\n')]),
           ('included', [('main.beancount', '; é\ninclude "sub.beancount"\n2020-01-01 open Assets:A\n'), ('sub.beancount', '\n\n; ☃\n2020-01-03 close Assets:A\n')]),
           ('empty', [('main.beancount', '')]),
           ('unparsable', [('main.beancount', '2020-01-01 open Assets:A\n2020-01-02 opn Assets:B\n')]),
           ('include missing', [('main.beancount', '2020-01-01 open Assets:A\ninclude "none.beancount"\n')])]
def trimmed(c): return c.rstrip() or c
def run_one(ledger_, ops, r):
    """ops: lists of (name, content) created by one request, or a request line in between; what is wrong or None"""
    path, drop = ledger(ledger_[1])
    sub = path.replace('main.', 'sub.')
    log, key = [], None
    fix = lambda n: {'MAIN': path, 'SUB': sub}.get(n, n)
    try:
        with Session(path) as s:
            def req(m, p=None): log.append(request(m, p)); return s.ask(log[-1])
            d = req('parser.directives')
            own = [y for x in d['result']['directives'] for y in [x['span']] + [p['span'] for p in x.get('postings', ())]] if isinstance(d, dict) and 'result' in d else [[0, 0, 0]]
            before = req('parser.resolve-spans', own)
            if isinstance(before, Dead) or 'result' not in before: return 'file spans not resolved: %s' % str(before)[:400], log, None
            made = []
            for o in ops:
                if isinstance(o, str): log.append(o); s.ask(o)
                else:
                    items = [(fix(n), c) for n, c in o]
                    a = req('parser.create-synthetic-spans', [dict(name=n, content=c) for n, c in items])
                    if isinstance(a, Dead) or not isinstance(a.get('result'), list): return 'not created: %s' % str(a)[:400], log, None
                    if len(a['result']) != len(items): return '%d spans for %d items' % (len(a['result']), len(items)), log, None
                    made += list(zip(a['result'], items))
                # everything there is, newest first, and the file's
                a = req('parser.resolve-spans', [sp for sp, _ in reversed(made)] + own)
                r.add('resolved', len(made) + len(own))
                if isinstance(a, Dead) or not isinstance(a.get('result'), list) or len(a['result']) != len(made) + len(own): return 'not resolved: %s' % str(a)[:400], log, None
                if a['result'][len(made):] != before['result']: return 'file spans resolve to %s, before to %s' % (a['result'][len(made):], before['result']), log, None
                for (sp, (n, c)), g in zip(reversed(made), a['result']):
                    if g.get('file-name') == n and g.get('content') in (c, trimmed(c)): continue
                    m = 'span of %r, %r resolves to %s' % (n, c, {k: str(v) for k, v in g.items()})
                    if g.get('file-name') == n and g.get('content') == '' and trimmed(c) and ord(trimmed(c)[-1]) > 127: key = ('D15', m); continue
                    return m, log, None
            if s.close(): return 'exit status not 0', log, None
    except (KeyError, TypeError, AttributeError) as e: return 'unexpected answer %r' % e, log, None
    finally: drop()
    return (key[1] if key else None), log, key and key[0]
def w(chunk, r):
    for name, li, ops in chunk:
        msg, log, key = run_one(LEDGERS[li], ops, r)
        r.add('histories'); r.add('transitions', len(ops)); r.outcome((name, li, len(ops)))
        if r.n['histories'] % 211 == 1: r.sample(dict(case=name, ledger=LEDGERS[li][0], requests=log[:8]))
        if msg: r.violation('%s (%s ledger): %s' % (name, LEDGERS[li][0], msg), dict(files=[list(f) for f in LEDGERS[li][1]], lines=log), key=key)
def cases(deep, deeper=False):
    yield ('many', 0, [[('n%d' % (i % 7), 'content %d é\n' % i)] for i in range(100)])
    yield ('many at once', 1, [[('n%d' % (i % 7), 'content %d é\n' % i) for i in range(1000)], [('n3', 'x')]])
    yield ('long', 0, [[('n', 'é' * 50000 + 'x')], [('n', 'y' * 100000)], [('m', 'z')]])
    yield ('long names', 0, [[('n' * n, 'content %d' % n)] for n in (127, 128, 255, 256, 257, 1000, 70000)] + [[('é/' * n, 'x'), ('é/' * n + 'y', 'z')] for n in (100, 200, 300)])
    yield ('many sources', 3, [[('name %d' % i, 'content %d\n' % i)] for i in range(300)])
    items = [(n, c) for n in NAMES for c in CONTENTS]
    for li in range(len(LEDGERS)):
        for it in items: yield ('one', li, [[it]])
        yield ('none', li, [[]]); yield ('none', li, [[], [items[0]], []])
        yield ('all at once', li, [items]); yield ('all, one by one', li, [[i] for i in items]); yield ('all twice', li, [items, items[::-1]])
    few = [('n', 'one line'), ('n', 'two\nlines'), ('n', 'é☃ x'), ('n', ''), ('m', 'one line'), ('é☃𝄞', 'é☃ x'), ('MAIN', '2020-01-01 open Assets:A'), ('', 'x'), ('n', '  padded \n'), ('SUB', 'one line')]
    steps = [[f] for f in few] + [[few[0], few[1]], [few[2], few[2]], few[3:7], []]
    for k in (1, 2, 3):
        for seq in itertools.product(range(len(steps)), repeat=k): yield ('history', 0, [steps[i] for i in seq])
        for seq in itertools.product(range(len(few)), repeat=k):
            if k == 3 and not deep: continue
            for li in (1, 2, 3): yield ('history', li, [steps[i] for i in seq])
    if deep:
        for seq in itertools.product(range(8 if not deeper else len(steps)), repeat=4): yield ('history', 1, [steps[i] for i in seq])
        for seq in itertools.product((0, 1, 2, 4) if not deeper else (0, 1, 2, 4, 6), repeat=6): yield ('history', 0, [steps[i] for i in seq])
    for seq in itertools.product(items, repeat=2):
        if deep or seq[0][0] in ('n', 'MAIN', 'é☃𝄞') and seq[1][0] in ('n', ''): yield ('pair', 0, [[seq[0]], [seq[1]]]); yield ('pair at once', 1, [list(seq)])
    # other requests in between, failing ones too
    sp = [0, 0, 3]
    other = [request('status'), request('book'), request('parser.directives'), request('parser.options'), request('parser.resolve-spans', [[9, 5, 2]]), request('parser.format-errors', [dict(message='m', reason='r', span=sp)]), request('parser.format-warnings', []),
             request('nonsense'), 'not json', request('parser.create-synthetic-spans', [dict(name='n')]), request('parser.create-synthetic-spans'), request('parser.create-synthetic-spans', [dict(name='n', content='lost'), dict(name='n')]), '[]', '']
    for o in other:
        for a, b in itertools.product(few[:7], repeat=2):
            yield ('in between', 0, [[a], o, [b]])
        yield ('in between', 1, [o, [few[0]], o, [few[2]], o, o])
    for i, j in itertools.product(range(len(other)), repeat=2): yield ('in between', 3, [[few[0]], other[i], [few[1]], other[j], [few[5]]])
def run(tier, seed):
    t = Result()
    deep = tier == 'thorough'
    _, done = fan_out(w, cases(True, deep), 20, t, time.time() + (700 if deep else 240))
    return t, dict(states=t.n.get('histories', 0), transitions=t.n.get('transitions', 0), traces_validated_against_impl=t.n.get('histories', 0), exhaustive=done)
