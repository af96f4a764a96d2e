"""C19 formatted reports: every combination of parts over spans in files and synthetic sources, and sequences of reports."""
import time, itertools, re
from ..content import *
from ..core import *
LEVEL = 'model_checking'
FILES = [('main.beancount', '; é☃𝄞\ninclude "sub é.beancount"\n2020-01-01 open Assets:A\n\n2020-01-02 * "é☃𝄞" "n"\n  Assets:A   1 USD\n  kk: "é"\n  Assets:B  -1 USD\n\n2020-01-03 note Assets:A "in the file"\n' + '; 日本\n' * 90 + '2020-01-04 close Assets:A\n'),
         ('sub é.beancount', '\n; ☃\n2020-01-05 * "sub"\n  Assets:C 1 EUR\n  Assets:D -1 EUR\n2020-01-06 price STK 7 EUR')]
LONG = [('main.beancount', ''.join('2020-01-01 note Assets:A "note number %d é"\n' % i for i in range(300)) + 'include "sub.beancount"\n'), ('sub.beancount', ''.join('2020-02-01 event "e" "number %d"\n\n' % i for i in range(40)))]
BAD = [('main.beancount', '2020-01-01 open Assets:A\n2020-01-02 opn Assets:B\n')]
SYN = [('syn one', 'synthetic line one\nsecond line'), ('☃', 'é☃𝄞 one line.'), ('syn one', 'third fragment'), ('', 'no name')]
SYN_TAIL = [('é', 'é1é1é1\n2é2é2.\n'), ('é', 'first of é\nsecond.'), ('é', '\nlast')]       # D16: sources of one name, an earlier one not ASCII
ANSI = re.compile('\x1b\\[[0-9;]*m')
class Place:
    def __init__(self, span, name, lines, known=None, empty=False): self.empty, self.span, self.name, self.lines, self.known = empty, span, name, lines, known      # lines: [(number, text)]
def places(s, path, SYN):
    d = s.request('parser.directives')
    out = []
    if 'result' in d:
        spans = [y for x in d['result']['directives'] for y in [x['span']] + [p['span'] for p in x.get('postings', ())]]
        for sp, a in zip(spans, s.request('parser.resolve-spans', spans)['result']):
            out.append(Place(sp, a['file-name'], [(int(a['start-line']) + i, t) for i, t in enumerate(a['content'].split('\n'))]))
    before = {}
    for (n, c), sp in zip(SYN, s.request('parser.create-synthetic-spans', [dict(name=n, content=c) for n, c in SYN])['result']):
        full = before.get(n, '')
        l = 1 + full.count('\n')
        first = full.rpartition('\n')[2]
        c_ = c.rstrip() if c.strip() else c
        out.append(Place(sp, n, [(l + i, t) for i, t in enumerate(c_.split('\n'))], 'D16' if (n, c) in SYN_TAIL else None))
        before[n] = full + c
    # places of no width, at the end of the list: where the last fragment starts, and where two of the directives do
    for q in [out[-1 - len(SYN_TAIL) if SYN[-len(SYN_TAIL):] == SYN_TAIL else -1]] + ([out[0], out[5]] if 'result' in d else []):
        out.append(Place([q.span[0], q.span[1], q.span[1]] if isinstance(q.span, list) else dict(q.span, end=q.span['start']), q.name, [(q.lines[0][0], '')], q.known, True))
    return out
def wrong(text, kind, rep, at):
    """what is wrong with the formatted text of one report; at: places by part"""
    a = rep.get('annotation')
    if a is not None:
        if not text.endswith('\n' + a + '\n'): return 'does not end with the annotation %r' % a
        text = text[:len(text) - len(a) - 1]
    t = ANSI.sub('', text)
    head = kind + ': ' + rep['message'] + '\n'
    if not t.startswith(head): return 'does not start with %r' % head
    body = t[len(head):]
    main = at[0]
    m = re.search(r'\[ (.*):(\d+):(\d+) \]', body)
    if not m or m.group(1) != main.name or int(m.group(2)) != main.lines[0][0]: return 'is located at %s, expected %s:%d' % (m and m.group(0), main.name, main.lines[0][0])
    for p in at:
        if '[ %s:' % p.name not in body: return 'does not name the source %r' % p.name
        for n, l in (p.lines[0], p.lines[-1]) if not p.empty else ():       # of no width: on the line or at the end of the one before
            if not any(re.match(r'\s*%d [│┆]' % n, x) and l.strip() in x for x in body.split('\n')): return 'does not show line %d %r' % (n, l)
    for l in [rep['reason']] + [c[0] for c in rep.get('contexts', ())] + [c[0] for c in rep.get('related', ())]:
        if body.count(l) != 1: return 'has label %r %d times' % (l, body.count(l))
    return None
def report(i, k):
    """report number i with parts k = (span, contexts, related, annotation): place indices"""
    r = dict(message='message-%d, é' % i, reason='reason-%d-of ☃' % i, span=k[0])
    if k[1] is not None: r['contexts'] = [['context-%d-%d;' % (i, j), p] for j, p in enumerate(k[1])]
    if k[2] is not None: r['related'] = [['related-%d-%d;' % (i, j), p] for j, p in enumerate(k[2])]
    if k[3] is not None: r['annotation'] = k[3]
    return r
def place(ps, r):
    r = dict(r, span=ps[r['span']].span)
    for k in ('contexts', 'related'):
        if k in r: r[k] = [[l, ps[p].span] for l, p in r[k]]
    return r
def w(chunk, res):
    for name, files, kind, reps in chunk:
        syn, key = SYN + (SYN_TAIL if name == 'same name' else []), None
        path, drop = ledger(files)
        lines = []
        with Session(path) as s:
            try:
                ps = places(s, path, syn)
                rs = [place(ps, {**r}) for r in reps]
                m = 'parser.format-' + ('errors' if kind == 'Error' else 'warnings')
                singles = []
                for r, r0 in zip(rs, reps):
                    lines.append(request(m, [r]))
                    a = s.ask(lines[-1])
                    res.add('reports')
                    if isinstance(a, Dead) or not isinstance(a.get('result'), str): msg = 'no answer: %s' % str(a)[:400]; break
                    singles.append(a['result'])
                    at = [ps[r0['span']]] + [ps[p] for k in ('contexts', 'related') for _, p in r0.get(k, ())]
                    msg = wrong(a['result'], kind, r, at)
                    if msg: key = next((p.known for p in at if p.known), None); msg = 'the text of %s %s:\n%s' % (dumps(r), msg, ANSI.sub('', a['result'])); break
                else:
                    msg = None
                    for sel in ([range(len(rs)), range(len(rs))[::-1]] if len(rs) <= 3 else itertools.chain(itertools.product(range(len(rs)), repeat=2), itertools.permutations(range(len(rs)), 3), [[], range(len(rs))]) if len(rs) <= 8 else [range(len(rs)), range(len(rs))[::-1], [0] * 2000]):
                        lines_ = request(m, [rs[i] for i in sel])
                        a = s.ask(lines_)
                        res.add('sequences')
                        if isinstance(a, Dead) or a.get('result') != '\n'.join(singles[i] for i in sel):
                            msg = 'together the reports give %s; one by one %s' % (str(a)[:3000], [singles[i] for i in sel]); lines.append(lines_); break
            except (KeyError, TypeError) as e: msg = 'unexpected answer %r' % e
        res.add('sessions'); res.outcome((name, kind))
        if res.n['sessions'] % 97 == 1: res.sample(dict(case=name, requests=lines[:2]))
        if msg: res.violation('%s: %s' % (name, msg), dict(files=[list(f) for f in files], lines=[request('parser.create-synthetic-spans', [dict(name=n, content=c) for n, c in syn])] + lines[-2:]), key=key)
        drop()
def cases(deep):
    n = 9 + len(SYN)      # places of FILES: 6 directives, 4 postings...
    main = [0, 1, 2, 3, 4]
    reps = []
    for p in range(n):
        for ctx in [None, []] + [[q] for q in range(n)]:
            for rel in ([None, [], [0], [5, 1]] if not deep else [None, []] + [[q] for q in range(n)] + [[q, (q + p) % n] for q in range(n)]):
                if len({p, *(ctx or ()), *(rel or ())}) < 1 + len(ctx or ()) + len(rel or ()): continue       # two labels on one span are drawn twice over
                for a in (None, 'one line', 'two é\n  lines ') if deep or rel in (None, [0]) else (None, 'two é\n  lines'):
                    reps.append((p, ctx, rel, a))
    for kind in ('Error', 'Warning'):
        for c in chunks(reps, 10):
            # few at a time for the sequences
            for d in chunks(c, 2): yield ('parts', FILES, kind, [report(i, k) for i, k in enumerate(d)])
        for rel in ([0, 1, 5], [10, 0, 6, 2], [11, 9]): yield ('several related', FILES, kind, [report(0, (3, [1], rel, None)), report(1, (2, [1, 6], rel, 'x'))])
        some = [(0, None, None, None), (1, [3], None, 'a'), (2, None, [0], 'two\nlines'), (9, None, [5], None), (5, [0], [1, 2], 'b\n'), (11, None, None, '')]
        yield ('sequences', FILES, kind, [report(i, k) for i, k in enumerate(some)])
        for k in (5, 6, 9, 17, 40):
            yield ('many parts', LONG, kind, [report(0, (k, [0], range(k + 1, 2 * k), None)), report(1, (5 * k, range(k), [5 * k + 1, 339, 338], 'x')), report(2, (339, range(k), range(k, 2 * k), None))])
        yield ('many reports', LONG, kind, [report(i, (i, [i + 1], None, None)) for i in range(300)])
        for e in (-1, -2, -3):
            yield ('no width', FILES, kind, [report(0, (e, None, None, None)), report(1, (2, [e], [3], 'x')), report(2, (3, [2, e], [e], None)), report(3, (2, None, [e, 1], None)), report(4, (e, [-1, -2, -3], None, None))])
        for i in range(3):
            for rel in (None, [0], [n]): yield ('same name', FILES, kind, [report(0, (n + i, None, rel if rel != [n + i] else None, 'x'))])
        yield ('unparsable', BAD, kind, [report(i, k) for i, k in enumerate([(0, None, None, None), (1, None, [0], 'a'), (2, [3], None, 'b')])])
        for msg in ('', ' ', 'with "quotes" \\ and é', 'x' * 300, 'braces {} {0} %s'):
            for ann in (None, msg, '\x1b[0m' + msg):
                r = report(0, (1, None, None, ann)); r['message'] = 'M' + msg; r['reason'] = 'R' + msg
                yield ('texts', FILES, kind, [r, report(1, (0, None, None, None))])
def run(tier, seed):
    t = Result()
    deep = tier == 'thorough'
    _, done = fan_out(w, cases(True), 8, t, time.time() + (700 if deep else 240))
    return t, dict(states=t.n.get('reports', 0), transitions=t.n.get('reports', 0) + t.n.get('sequences', 0), traces_validated_against_impl=t.n.get('sessions', 0), exhaustive=done)
