"""C17 spans of directives and postings resolve to their text."""
import time, itertools, os, re
from ..content import *
from ..core import *
LEVEL = 'model_checking'
# directive texts: lines, and which lines hold postings: (text, how many lines)
SEGS = [('%s open Assets:A', []), ('%s note Assets:A "é☃𝄞 and "  ', []), ('%s close Assets:日本 ; é comment', []),
        ('%s * "p" "n"\n  Assets:A  1 USD\n  Assets:B', ['Assets:A  1 USD', 'Assets:B']),
        ('%s ! "é☃𝄞" #t ^l ; comment\n  ; inner é\n  kk: "v"\n  ! Assets:É   -1.50 USD @ 2 EUR ; c\n    pm: 1\n\tAssets:B 3 STK {4 USD, "𝄞"}\n\n', ['! Assets:É   -1.50 USD @ 2 EUR', 'Assets:B 3 STK {4 USD, "𝄞"}']),
        ('%s * "two\nlines 𝄞"\n    Assets:A 1 USD\n    Assets:A 1 USD', ['Assets:A 1 USD', 'Assets:A 1 USD']),
        ('%s custom "t" 1 USD "x" TRUE\n  kk: "two\nlines"\n  kb: NULL', []), ('%s balance Assets:A  1.00 ~ 0.01 USD\n  #tag\n  ^link', []),
        ('%s txn\n  Assets:A\n    kk: "multi\n  line 日本"', ['Assets:A'])]
FILL = ['', '\n', '; é☃𝄞 comment\n', '  \n\n\t\n', '* heading 日本\n', 'option "title" "é\nT"\n', 'pushtag #x\npoptag #x\n']
def layout(seq, fills, eol='\n', last=True, first=''):
    """file text and the expected resolutions [(first line, last line, content, [(first, last, content) of postings])]"""
    out, want = first, []
    for i, (k, f) in enumerate(zip(seq, fills)):
        if f.startswith('option') and i and f in fills[:i]: f = ''       # an option may be given once
        if f.startswith('*') and not out.endswith('\n'): f = '\n' + f    # a heading starts after a line end
        out += f
        seg, posts = SEGS[k[0] if isinstance(k, tuple) else k]
        seg = seg % (k[1] if isinstance(k, tuple) else '2020-01-%02d' % (1 + i))
        line = 1 + out.count('\n')
        body = re.sub(r'\s*;[^"\n]*$', '', seg.rstrip())       # a comment at the end may be part of it or not
        ps, at = [], seg.index('\n') if posts else 0
        for p in posts:
            at = seg.index(p, at)
            l = line + seg[:at].count('\n')
            ps.append((l, l + p.count('\n'), p)); at += len(p)
        want.append((line, line + body.count('\n'), body, ps))
        out += seg if seg.endswith('\n') else seg + '\n'
    if not last: out = out.rstrip('\n')
    f = lambda s: s.replace('\n', eol)
    return f(out), [(a, b, f(c), [(x, y, f(z)) for x, y, z in ps]) for a, b, c, ps in want]
REST = re.compile(r'(?:\s+|;[^\n]*|(?<=\n)[*:#&?%!|][^\n]*)*\Z')
def same(a, span, path, want):
    """None when answer a is the text wanted (followed by nothing but comments); want: (first line, last line, text)"""
    c = a['content']
    if os.path.realpath(a['file-name']) != os.path.realpath(path): return 'in file %s, expected %s' % (a['file-name'], path)
    if int(a['start-line']) != want[0]: return 'first line %s, expected %d' % (a['start-line'], want[0])
    if c == '':
        # a finding in a dependency if the span is right all the same
        t = open(path, 'rb').read()[int(span[1]):int(span[2])].decode('utf-8', 'replace').rstrip()
        if t and ord(t[-1]) > 127 and t.startswith(want[2]) and REST.match(t, len(want[2])): return ('D15', 'text %r resolves to nothing' % t)
    if not c.startswith(want[2]) or not REST.match(c, len(want[2])): return 'content %r, expected %r' % (c, want[2])
    if int(a['end-line']) != want[0] + c.count('\n'): return 'last line %s of %r, first %d' % (a['end-line'], c, want[0])
    return None
KIND = {'txn': ''}
def check(s, files, order, r):
    """files: [(path, expected resolutions)]; returns what is wrong. order: the orders of spans in which to ask"""
    key = None
    d = s.request('parser.directives')
    if isinstance(d, Dead) or 'result' not in d: return 'no directives: %s' % str(d)[:500]
    ds = d['result']['directives']
    spans = [[x['span']] + [p['span'] for p in x.get('postings', ())] for x in ds]
    flat = [y for x in spans for y in x]
    a = s.request('parser.resolve-spans', flat)
    if isinstance(a, Dead) or 'result' not in a: return 'not resolved: %s' % str(a)[:500]
    r.add('spans', len(flat))
    a = a['result']
    if len(a) != len(flat): return '%d answers for %d spans' % (len(a), len(flat))
    left = {(os.path.realpath(p), w[0]): (p, w) for p, ws in files for w in ws}
    it = iter(zip(flat, a))
    try:
        for x, sp in zip(ds, spans):
            span, y = next(it)
            ys = [next(it) for _ in sp[1:]]
            k = (os.path.realpath(y['file-name']), int(y['start-line']))
            if k not in left: return '%s of %s resolves to line %s of %s, where there is none (or to one already seen)' % (x['dct'], x['date'], k[1], k[0])
            p, w_ = left.pop(k)
            if x['date'] not in w_[2][:10] or KIND.get(x['dct'], x['dct']) not in w_[2][10:] or len(ys) != len(w_[3]) and w_[3] is not None: return '%s of %s resolves to %s' % (x['dct'], x['date'], y)
            bad = [same(y, span, p, w_)] + [same(q, qs, p, v) for (qs, q), v in zip(ys, w_[3])]
            for e in bad:
                if isinstance(e, tuple): key = e
                elif e: return '%s of %s, %s: %s' % (x['dct'], x['date'], [str(v) for v in (y, ys)], e)
    except (KeyError, TypeError) as e: return 'unexpected answer %r: %s' % (e, str(a)[:300])
    if left: return 'nothing resolves to %s' % list(left)
    # any selection, in any order, gives the same answers
    for q in order(len(flat)):
        b = s.request('parser.resolve-spans', [flat[i] for i in q])
        r.add('selections')
        if isinstance(b, Dead) or b.get('result') != [a[i] for i in q]: return 'spans %s resolve to %s, but together with others to %s' % ([flat[i] for i in q], str(b)[:500], [a[i] for i in q])
    return key
def selections(n): 
    yield ()
    m = min(n, 5)
    for k in (1, 2, 3): yield from itertools.product(range(m), repeat=k)
    yield tuple(range(n))[::-1]; yield tuple(range(n)) * 2
def few(n): return [(), tuple(range(n))[::-1], (n - 1,) * 2 if n else ()]
def w(chunk, r):
    for name, files, want, order in chunk:
        path, drop = ledger(files)
        base = os.path.dirname(path)
        with Session(path) as s: msg = check(s, [(os.path.join(base, f), x) for f, x in want], order, r)
        r.add('files'); r.add('transitions'); r.outcome((name, sum(len(x) for _, x in want)))
        if r.n['files'] % 211 == 1: r.sample(dict(case=name, files=[list(f) for f in files]))
        key, msg = msg if isinstance(msg, tuple) else (None, msg)
        if msg: r.violation('%s: %s' % (name, msg), key=key, case=dict(files=[list(f) for f in files], lines=[request('parser.directives')]))
        drop()
TEXTS = ['2020-01-01 open Assets:A\n', '\n\n2020-01-01 note Assets:A "é☃𝄞"\n  kk: "two\n\nlines"  \n\t\n; 日本\n', '2020-01-01 open Assets:A\r\n2020-01-02 *\r\n  Assets:A 1 USD\r\n  Assets:A\r\n', '']
def parts(chunk, r):
    """every span of bytes of small files which starts and ends between characters"""
    for texts, at, step in chunk:
        files = [('f%d.beancount' % i, t) for i, t in enumerate(texts)]
        path, drop = ledger([(f, ''.join('include "%s"\n' % g for g, _ in files[1:]) + t if not i else t) for i, (f, t) in enumerate(files)])
        base = os.path.dirname(path)
        contents = [open(os.path.join(base, f), 'rb').read() for f, _ in files]
        with Session(path) as s:
            # which source is which file: by the spans of directives, or by asking
            ids = {}
            a = s.request('parser.resolve-spans', [[i, 0, 0] for i in range(len(files))])
            for i, x in enumerate(a['result']): ids[os.path.realpath(x['file-name'])] = i
            if len(ids) != len(files): r.violation('sources resolve to %s' % a['result'], dict(files=files)); drop(); continue
            spans = []
            for (f, _), c in zip(files, contents):
                ok = [i for i in range(len(c) + 1) if i == len(c) or c[i] & 0xc0 != 0x80]
                spans += [([ids[os.path.realpath(os.path.join(base, f))], x, y], f, c) for x in ok for y in ok if x <= y]
            spans = spans[at::step]
            # now and then one which denotes nothing, as it ends before it starts: the others are answered in their places
            spans = [y for i, (sp, f, c) in enumerate(spans) for y in ([(sp[:1] + sp[:0:-1], None, c)] if i % 50 == 7 and sp[1] < sp[2] else []) + [(sp, f, c)]]
            for k in range(0, len(spans), 500):
                part = spans[k:k + 500]
                a = s.request('parser.resolve-spans', [x for x, _, _ in part])
                if isinstance(a, Dead) or len(a.get('result', ())) != len(part): r.violation('%d spans give %s' % (len(part), str(a)[:300]), dict(files=files, spans=[x for x, _, _ in part])); break
                for (sp, f, c), y in zip(part, a['result']):
                    if f is None: continue
                    t = c[sp[1]:sp[2]].decode(); want = t.rstrip(); line = 1 + c[:sp[1]].count(b'\n')
                    r.add('parts'); r.add('spans')
                    e = None
                    if os.path.realpath(y['file-name']) != os.path.realpath(os.path.join(base, f)): e = 'is in %s, expected %s' % (y['file-name'], f)
                    elif y['content'].rstrip() != want or not t.startswith(y['content']): e = ('D15', 'text %r resolves to nothing' % t) if y['content'] == '' and ord(want[-1]) > 127 else 'is %r, expected %r' % (y['content'], want)
                    elif (int(y['start-line']), int(y['end-line'])) != (line, line + y['content'].count('\n')): e = 'is in lines %s to %s, expected %d to %d' % (y['start-line'], y['end-line'], line, line + y['content'].count('\n'))
                    if e: key, e = e if isinstance(e, tuple) else (None, e); r.violation('span %s of %s %s' % (sp, f, e), key=key, case=dict(files=files, span=sp))
        r.add('files'); r.add('transitions'); r.outcome(('parts', len(texts), at))
        drop()
def cases(deep):
    n, m = len(SEGS), len(FILL)
    one = lambda name, a, o=few: (name, [('main.beancount', a[0])], [('main.beancount', a[1])], o)
    for k in range(n):
        for f in FILL:
            for eol in ('\n', '\r\n'):
                for last in (True, False): yield one('one directive', layout((k,), (f,), eol, last))
    for seq in itertools.product(range(n), repeat=2):
        for fs in itertools.product(FILL, repeat=2):
            for eol in ('\n', '\r\n') if deep else ('\n',):
                for last in (True, False) if deep else (True,): yield one('two directives', layout(seq, fs, eol, last))
    for seq in itertools.product(range(n), repeat=3):
        for fs in (FILL[:3], FILL[1:4]) if not deep else itertools.product(FILL[:5], repeat=3): yield one('three directives', layout(seq, fs, '\r\n' if sum(seq) % 3 == 0 else '\n', seq[0] % 2 == 0))
    for seq in itertools.product(range(n), repeat=2): yield one('selections', layout(seq + (3,), FILL[1:4]), selections)
    # the same directive again, on the same day; dates decreasing
    for k in range(n):
        for f in FILL[:5]:
            yield one('repeated', layout([(k, '2020-01-01')] * 3, (f, '', f)), selections)
            yield one('decreasing', layout([(k, '2020-01-03'), (3, '2020-01-02'), ((k + 1) % n, '2020-01-01')], (f, f, '')), selections)
    yield one('long', layout([i % n for i in range(200) if True][:27], [FILL[i % 5] for i in range(27)]))
    # byte order and large files: directives far into a file, after non-ASCII text
    for pad_ in ('; ' + 'é' * 5000 + '\n', '; x\n' * 3000, '\n' * 70000, '; ☃𝄞\n' * 999):
        yield one('far', layout((3, 4, 1), ('', '', ''), first=pad_))
    # includes
    for a, b, c in itertools.product(range(n), repeat=3) if deep else itertools.product(range(n), range(n), (0, 4, 5)):
        for place in (0, 1):
            for eol in ('\n', '\r\n') if deep else ('\n',):
                x = layout(((a, '2020-01-05'),), (FILL[2],), eol, first='include "sub/b é.beancount"\n' if place == 0 else '')
                t = x[0] if place == 0 else x[0] + 'include "sub/b é.beancount"' + eol
                y = layout(((b, '2020-01-05'),), ('; é\n',), first='include "c.beancount"\n')
                z = layout(((c, '2020-01-05'), (a, '2020-01-05')), ('', '\n'), last=False)
                yield ('included', [('main.beancount', t), ('sub/b é.beancount', y[0]), ('sub/c.beancount', z[0])], [('main.beancount', x[1]), ('sub/b é.beancount', y[1]), ('sub/c.beancount', z[1])], few)
    for k in range(1, 8):
        fs = [('f%d.beancount' % i, layout(((i % n, '2020-01-01'),), (FILL[i % 4],))) for i in range(k)]
        yield ('many included', [('main.beancount', ''.join('include "%s"\n' % f for f, _ in fs))] + [(f, t[0]) for f, t in fs], [(f, t[1]) for f, t in fs], selections)
    # all kinds of directives with all their parts, as printed
    for k, bodies in kinds():
        for st in (STYLES[0], STYLES[3], STYLES[6]):
            ds = [dict(merge(bodies[i % len(bodies)], e), date='2020-%02d-%02d' % (1 + i // 28, 1 + i % 28)) for i, e in enumerate(EXTRA_FULL) if writable(bodies[i % len(bodies)])]
            out, want = '', []
            for d in ds:
                t = st.eol.join(text(d, st))
                want.append((1 + out.count('\n'), 1 + out.count('\n') + t.count('\n'), t, [])); out += t + st.eol
            d0 = [x['date'] for x in ds]
            if st.slash: continue
            yield ('kind ' + k, [('main.beancount', out)], [('main.beancount', want)], few)
def run(tier, seed):
    t = Result()
    deep = tier == 'thorough'
    lists = [[a] for a in TEXTS] + [[a, b] for a in TEXTS for b in TEXTS] + ([list(x) for x in itertools.permutations(TEXTS, 3)] if deep else [])
    _, d0 = fan_out(parts, [(l, k, 4) for l in lists for k in range(4)], 2, t, time.time() + (200 if deep else 240))
    _, done = fan_out(w, cases(deep), 20, t, time.time() + (700 if deep else 240))
    done = done and d0
    return t, dict(states=t.n.get('files', 0), transitions=t.n.get('spans', 0) + t.n.get('selections', 0), traces_validated_against_impl=t.n.get('files', 0), exhaustive=done)
