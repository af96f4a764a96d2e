"""C26 tabulate renders every cell of the table, or fails cleanly: every cell tree up to a bounded size; malformed inputs."""
import time, unicodedata
from itertools import zip_longest
from ..core import *
LEVEL = 'model_checking'
# a cell: 'empty', ('aligned', text, align), ('anchored', text, idx), ('row', [cells], gutter), ('stack', [cells])
def js(c):
    if c == 'empty': return '"empty"'
    if c[0] == 'stack': return '{"stack":[%s]}' % ','.join(map(js, c[1]))
    if c[0] == 'row': return '{"row":[[%s],%s]}' % (','.join(map(js, c[1])), json.dumps(c[2], ensure_ascii=False))
    return '{"%s":[%s,%s]}' % (c[0], json.dumps(c[1], ensure_ascii=False), json.dumps(c[2]))
def width(s): return sum(0 if unicodedata.combining(ch) else 2 if unicodedata.east_asian_width(ch) in 'WF' else 1 for ch in s)
class G:
    """layout of a column: width, anchor (before, after), sub-columns and gutter"""
    def __init__(self, w=0, anchor=None, kids=None, gutter=''): self.w, self.anchor, self.kids, self.gutter = w, anchor, kids, gutter
class Panic(Exception): pass
def layout(c, quirk):
    if c == 'empty': return G()
    if c[0] == 'aligned': return G(width(c[1]))
    if c[0] == 'anchored':
        if c[2] > width(c[1]): raise Panic
        return G(width(c[1]), (c[2], width(c[1]) - c[2]))
    if c[0] == 'row':
        kids = [layout(k, quirk) for k in c[1]]
        return G(sum(k.w for k in kids) + max(0, len(kids) - 1) * width(c[2]), None, kids, c[2])
    g = G()
    for k in c[1]: g = merge(g, layout(k, quirk), quirk)
    return g
def merge(a, b, quirk):
    if a.kids is not None and b.kids is not None:
        kids = [merge(x, y, quirk) if x and y else x or y for x, y in zip_longest(a.kids, b.kids)]
        gutter = a.gutter if width(a.gutter) >= width(b.gutter) else b.gutter
    else: kids, gutter = (a.kids, a.gutter) if a.kids is not None else (b.kids, b.gutter)
    anchor = (max(a.anchor[0], b.anchor[0]), max(a.anchor[1], b.anchor[1])) if a.anchor and b.anchor else a.anchor or b.anchor
    w = max(a.w, b.w)
    if kids is not None:
        inner = sum(k.w for k in kids) + max(0, len(kids) - 1) * width(gutter)
        w = inner if quirk else max(w, inner)
    elif anchor and not quirk: w = max(w, sum(anchor))
    return G(w, anchor, kids, gutter)
def fit(s, w, quirk): return s + ' ' * (w - width(s)) if not quirk else s
def lines(c, g, quirk):
    """the lines of a cell laid out in a column, each as wide as the column. quirk: as the tabulator dependency does it (D20)"""
    if c == 'empty': return [' ' * g.w]
    if c[0] == 'aligned':
        total = g.w - width(c[1])
        if total < 0: raise Panic
        left = {'left': 0, 'right': total, 'centre': total // 2}[c[2]]
        return [' ' * left + c[1] + ' ' * (total - left)]
    if c[0] == 'anchored':
        a, b = g.anchor
        return [fit(' ' * (a - c[2]) + c[1] + ' ' * (b - width(c[1]) + c[2]), g.w, quirk)]
    if c[0] == 'row':
        if not c[1]: return [' ' * g.w]
        cols = [lines(k, gk, quirk) if k != 'empty' else [] for k, gk in zip(list(c[1]) + ['empty'] * (len(g.kids) - len(c[1])), g.kids)]
        return [fit(g.gutter.join(col[i] if i < len(col) else ' ' * gk.w for col, gk in zip(cols, g.kids)), g.w, quirk) for i in range(max([1] + [len(x) for x in cols]))]
    kids = list(c[1])
    while len(kids) > 1 and kids[-1] == 'empty': kids.pop()
    return [l for k in kids for l in lines(k, g, quirk)] or [' ' * g.w]
def text(c, quirk=False):
    if c == 'empty': return []
    return trim(lines(c, layout(c, quirk), quirk))
def trim(ls):
    """trailing blanks and blank lines don't show"""
    ls = [l.rstrip(' ') for l in ls]
    while ls and not ls[-1]: ls.pop()
    return ls
def run_tabulate(data): return run_pod('', data, args=[POD, 'tabulate'], timeout=20)
def w_cells(chunk, r):
    for c in chunk:
        j = js(c)
        out, rc, err = run_tabulate(j.encode())
        r.add('cells')
        try: want = text(c)
        except Panic: want = None
        msg = None
        if want is None:      # an anchor outside its text is not a valid cell
            if rc != 1 or out or 'limabean-pod' not in err: msg = 'anchor outside the text: exit status %s, stdout %r, stderr %r' % (rc, out[:100], err[:200])
        elif rc != 0: msg = 'exit status %s, stderr %r' % (rc, err[:300])
        elif not out.endswith(b'\n'): msg = 'no line end: %r' % out[-100:]
        elif trim(out.decode('utf-8', 'replace').split('\n')) != want: msg = 'printed\n%s\nexpected\n%s' % (out.decode('utf-8', 'replace'), '\n'.join(want))
        elif err: msg = 'stderr %r' % err[:200]
        key = None
        if msg:
            try: q = text(c, True)
            except Panic: q = None
            if q is None and rc == 101 and 'tabulator' in err: key = 'D19' if want is None else 'D20'
            elif q is not None and rc == 0 and trim(out.decode('utf-8', 'replace').split('\n')) == q: key = 'D20'
            elif any(json.dumps(x, ensure_ascii=False) != '"%s"' % x for x in gutters(c)) and rc == 1 and 'JSON decode error' in err: key = 'D21'
        r.outcome((c[0] if c != 'empty' else c, len(want or ()), rc))
        if r.n['cells'] % 1999 == 1: r.sample(dict(cell=j[:500], printed=out.decode('utf-8', 'replace')[:500]))
        if msg: r.violation('%s: %s' % (j[:500], msg), dict(stdin=j, args=['tabulate']), key=key)
def gutters(c):
    if c == 'empty' or c[0] not in ('row', 'stack'): return []
    return ([c[2]] if c[0] == 'row' else []) + [x for k in c[1] for x in gutters(k)]
def w_bad(chunk, r):
    for data in chunk:
        out, rc, err = run_tabulate(data)
        r.add('malformed'); r.outcome(('malformed', rc, err[:30]))
        ok = valid(data)
        if ok and (rc != 0 or not out): r.violation('%r: exit status %s, stderr %r' % (data[:300], rc, err[:300]), dict(stdin=data.decode('latin-1')))
        if not ok and (rc != 1 or out or 'limabean-pod' not in err or 'error' not in err): r.violation('malformed %r: exit status %s, stdout %r, stderr %r' % (data[:300], rc, out[:200], err[:300]), dict(stdin=data.decode('latin-1')), key='D19' if rc == 101 and 'tabulator' in err and b'anchored' in data else None)
def pairs(kv):
    if len({k for k, _ in kv}) != len(kv): raise ValueError
    return dict(kv)
def valid(data):
    try: v = json.loads(data.decode(), object_pairs_hook=pairs, strict=True)
    except (ValueError, UnicodeDecodeError, RecursionError): return False
    def cell(v):
        if v == 'empty': return True
        if not isinstance(v, dict) or len(v) != 1: return False
        (k, x), = v.items()
        if k == 'empty': return x is None
        if k == 'stack': return isinstance(x, list) and all(map(cell, x))
        if not isinstance(x, list) or len(x) != 2: return False
        if k == 'row': return isinstance(x[0], list) and all(map(cell, x[0])) and isinstance(x[1], str)
        if k == 'aligned': return isinstance(x[0], str) and x[1] in ('left', 'right', 'centre')
        if k == 'anchored': return isinstance(x[0], str) and type(x[1]) is int and 0 <= x[1] <= width(x[0])
        return False
    return cell(v)
A = lambda s, a='left': ('aligned', s, a)
N = lambda s: ('anchored', s, s.index('.') if '.' in s else len(s))
LEAVES = ['empty', A(''), A('a'), A('bbb', 'right'), A('cccc', 'centre'), A('é☃', 'right'), A('日本', 'centre'), A('"q\\'), N('1.25'), N('12.5'), N('-100'), N('.5')]
FEW = ['empty', A('a'), A('日本', 'right'), A('cc', 'centre'), N('1.25'), N('12.5')]
GUTTERS = ['', ' ', '  ', ' | ', '日']
def cells(deep):
    row, stack = lambda cs, g=' ': ('row', list(cs), g), lambda cs: ('stack', list(cs))
    P = itertools.product
    yield from LEAVES
    for x in [A(s, a) for s in ['x', 'é', 'e\u0301', '"', '\\', '\t', '  y  ', '{}', '%s', '\u00a0', 'x' * 500] for a in ('left', 'right', 'centre')] + [('anchored', s, i) for s in ('1.25', '', 'ab') for i in range(7)]:
        yield x; yield stack([x, A('wider text')]); yield row([x, A('|')])
    for n in range(4):
        for s in P(LEAVES, repeat=n):
            for g in GUTTERS if n < 3 else GUTTERS[1:2]: yield row(s, g)
            yield stack(s)
    for g in GUTTERS[:4] if deep else GUTTERS[2:4]:
        for s in P(LEAVES if g == GUTTERS[2] or deep else FEW, repeat=4): yield stack([row(s[:2], g), row(s[2:], g)])
    for s in P(FEW, repeat=5): yield stack([row(s[:2]), row(s[2:3]), row(s[3:])])
    for s in P(FEW[1:], repeat=6) if deep else P(FEW[1:5], repeat=6): yield stack([row(s[:3], '  '), row(s[3:], '  ')]); yield row([stack(s[:2]), stack(s[2:3]), stack(s[3:])], ' | '); yield stack([row(s[:2]), row(s[2:4]), row(s[4:])])
    # nested: a cell of two things in each place of a row or a stack of two
    two = [f(s) for s in P(FEW, repeat=2) for f in (row, stack)] + [row([]), stack([])]
    for a, b in P(two, FEW):
        for f in (row, stack): yield f([a, b]); yield f([b, a]); yield stack([row([a, b], '|'), row([b, a], '|')])
    for a, b in P(two, two):
        yield row([a, b], '|'); yield stack([a, b])
        if deep: yield stack([row([a, b], '  '), row([b], '  ')]); yield row([stack([a, b]), b], ' ')
    deepest = A('x')
    for i in range(30): deepest = row([deepest, A('.')]) if i % 2 else stack([deepest, A('-')])
    yield deepest
    yield stack([row([A('r%d' % i), N('%d.5' % i), A('end')], '  ') for i in range(2000)])
    yield row([A('c%d' % i) for i in range(2000)], ' ')
    for g in ('\t', '"', '\\', '\n'): yield row([A('a'), A('b')], g)
def bad():
    good = [js(c) for c in (('row', [A('a'), N('1.5')], ' '), ('stack', [A('a'), 'empty']), 'empty')]
    for g in good:
        for i in range(len(g)): yield g[:i].encode(); yield (g[:i] + g[i + 1:]).encode()
        for i in range(len(g) + 1):
            for ch in '{}[]",:0 x': yield (g[:i] + ch + g[i:]).encode()
        for e in ('', '\n', ' \t\r\n', 'x', g, ',', '\0'): yield (g + e).encode(); yield (e + g).encode()
    for j in ['', ' ', '\n', '{}', '[]', 'null', '0', '"Empty"', '"row"', '{"empty":null}', '{"empty":[]}', '{"aligned":["a"]}', '{"aligned":["a","left","x"]}', '{"aligned":["a","LEFT"]}', '{"aligned":["a","center"]}', '{"aligned":["a",null]}', '{"aligned":[1,"left"]}', '{"aligned":"a"}', '{"anchored":["1",-1]}', '{"anchored":["1",0.5]}', '{"anchored":["1","0"]}', '{"anchored":["1",1e0]}', '{"row":[]}', '{"row":[[]]}', '{"row":[[],1]}', '{"row":[[],null]}', '{"row":["empty"," "]}', '{"row":[["x"]," "]}', '{"stack":{}}', '{"stack":null}', '{"stack":[null]}', '{"stack":[[]]}', '{"stack":["empty"],"row":[[]," "]}', '{"nope":[]}', '{"Stack":[]}', 'empty', "'empty'", '{"stack":["empty",]}', '[{"aligned":["a","left"]}]', '{"stack":[{"aligned":["a","left"]},{"aligned":["b"]}]}', '[' * 1000, '{"stack":[' * 50 + ']}' * 50, '{"stack":[' * 100000]: yield j.encode()
    yield b'\xff'; yield b'{"aligned":["\xff","left"]}'; yield b'\xef\xbb\xbf"empty"'; yield '{"aligned":["a","left"]}'.encode('utf-16')
def run(tier, seed):
    t = Result()
    deep = tier == 'thorough'
    end = time.time() + (700 if deep else 240)
    _, d1 = fan_out(w_bad, bad(), 100, t, end)
    _, d2 = fan_out(w_cells, cells(deep), 200, t, end)
    n = t.n.get('cells', 0) + t.n.get('malformed', 0)
    return t, dict(states=n, transitions=n, traces_validated_against_impl=n, exhaustive=d1 and d2)
