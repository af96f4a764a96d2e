"""C22 whatever is sent, limabean-pod answers and keeps serving: extreme and degenerate directives, numbers, spans, reports, ledgers."""
import time, re
from ..rpc import *
from ..seqs import op, cl, bal, pad, post, tx, mv
LEVEL = 'model_checking'
MAX = 79228162514264337593543950335
OVERFLOW = re.compile(r'rust_decimal-[^\n]*\n(Addition|Subtraction|Multiplication|Division) overflowed')
DIVISION = re.compile(r'rust_decimal-[^\n]*\nDivision by zero')
CODES = {-32700, -32600, 1, 2, 3}
def judge(resp, r, what, case, key=None):
    """key: the finding this case is apt to run into"""
    if isinstance(resp, Dead):
        r.violation('%s: %r' % (what, resp), case, key=finding(key, resp) if key else None)
    elif not isinstance(resp, dict) or ('result' in resp) == ('error' in resp) or 'error' in resp and int(resp['error']['code']) not in CODES:
        r.violation('%s: answered %s' % (what, str(resp)[:600]), case)
# -- directives
E, A, AB, X, L = 'Equity:E', 'Assets:A', 'Assets:A:B', 'Assets:Never', 'Assets:L'
def dated(d, date): return dict(d, date=date)
DIRECTIVES = [op(A), op(AB), op(E), op(L, 'STK', booking='fifo'), op(X, booking='average'), op(''), op(':'), op('Assets:', ''), cl(A), cl(E), cl(X), cl(L), cl(''),
  pad(A, E), pad(A, A), pad(A, AB), pad(AB, A), pad(E, A), pad(X, A), pad(A, X), pad(X, X), pad('', ''), pad(L, E), pad(E, L),
  bal(A, '0'), bal(A, '7'), bal(A, '7', 'EUR'), bal(A, '-0.01', tol='0'), bal(A, '1', tol='-1'), bal(AB, '3'), bal(E, '5'), bal(L, '1'), bal(L, '1', 'STK'), bal(X, '1'), bal('', '1'), bal(A, '1', ''),
  tx(), tx(payee='', narration=''), tx((A,)), tx((A,), (A,)), tx((A,), (E,)), tx((A,), (E,), (AB,)), tx((X, '1', 'USD'), (X,)), mv(A, E, '5'), mv(AB, A, '-2.5'), mv(A, A, '0'), mv(X, A, '1'), tx((A, '1', 'USD')), tx((A, '0', 'USD')), tx((A, '1'), (E,)), tx((A, '1'), (E, '-1')), tx((A, None, 'USD'), (E, '1', 'USD')), tx((A, None, 'USD'), (E, None, 'USD')),
  tx((A, '1', ''), (E,)), tx(('', '1', 'USD'), ('',)), tx((A, '1', 'USD'), (E, '1', 'EUR'), (AB,)), tx((A, '1', 'USD'), (E, '1', 'EUR')),
  dated(dict(dct='note', acc=X, comment=''), '-0001-01-01'), dict(dct='custom', type='', values=[]), dict(dct='commodity', cur=''), dict(dct='price', cur='', price={'per-unit': Num('0'), 'cur': ''}), dict(dct='document', acc='', path=''), dict(dct='event', type='', description=''), dict(dct='query', name='', content='')]
def P(u, cs=None, ps=None, acc=L, cur='STK'):
    p = post(acc, u, cur)
    if cs is not None: p['cost-spec'] = cs
    if ps is not None: p['price-spec'] = ps
    return p
def spec(per=None, total=None, cur='USD', **k):
    d = dict(k)
    if per is not None: d['per-unit'] = Num(per)
    if total is not None: d['total'] = Num(total)
    if cur is not None: d['cur'] = cur
    return d
LOTS = [op(A), op(E), op(L, booking='fifo'), op(X, booking='strict-with-size')]
LOT_LETTERS = [tx(P(u, c, p, acc=a), (E,)) for a in (L, X) for u, c, p in [('3', spec('5'), None), ('-3', spec(cur=None), None), ('-5', spec(cur=None), None), ('-3', spec('5'), spec('6')), ('1', spec(total='0'), None), ('0', spec('5'), None), ('0', spec(total='5'), None), ('0', spec(cur=None), None), ('-1', spec('5', label=''), None), ('-1', spec(cur=None, date='0000-01-01'), None), ('3', spec('0'), None),
   ('3', spec('-5'), None), ('3', spec('5', '6'), None), ('3', spec('5', merge=True), None), (None, spec('5'), None), (None, spec(cur=None), None), ('3', spec(cur=None), spec('5')), ('3', spec('5', cur='EUR'), spec('5')), ('0', None, spec('0')), ('0', None, spec(total='0')), ('3', None, spec(cur=None)), ('3', None, {})]]
LOT_LETTERS += [tx(P('-3', spec(cur=None)), P('-3', spec(cur=None)), (E,)), tx(P('3', spec('5')), P('-3', spec(cur=None)), (E,)), tx(P('3', spec('5')), P('-6', spec(cur=None)), (E,)), cl(L), bal(L, '3', 'STK'), bal(L, '0', 'USD'), pad(L, X), pad(L, E)]
MULTI = ['2020-01-01', '0000-01-01', '9999-12-31', '-0001-12-31', '-9999-01-01']
def w_directives(chunk, r):
    for bean, cases in itertools.groupby(chunk, key=lambda c: c[2]):
        cases = list(cases)
        lines = [request('book', [d if 'date' in d else dict(d, date=c[3]) for d in c[1]]) for c in cases]
        out = ask(beanfile(bean), lines + [request('status')], patience=1000 if any(len(c) > 4 for c in cases) else 20)
        for c, l, a in zip(cases, lines, out):
            r.add('histories'); r.outcome((c[0], 'result' in a if isinstance(a, dict) else str(a)))
            if r.n['histories'] % 997 == 1: r.sample(dict(case=c[0], request=l[:600], answer=str(a)[:300]))
            judge(a, r, '%s: %s' % (c[0], l[:1500]), dict(bean=bean, lines=[l]), key=c[4] if len(c) > 4 else None)
        if not isinstance(out[-1], dict) or 'result' not in out[-1]: r.violation('status not answered afterwards: %r' % (out[-1],), dict(bean=bean, lines=lines[-50:] + [request('status')]))
def directives(deep):
    for date in MULTI:
        for d in DIRECTIVES: yield 'alone', [d], '', date
    for n in (2, 3):
        if n == 3:
            first = [op(A), op(E), op(L, 'STK', booking='fifo')]
            for s in itertools.product(DIRECTIVES, repeat=2 if not deep else 3): yield 'opened, then %d' % len(s), first + list(s), '', '2020-01-01'
        for s in itertools.product(DIRECTIVES if n == 2 or deep else DIRECTIVES[:36:2], repeat=n): yield '%d directives' % n, list(s), '', '2020-01-01'
    for opt in ['', 'NONE', 'HIFO', 'LIFO', 'AVERAGE', 'STRICT_WITH_SIZE']:
        bean = 'option "booking_method" "%s"\n' % opt if opt else ''
        for n in (1, 2, 3) if opt == '' and deep else (1, 2):
            for s in itertools.product(LOT_LETTERS, repeat=n): yield 'lots', LOTS + list(s), bean, '2020-01-01'
# -- numbers
NUMBERS = ['0', '-0.0', '1', '0.' + '0' * 27 + '1', '-0.' + '0' * 27 + '1', '0.5', '1' + '0' * 14, '1' + '0' * 14 + '.5', str(MAX), '-' + str(MAX), '7.9228162514264337593543950335', '0.7922816251426433759354395033', '3' + '0' * 27, '-1e-28', '1e-1', '0E0']
TOLS = ['', 'option "inferred_tolerance_multiplier" "1000000000000000"\n', 'option "inferred_tolerance_default" "*:79228162514264337593543950335"\n', 'option "inferred_tolerance_multiplier" "0.' + '0' * 27 + '1"\n', 'option "inferred_tolerance_multiplier" "-5"\n']
def finding(spec, dead):
    """the finding this death is to be put down to: what the case is apt to run into, confirmed by what the server said"""
    if spec == 'D17': return 'D17' if DIVISION.search(dead.err) or OVERFLOW.search(dead.err) else None
    if spec == 'D18': return 'D18' if re.search(r'beancount-parser-lima-[^\n]*\ncalled `Option::unwrap\(\)` on a `None` value', dead.err) else None
    if spec == 'D6': return 'D6' if OVERFLOW.search(dead.err) else None
    # an overflow is only to be expected (D6) where a sum or product of the numbers sent exceeds what a decimal holds: judged with exact arithmetic
    ns = [abs(Decimal(p)) for p in spec if p]
    tot = sum(ns, Decimal(0)); big = max([a * b for a, b in itertools.combinations(ns, 2)] + [a * a for a in ns] + [Decimal(0)])
    return 'D6' if OVERFLOW.search(dead.err) and tot + big >= MAX else None
def numbers(deep):
    NS = NUMBERS if deep else NUMBERS
    day = '2020-01-01'
    for t in TOLS:
        mult = re.search(r'multiplier" "([^"]*)"', t); m = mult.group(1) if mult else '1'
        k = lambda *ns: ns + (m,)
        for a, b in itertools.product(NS, repeat=2):
            for d in ([tx((A, a, 'USD'), (E, b, 'USD'))], [tx((A, a, 'USD'), (E, b, 'USD'), (L,))], [tx((A, a, 'USD'), (E,)), bal(A, b)], [bal(A, a, tol=b)], [tx(P(a, spec(b)), (E,))], [tx(P(a, spec(total=b)), (E,))], [tx(P(a, None, spec(b)), (E,))], [tx(P(a, None, spec(total=b)), (E,))],
                      [tx(P(None, spec(b)), (E, a, 'USD'))], [tx(P(a, spec()), (E, b, 'USD'))], [tx(P(a, None, spec()), (E, b, 'USD'))], [tx(P(a, spec('1')), (E,)), tx(P(b, spec(cur=None)), (E,))], [pad(A, E), bal(A, a), bal(A, b)], [pad(A, E), bal(A, a), pad(A, E), bal(A, b)], [tx((AB, a, 'USD'), (E,)), tx((A, b, 'USD'), (E,)), bal(A, '1')]):
                yield 'numbers', [op(A), op(AB), op(E), op(L, booking='fifo')] + d, t, day, k(a, b)
        if t and not deep: continue
        for a, b, c in itertools.product(NS, repeat=3):
            for d in ([tx((A, a, 'USD'), (E, b, 'USD'), (L, c, 'USD'))], [tx(P(a, spec(b, c)), (E,))], [tx(P(a, spec(b)), (E, c, 'USD'))], [tx(P(a, spec(b), spec(c)), (E,))], [tx((A, a, 'USD'), (E,)), bal(A, b, tol=c)], [tx(P(a, spec(b)), (E,)), tx(P(c, spec(cur=None)), (E,))], [tx((A, a, 'USD'), (E,)), bal(A, b), bal(A, c)]):
                yield 'three numbers', [op(A), op(AB), op(E), op(L, booking='fifo')] + d, t, day, k(a, b, c)
# -- spans, reports
TEXTS = {'ascii': '2020-01-01 open Assets:A\n; end\n', 'wide': '2020-01-01 open Assets:é日本 ; 𝄞\n2020-01-02 note Assets:é日本 "☃é"\n', 'empty': '', 'no line end': '2020-01-01 note Assets:A "é"', 'only wide': '; é☃𝄞', 'crlf': '; a\r\n; b\r\n'}
BIG = [2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63 - 1, 2 ** 64 - 1]
def w_spans(chunk, r):
    for name, text, before, spans in chunk:
        path = beanfile(text)
        lines = list(before)
        for s in spans:
            lines.append(request('parser.resolve-spans', [s]))
            lines.append(request('parser.format-errors', [dict(message='m', reason='r', span=s)]))
            lines.append(request('parser.format-warnings', [dict(message='é', reason='', span=[0, 0, 0], contexts=[['c', s], ['d', s]], related=[['r', s]], annotation='')]))
        out = ask(path, lines + [request('status')])
        for l, a in zip(lines, out):
            r.add('histories'); r.outcome((name, 'result' in a if isinstance(a, dict) else str(a)))
            if r.n['histories'] % 9973 == 1: r.sample(dict(case=name, request=l[:300], answer=str(a)[:300]))
            judge(a, r, '%s: %s' % (name, l), dict(bean=text, lines=before + [l]))
        if not isinstance(out[-1], dict) or 'result' not in out[-1]: r.violation('status not answered afterwards: %r' % (out[-1],), dict(bean=text, lines=lines[-50:]))
SYN = request('parser.create-synthetic-spans', [dict(name='s', content='é☃'), dict(name='', content=''), dict(name='s', content='x\n' * 5 + '𝄞')])
def spans(deep):
    for name, text in TEXTS.items():
        n = len(text.encode())
        offs = sorted(set(list(range(0, n + 3)) if n < 40 or deep else list(range(0, 8)) + list(range(n - 8, n + 3)) + list(range(24, 40)))) + BIG
        for src, before in ((0, []), (1, []), (1, [SYN]), (2, [SYN]), (3, [SYN]), (4, [SYN])):
            if src: offs2 = list(range(0, 14)) + BIG
            else: offs2 = offs
            ss = [[src, a, b] for a in offs2 for b in offs2]
            for i in range(0, len(ss), 300): yield 'spans of ' + name, text, before, ss[i:i + 300]
        ss = [[x, a, b] for x in BIG + [255, 256, 65535, 65536] for a in (0, 1, n) + tuple(BIG) for b in (0, 1, n) + tuple(BIG)]
        for i in range(0, len(ss), 300): yield 'sources of ' + name, text, [], ss[i:i + 300]
        ss = [[x, a, b] for x in (-1, 0, 1.5, '0', None, [], True, {}) for a in (-1, 0, 1.5, '0', None, 1e300) for b in (-1, 0, '0', None)]
        yield 'no spans', text, [], [json.loads(json.dumps(s), parse_float=Decimal) for s in ss]
# -- shapes: depth, size, strings
def w_shapes(chunk, r):
    for name, lines in chunk:
        out = ask(beanfile(''), lines + [request('status')], timeout=120)
        for l, a in zip(lines, out):
            r.add('histories'); r.outcome((name, 'result' in a if isinstance(a, dict) else str(a)))
            judge(a, r, '%s: %s' % (name, l[:200]), dict(bean='', lines=[l if len(l) < 100000 else l[:2000] + '... (%d characters)' % len(l)]))
        if not isinstance(out[-1], dict) or 'result' not in out[-1]: r.violation('%s: status not answered afterwards: %r' % (name, out[-1]), dict(bean='', lines=[l[:2000] for l in lines]))
def shapes(deep):
    n = 20000 if deep else 5000
    for k in (1, 10, 100, 126, 127, 128, 129, 1000, 100000):
        for o, c in ('[]', '{}'):
            inner = (o if o == '[' else '{"a":') * k + ('' if o == '[' else '1') + c * k
            yield 'depth %d' % k, [inner, '{"jsonrpc":"2.0","id":1,"method":"book","params":%s}' % inner, '{"jsonrpc":"2.0","id":%s,"method":"status"}' % inner, '{"jsonrpc":"2.0","id":1,"method":"status","x":%s}' % inner, '{"jsonrpc":"2.0","id":1,"method":"parser.resolve-spans","params":[%s]}' % inner, '{"jsonrpc":"2.0","id":1,"method":"book","params":[{"dct":"open","date":"2020-01-01","acc":"A","metadata":%s}]}' % inner]
    strings = ['\0', '\x7f', '\u200f\u202e', '￿', '𐀀', '\ud83d'.encode('utf-16', 'surrogatepass').decode('utf-16', 'replace'), '\r', '\n', '\t' * 100, 'x' * (10 ** 6), 'é' * 10 ** 5, '{}', '{0}', '%s%n', '\x1b[31m', 'a\u0301' * 100]
    for s in strings:
        q = json.dumps(s, ensure_ascii=True)
        raw = json.dumps(s, ensure_ascii=False)
        for x in {q, raw}:
            yield 'string', ['{"jsonrpc":"2.0","id":%s,"method":"status"}' % x, '{"jsonrpc":"2.0","id":1,"method":%s}' % x, '{"jsonrpc":%s,"id":1,"method":"status"}' % x, '{"jsonrpc":"2.0","id":1,"method":"status",%s:1}' % x] + \
                ['{"jsonrpc":"2.0","id":1,"method":"parser.create-synthetic-spans","params":[{"name":%s,"content":%s}]}' % (a, b) for a in (x, '"n"') for b in (x, '"c"')] + \
                ['{"jsonrpc":"2.0","id":1,"method":"parser.format-errors","params":[{"message":%s,"reason":%s,"span":[1,0,3],"contexts":[[%s,[1,0,1]]],"related":[[%s,[1,0,2]]],"annotation":%s}]}' % (x, x, x, x, x)] + \
                ['{"jsonrpc":"2.0","id":1,"method":"book","params":[%s]}' % d.replace('@', x) for d in ('{"dct":"open","date":"2020-01-01","acc":@}', '{"dct":"open","date":"2020-01-01","acc":"A","currencies":[@]}', '{"dct":"note","date":"2020-01-01","acc":"A","comment":@}', '{"dct":"txn","date":"2020-01-01","flag":@,"postings":[]}', '{"dct":"txn","date":"2020-01-01","flag":"*","payee":@,"narration":@,"postings":[]}', '{"dct":@,"date":"2020-01-01"}', '{"dct":"open","date":@,"acc":"A"}', '{"dct":"open","date":"2020-01-01","acc":"A","metadata":{@:{"string":@}}}', '{"dct":"open","date":"2020-01-01","acc":"A","tags":[@],"links":[@]}',
                   '{"dct":"open","date":"2020-01-01","acc":@},{"dct":"txn","date":"2020-01-01","flag":@,"payee":@,"postings":[{"acc":@,"units":1,"cur":@}]},{"dct":"balance","date":"2020-01-01","acc":@,"units":7,"cur":@}', '{"dct":"open","date":"2020-01-01","acc":"A"},{"dct":"txn","date":"2020-01-01","flag":"*","payee":@,"postings":[{"acc":"A","units":1,"cur":"U"},{"acc":"A","units":-1,"cur":"U"}]},{"dct":"balance","date":"2020-01-01","acc":"A","units":7,"cur":"U"}')]
    yield 'many directives', [request('book', [OPEN('A%d' % i) for i in range(n)]), request('book', [OPEN('A'), OPEN('B')] + [dict(mv('A', 'B', '1.50'), date='2020-01-01')] * n), request('book', [OPEN('A')] * n), request('book', [OPEN('A'), OPEN('B')] + [dict(bal('A', str(i % 2)), date='2020-01-01') for i in range(n // 5)]),
        request('book', [OPEN('A'), OPEN('B')] + [dict(mv('A', 'B', '1'), date='2020-01-01')] * (n // 5) + [dict(bal('A', '7'), date='2020-01-01')])]
    yield 'many postings', [request('book', [OPEN('A'), TXN(*[('A', '1', 'USD'), ('A', '-1', 'USD')] * (n // 10))]), request('book', [OPEN('A'), TXN(*[('A', '1', 'C%d' % i) for i in range(n // 20)], *[('A', '-1', 'C%d' % i) for i in range(n // 20)])]), request('book', [OPEN('A'), TXN(*[('A', None, None)] * n)])]
    yield 'long account', [request('book', [OPEN('A' + ':B' * k), TXN(('A' + ':B' * k, '1', 'USD')), dict(dct='balance', date='2020-01-01', acc='A' + ':B' * k, units=Num('1'), cur='USD')]) for k in (10, 1000, 100000)]
    yield 'many lots', [request('book', [OPEN('A'), OPEN('B')] + [dict(tx(post('A', '1', 'S', **{'cost-spec': spec(str(i))}), ('B',)), date='2020-01-01') for i in range(n // 20)] + [dict(tx(post('A', str(-u), 'S', **{'cost-spec': {}}), ('B',)), date='2020-01-02')]) for u in (1, n // 40, n // 20, n)]
    yield 'many spans', [request('parser.resolve-spans', [[0, 0, 1]] * n), request('parser.format-errors', [dict(message='m', reason='r', span=[0, 0, 1], contexts=[['c', [0, 0, 1]]] * 50, related=[['c', [0, 0, 1]]] * 50)] * 50), request('parser.create-synthetic-spans', [dict(name='n%d' % i, content='c%d' % i) for i in range(n)])]
    for line in ['"', '{', '{}' * 10, '{"jsonrpc":"2.0","id":1,"id":2,"method":"status"}', '{"jsonrpc":"2.0","id":1,"method":"status","method":"book"}', '{"jsonrpc":"2.0","id":1,"method":"book","params":null}', '{"jsonrpc":"2.0","id":1,"params":[],"method":"book"}', '{"jsonrpc":"2.0","id":1,"method":{"book":1}}', '[' + '[],' * 5000 + '[]]', 'null', 'true', '-', '1e999999999', '"\\ud800"', '\ufeff{"jsonrpc":"2.0","id":1,"method":"status"}', '\0']:
        yield 'line', [line]
# -- ledgers
def w_ledgers(chunk, r):
    for name, text, key in chunk:
        lines = [request('status'), request('parser.plugins'), request('parser.directives'), request('parser.options'), request('book'), request('book', BOOK_OK), request('parser.resolve-spans', [[0, 0, 5]]), request('status')]
        path, drop = ledger([('main.beancount', text)])
        try: out = ask(path, lines, timeout=120)
        finally: drop()
        for l, a in zip(lines, out):
            r.add('histories'); r.outcome((name, l[:50], 'result' in a if isinstance(a, dict) else str(a)[:20]))
            judge(a, r, 'ledger %r: %s' % (text[:300], l[:200]), dict(files=[['main.beancount', text[:5000] if isinstance(text, str) else text.decode('latin-1')[:5000]]], lines=[l]), key=key)
EXPR = ['1', '0', '0.0', '2.50', str(MAX), '(3)', '-1']
AT = ['balance Assets:A %s USD', 'price STK %s USD', 'custom "c" %s', 'custom "c" %s USD', '* "t"\n  Assets:A %s USD\n  Equity:E', '* "t"\n  Assets:A 3 STK {%s USD}\n  Equity:E', '* "t"\n  Assets:A 3 STK @ %s USD\n  Equity:E', '* "t"\n  Assets:A 3 STK @@ %s USD\n  Equity:E', 'open Assets:B\n  key: %s', 'balance Assets:A 1 ~ %s USD']
def value(e):
    """exact value of a op b, or None if it can't be held (D17)"""
    a, o, b = e
    a, b = Decimal(a.strip('()')), Decimal(b.strip('()'))
    if o == '/' and b == 0: return None
    v = a + b if o == '+' else a - b if o == '-' else a * b if o == '*' else a / b
    return v if abs(v) <= MAX else None
def ledgers(deep):
    for i, at in enumerate(AT):
        for a, o, b in itertools.product(EXPR, '+-*/', EXPR):
            bad = value((a, o, b)) is None
            # booking adds these up, too
            huge = str(MAX) in (a, b)
            yield 'arithmetic', '2020-01-01 open Assets:A\n2020-01-01 open Equity:E\n2020-01-02 ' + at % ('%s %s %s' % (a, o, b)) + '\n', 'D17' if bad else 'D6' if huge else None
    OPTS = ['title', 'booking_method', 'inferred_tolerance_multiplier', 'inferred_tolerance_default', 'operating_currency', 'name_assets', 'long_string_maxlines', 'account_rounding', 'plugin_processing_mode', 'documents', 'tolerance_multiplier', 'infer_tolerance_from_cost', 'conversion_currency', 'nonsense', '']
    for o in OPTS:
        for v in ['', ' ', '0', '-1', '1e5', 'x', 'USD', ':', 'USD:', ':1', '*:0', 'USD:1:2', 'é', 'USDé', 'é:1', 'EUR☃X:1', 'USD:é', str(MAX), str(MAX) + '0', 'TRUE', '\\"', 'x' * 5000, '99999999999999999999', '-0.5', 'NaN', '1/0']:
            for rest in ('', '2020-01-01 open Assets:A\n2020-01-01 *\n  Assets:A 1.5 USD\n  Assets:A -1.5 USD\n'): yield 'options', 'option "%s" "%s"\n%s' % (o, v, rest), 'D18' if o in ('operating_currency', 'inferred_tolerance_default', 'conversion_currency') and not v.isascii() else None
    for d in ['0000-01-01', '0001-01-01', '9999-12-31', '10000-01-01', '2020-00-01', '2020-13-01', '2020-02-30', '2020-01-00', '2020-1-1', '2020/01-01', '99999999999-01-01', '-2020-01-01', '2021-02-29', '1900-02-29']: yield 'dates', '%s open Assets:A\n%s * "x"\n' % (d, d), None
    toks = ['2020-01-01', 'open', '*', 'txn', 'Assets:A', '"s"', '1', 'USD', '{', '}', '{{', '@', '@@', '#t', '^l', 'k:', '\n', '  ', ',', '~', '-', '(', ')', '/', ';', 'option', 'plugin', 'include', 'pushtag', 'poptag', 'pushmeta', 'popmeta', 'balance', 'pad', 'TRUE', 'NULL', '|', '\x00', 'é', '\r', '"', '\\']
    for k in (1, 2) if not deep else (1, 2):
        for s in itertools.product(toks, repeat=k):
            for before in ('', '2020-01-01 ', '2020-01-01 * "x"\n  Assets:A ', '2020-01-01 * "x"\n  '): yield 'tokens', before + ' '.join(s), None
    for t in ['include "main.beancount"\n', 'include ""\n', 'include "."\n', 'include "/"\n', 'include "no*such*glob"\n', 'include "["\n', 'include "**"\n', 'include "é"\n', 'include "%s"\n' % ('x' * 5000), 'include "a\\0b"\n', 'include "/dev/null"\n', 'plugin ""\n', 'plugin "" ""\n', '\n' * 10000, ';' * 10000, '"' + 'x' * 10000, '"' + '\n' * 1000 + '"', 'pushtag #a\n' * 100, 'poptag #a\n' * 100, 'pushmeta a: 1\n' * 100, '2020-01-01 open Assets' + ':A' * 1000 + '\n', '2020-01-01 balance Assets:A ' + '(' * 500 + '1' + ')' * 500 + ' USD\n', '2020-01-01 balance Assets:A 1' + '+1' * 2000 + ' USD\n', '2020-01-01 * ' + '#t ' * 2000 + '\n', '2020-01-01 * "x"\n' + '  Assets:A 1 USD\n' * 2000, '2020-01-01 open Assets:A\n' * 2000, 'x' * 100000, '\r\r\r', '\x1a', b'\xff\xfe', b'2020-01-01 note Assets:A "\xc3"\n']: yield 'odd', t, None
def run(tier, seed):
    t = Result()
    deep = tier == 'thorough'
    end = time.time() + (720 if deep else 240)
    complete = True
    for fn, cases, n in ((w_shapes, shapes(deep), 1), (w_spans, spans(deep), 4), (w_ledgers, ledgers(deep), 8), (w_directives, numbers(deep), 120), (w_directives, directives(deep), 400)):
        _, d = fan_out(fn, cases, n, t, end)
        complete = complete and d
    return t, dict(states=t.n.get('histories', 0), transitions=t.n.get('histories', 0), traces_validated_against_impl=t.n.get('histories', 0), exhaustive=complete)
