"""C01 one answer per request line, with its id: every short history and every window of requests."""
import time
from ..rpc import *
LEVEL = 'model_checking'
L = letters()
def judge(seq, got, complete, rc, led):
    if rc != 0: return 'exit status %s' % rc
    if not complete: return 'last answer has no line end'
    if len(got) != len(seq): return '%d answers to %d lines' % (len(got), len(seq))
    for i, (l, g) in enumerate(zip(seq, got)):
        m = wrong_answer(g, l, led)
        if m: return 'request %d (%s): %s' % (i, l.name, m)
    return None
def w(chunk, r):
    paths = {}
    for name, led, seq, how in chunk:
        if led not in paths: paths[led] = place(led)
        path = paths[led][0]
        ls = [l if isinstance(l, Letter) else L[l] for l in seq]
        lines = [encode(l.line) for l in ls]
        if how == 'one by one':      # each has to be answered before the next is sent
            with Session(path, timeout=20) as s:
                got = []
                for l, b in zip(ls, lines):
                    s.p.stdin.write(b + b'\n'); s.p.stdin.flush()
                    buf = b''
                    end = time.time() + 20
                    while b'\n' not in buf:
                        if not select.select([s.p.stdout], [], [], max(0, end - time.time()))[0]: break
                        x = os.read(s.p.stdout.fileno(), 1 << 16)
                        if not x: break
                        buf += x
                    if b'\n' not in buf: break
                    got += buf.split(b'\n')[:-1]
                rc, complete = s.close(), True
                msg = 'request %d (%s) is not answered before another is sent' % (len(got), ls[len(got)].name) if len(got) < len(ls) else None
                msg = msg or judge(ls, got, complete, rc, led)
        elif how == 'pieces':
            data = b'\n'.join(lines) + b'\n'
            with Session(path, timeout=20) as s:
                for i in range(0, len(data), 7): s.p.stdin.write(data[i:i + 7]); s.p.stdin.flush()
                out, rc, _ = talk(s.p, b'', 20)
                msg = judge(ls, out.split(b'\n')[:-1], out.endswith(b'\n') or not ls, rc, led)
        else:
            got, complete, rc, err = raw_lines(path, b'\n'.join(lines) + (b'\n' if how == 'lines' and lines else b''))
            msg = judge(ls, got, complete, rc, led)
        r.add('histories'); r.add('requests', len(ls)); r.outcome((name, led))
        if r.n['histories'] % 499 == 1: r.sample(dict(case=name, ledger=led, requests=[str(l.line)[:200] for l in ls[:6]]))
        if msg: r.violation('%s, %s ledger: %s' % (name, led, msg), dict(files=[[n, t if isinstance(t, str) else t.decode('latin-1')] for n, t in LEDGERS[led]], lines=[b.decode('utf-8', 'replace') for b in lines[-50:]]))
    for _, drop in paths.values(): drop()
KNOWN = ['status', 'parser.plugins', 'parser.directives', 'parser.options', 'parser.format-errors', 'parser.format-warnings', 'parser.resolve-spans', 'parser.create-synthetic-spans', 'book']
def envelopes():
    """lines each a little off a request"""
    S = '{"jsonrpc":"2.0","id":"e","method":"status"}'
    for c in [chr(i) for i in range(1, 127) if not chr(i).isspace() and not 28 <= i <= 31] + ['\u20ac', '\ufeff', '{}', '[]', '""', 'null', '//', '/**/', '#x', S, ',' + S]:
        yield Letter('after %r' % c, S + c, None, code=BAD)
        yield Letter('before %r' % c, c + S, None, code=BAD)
    for m in KNOWN:
        near = {m.upper(), m.title(), m.capitalize(), m + ' ', ' ' + m, m[:-1], m[1:], m + 's', m.replace('-', '_'), m.replace('-', ''), m.replace('.', '/'), m.replace('.', '-'), 'parser.' + m, 'limabean.' + m, m.partition('.')[2], m + '.', m + '-x', m + '\\u0000', '', 'rpc.discover', 'parser', 'parser.', 'ping', 'exit', 'shutdown'}
        for x in sorted(near - set(KNOWN)): yield Letter('method ' + x, '{"jsonrpc":"2.0","id":"m","method":"%s","params":[]}' % x, '"m"', code=BAD)
    for v in ('2.0', '2', 'null', 'true', '["2.0"]', '{}', '{"v":"2.0"}'):
        yield Letter('version ' + v, '{"jsonrpc":%s,"id":"v","method":"status"}' % v, '"v"', code=BAD)
        if v[0] != '2': yield Letter('method ' + v, '{"jsonrpc":"2.0","id":"v","method":%s}' % v, '"v"', code=BAD)
    for k in ('Jsonrpc', 'JSONRPC', 'json-rpc', 'jsonRpc', 'version', ''): yield Letter('version as ' + k, '{"%s":"2.0","id":"k","method":"status"}' % k, '"k"', code=BAD)
    for k in ('Method', 'METHOD', 'name', 'call', ''): yield Letter('method as ' + k, '{"jsonrpc":"2.0","id":"k","%s":"status"}' % k, '"k"', code=BAD)
    for k in ('Id', 'ID', 'id ', '_id', 'request-id'): yield Letter('id as ' + k, '{"jsonrpc":"2.0","%s":"k","method":"status"}' % k, 'null')
def cases(deep):
    n = range(len(L))
    leds = list(LEDGERS)
    for led in leds:
        yield 'nothing', led, (), 'lines'
        for k in (1, 2):
            for seq in itertools.product(n, repeat=k):
                yield 'history', led, seq, 'lines'
                if k == 1 and L[seq[0]].line != '': yield 'unended', led, seq, 'unended'
        for seq in itertools.product(n, repeat=2):
            if L[seq[-1]].line != '' and (deep or led == 'good'): yield 'unended', led, seq, 'unended'
        yield 'one by one', led, tuple(n), 'one by one'
        yield 'one by one', led, tuple(n)[::-1], 'one by one'
        yield 'pieces', led, tuple(n), 'pieces'
        for i in IDS:
            if led in ('good', 'unreadable', 'broken'):
                for m in ('status', 'parser.plugins', 'parser.directives', 'parser.options', 'book', 'nope'):
                    yield 'ids', led, (R(m, m, id=i, code=BAD if m == 'nope' else None, needs_parse=m != 'status'),), 'lines'
                    yield 'ids', led, (Letter(m, '{"method":"%s","jsonrpc":"2.0","params":null,"id":%s}' % (m, i), i, code=BAD if m == 'nope' else None, needs_parse=m != 'status'), 0), 'lines'
                yield 'ids', led, (R('book', 'book', BOOK_BAD, id=i, good=3, needs_parse=True), R('book', 'book', BOOK_OK, id=i, needs_parse=True), R('x', 'parser.format-errors', [REPORT], id=i), R('x', 'parser.resolve-spans', [SPAN], id=i), R('x', 'parser.create-synthetic-spans', [dict(name='n', content='c')], id=i),
                    Letter('version', '{"jsonrpc":"2.1","id":%s,"method":"status"}' % i, i, code=-32600), Letter('no method', '{"jsonrpc":"2.0","id":%s}' % i, i, code=BAD)), 'lines'
    versions = [v for k in range(6 if deep else 5) for v in map(''.join, itertools.product('20.1 v', repeat=k)) if v != '2.0']
    versions += ['2.0' + x for x in ('-beta', '.0', ',1', '\u00a0', '\u0660')] + ['%d.%d' % (a, b) for a in range(4) for b in range(12) if (a, b) != (2, 0)] + ['02.0', '2', '2.00', '+2.0', 'JSON-RPC 2.0', 'null']
    versions = list(dict.fromkeys(versions))
    env = list(envelopes())
    for led in ('good', 'broken', 'unreadable'):
        for k in range(0, len(env), 50): yield 'envelopes', led, tuple(x for e in env[k:k + 50] for x in (e, 0)), 'lines'
        for k in range(0, len(versions), 200): yield 'versions', led, tuple(x for v in versions[k:k + 200] for x in (Letter('version ' + v, '{"jsonrpc":"%s","id":"v","method":"status"}' % v, '"v"', code=-32600),)) + (0,), 'lines'
        for size in (8191, 8192, 8193, 65535, 65536, 1 << 20, 1 << 24):
            big = Letter('big', '{"jsonrpc":"2.0","id":5,"method":"status","x":"%s"}' % ('x' * size), '5')
            wrong = [Letter('big wrong', t % ('x' * size), i, code=c) for t, i, c in (('{"jsonrpc":"2.0","id":5,"method":"nope","x":"%s"}', '5', BAD), ('{"method":"book","params":[{"x":"%s"}],"id":"6","jsonrpc":"2.0"}', '"6"', BAD), ('{"jsonrpc":"2.0","method":"%s","id":7}', '7', BAD), ('{"jsonrpc":"%s","method":"status","id":8}', '8', -32600),
                      ('{"jsonrpc":"2.0","method":"parser.resolve-spans","params":"%s","id":9}', '9', BAD))]
            yield 'long line', led, (0, big, *wrong, 3, Letter('big garbage', 'x' * size, code=BAD), 0), 'lines'
        yield 'many', led, tuple(n) * 100, 'lines'
        yield 'many blank', led, (14,) * 2000, 'lines'
    for led in ('good', 'broken', 'unreadable') if not deep else leds:
        for s in windows(len(L), 3, 64): yield 'windows of 3', led, tuple(s), 'lines'
    if deep:
        for led in ('good', 'unreadable'):
            for seq in itertools.product(list(n)[::3], repeat=4): yield 'history', led, seq, 'lines'
        for s in windows(24, 4, 500): yield 'windows of 4', 'good', tuple(x * 2 % len(L) for x in s), 'lines'
def run(tier, seed):
    t = Result()
    deep = tier == 'thorough'
    _, done = fan_out(w, cases(deep), 25, t, time.time() + (700 if deep else 240))
    return t, dict(states=t.n.get('histories', 0), transitions=t.n.get('requests', 0), traces_validated_against_impl=t.n.get('histories', 0), exhaustive=done)
