"""Machinery shared by all checks: driving the real binaries, fanning cases out over processes,
recording violations, known findings and evidence."""
import sys, os, json, time, subprocess, itertools, tempfile, shutil, resource, hashlib, traceback, signal, atexit, random, select
from multiprocessing import get_context
from multiprocessing.connection import wait
from decimal import Decimal, getcontext
getcontext().prec = 200
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BIN = os.path.join(VERIF, '.build', 'target', 'release')
POD = os.path.join(BIN, 'limabean-pod')
LIMABEAN = os.path.join(BIN, 'limabean')
CLEAN_ENV = {k: v for k, v in os.environ.items()
             if not k.startswith('LIMABEAN') and k not in ('RUST_LOG', 'RUST_BACKTRACE')}
CLEAN_ENV['RUST_BACKTRACE'] = '0'
NPROC = int(os.environ.get('VERIF_NPROC', '0')) or min(8, os.cpu_count() or 8)

_tmp = None
def tmpdir():
    """a scratch directory of this check run (removed at exit)"""
    global _tmp
    if _tmp is None or not os.path.isdir(_tmp[0]) or _tmp[1] != os.getpid() and not os.path.isdir(_tmp[0]):
        d = tempfile.mkdtemp(prefix='limabean-mc-')
        _tmp = (d, os.getpid())
        atexit.register(_cleanup, d, os.getpid())
    return _tmp[0]
def _cleanup(d, pid):
    if os.getpid() == pid:
        shutil.rmtree(d, ignore_errors=True)

def loads(s):
    return json.loads(s, parse_float=Decimal, parse_int=Decimal)

class Num(str):
    """a number to be written into JSON with exactly this spelling"""

def dumps(x):
    """JSON with numbers spelt as given (Decimal and Num)"""
    if x is None: return 'null'
    if x is True: return 'true'
    if x is False: return 'false'
    if isinstance(x, Num): return str(x)
    if isinstance(x, str): return json.dumps(x, ensure_ascii=False)
    if isinstance(x, Decimal): return format(x, 'f')
    if isinstance(x, int): return str(x)
    if isinstance(x, dict): return '{' + ','.join(dumps(str(k)) + ':' + dumps(v) for k, v in x.items()) + '}'
    if isinstance(x, (list, tuple)): return '[' + ','.join(map(dumps, x)) + ']'
    raise TypeError(type(x))

def request(method, params=None, id=1):
    d = {'jsonrpc': '2.0', 'id': id, 'method': method}
    if params is not None: d['params'] = params
    return dumps(d)

class Dead:
    """what is recorded instead of an answer when the server died or hung on a request"""
    def __init__(self, how, err=''): self.how, self.err = how, err
    def __repr__(self): return 'DEAD(%s; %s)' % (self.how, self.err[-300:].strip())
    def __getitem__(self, k): raise KeyError(k)
    def get(self, k, d=None): return d

_beans = {}
def beanfile(text):
    """path of a file with this text"""
    h = hashlib.sha1(text.encode() if isinstance(text, str) else text).hexdigest()[:16]
    p = os.path.join(tmpdir(), h + '.beancount')
    if _beans.get(p) != text:
        q = '%s.%d' % (p, os.getpid())
        with open(q, 'wb') as f: f.write(text.encode() if isinstance(text, str) else text)
        os.rename(q, p)
        _beans[p] = text
    return p

_serial = 0
def ledger(files):
    """writes [(file name, text)] into a directory of their own: (path of the first, function removing them)"""
    global _serial
    _serial += 1
    d = os.path.join(tmpdir(), 'l%d.%d' % (os.getpid(), _serial))
    for name, text in files:
        p = os.path.join(d, name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'wb') as f: f.write(text if isinstance(text, bytes) else text.encode())
    return os.path.join(d, files[0][0]), lambda: shutil.rmtree(d, ignore_errors=True)

MEMORY = 2 << 30
def bound(p):
    """a process under test may not use up the machine's memory"""
    try: resource.prlimit(p.pid, resource.RLIMIT_AS, (MEMORY, MEMORY))
    except (OSError, ValueError): pass
    return p
def talk(p, data, timeout):
    """communicate, except that output without end is cut off: (stdout, exit status or None if it hung, stderr)"""
    out, err, end, sent = [], [], time.time() + timeout, 0
    most = (48 << 20) + 40 * len(data or b'')
    fds = {p.stdout: (out, [0]), p.stderr: (err, [0])}
    open_ = [f for f in fds if f]
    if p.stdin:
        if data: os.set_blocking(p.stdin.fileno(), False)
        else: p.stdin.close()
    writing = bool(data) and p.stdin
    hung = False
    while open_ or writing:
        left = end - time.time()
        rd, wr, _ = select.select(open_, [p.stdin] if writing else [], [], max(0, left))
        if not rd and not wr: hung = True; break
        if wr:
            try: sent += os.write(p.stdin.fileno(), data[sent:sent + 65536])
            except BlockingIOError: pass
            except OSError: sent = len(data)
            if sent >= len(data):
                writing = False
                try: p.stdin.close()
                except OSError: pass
        for f in rd:
            b = os.read(f.fileno(), 1 << 16)
            if not b: open_.remove(f); continue
            o, n = fds[f]; n[0] += len(b); o.append(b)
            if n[0] > most: hung = True; open_ = []; writing = False; del o[64:]; break
    if not hung:
        try: rc = p.wait(max(0.01, end - time.time()))
        except subprocess.TimeoutExpired: hung = True
    if hung: p.kill(); p.wait(); rc = None
    for f in (p.stdin, p.stdout, p.stderr):
        try:
            if f: f.close()
        except OSError: pass
    return b''.join(out), rc, b''.join(err)
def run_pod(path, data, timeout=60, env=None, args=None, cwd=None):
    """one server process: feed data (bytes) to its stdin, return (stdout bytes, exit status or None if it hung, stderr)"""
    p = bound(subprocess.Popen(args or [POD, 'serve', path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         env=env or CLEAN_ENV, cwd=cwd))
    out, rc, err = talk(p, data, timeout)
    return out, rc, err.decode('utf-8', 'replace')

def ask(path, lines, timeout=60, env=None, patience=20):
    """answers (parsed) to request lines from one server process; restarted after a death; Dead for the request that killed it.
    A line that is not JSON is returned as a Dead too, as is a missing answer."""
    res, hangs = [], 0
    rest = list(lines)
    while rest:
        out, rc, err = run_pod(path, ('\n'.join(rest) + '\n').encode(), timeout, env)
        got = out.decode('utf-8', 'replace').split('\n')
        tail = got.pop()
        ans = []
        for l in got:
            try: ans.append(loads(l))
            except ValueError: ans.append(Dead('not JSON: ' + l[:200]))
        if rc == 0 and not tail and len(ans) == len(rest):
            return res + ans
        if len(ans) > len(rest):
            return res + [Dead('%d answers to %d requests' % (len(ans), len(rest)), err)] * len(rest)
        if rc == 0:   # answers are missing: fall back to one by one
            if len(rest) == 1:
                return res + [Dead('no answer', err)]
            for l in rest: res += ask(path, [l], timeout, env)
            return res
        res += ans
        if len(ans) == len(rest):
            res[-1] = Dead('exit status %s' % rc, err)
            return res
        res.append(Dead('hang' if rc is None else 'exit status %s' % rc, err))
        rest = rest[len(ans) + 1:]
        hangs += rc is None
        if hangs > 1 or sum(isinstance(r, Dead) for r in res) > patience:   # hopeless; do not spend the budget on restarts
            return res + [Dead('not run, server keeps dying')] * len(rest)
    return res

class Session:
    """a server process talked to one request at a time, where a request depends on earlier answers"""
    def __init__(self, path, env=None, timeout=30):
        self.p = bound(subprocess.Popen([POD, 'serve', path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env or CLEAN_ENV))
        self.timeout, self.buf, self.raw, self.gone = timeout, b'', None, False
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def ask(self, line):
        self.raw = None
        if self.gone: return Dead('server gone')
        try:
            self.p.stdin.write(line.encode() + b'\n'); self.p.stdin.flush()
        except OSError: self.gone = True; return Dead('exit status %s' % self.p.wait())
        end = time.time() + self.timeout
        while b'\n' not in self.buf:
            if not select.select([self.p.stdout], [], [], max(0, end - time.time()))[0]: self.gone = True; self.p.kill(); return Dead('hang')
            b = os.read(self.p.stdout.fileno(), 1 << 20)
            if not b: self.gone = True; return Dead('exit status %s' % self.p.wait())
            self.buf += b
            if len(self.buf) > 256 << 20: self.gone = True; self.p.kill(); self.p.wait(); return Dead('answer without end')
        l, self.buf = self.buf.split(b'\n', 1)
        try: self.raw = l.decode(); return loads(self.raw)
        except ValueError: return Dead('not JSON: %r' % l[:200])
    def request(self, method, params=None, id=1): return self.ask(request(method, params, id))
    def close(self):
        """exit status at end of input"""
        try: self.p.stdin.close()
        except OSError: pass
        try: rc = self.p.wait(self.timeout)
        except subprocess.TimeoutExpired: self.p.kill(); self.p.wait(); rc = None
        self.p.stdout.close()
        return rc

_known = None
PROPERTY = None      # the one being checked: findings are listed for each property they break
def known_keys():
    global _known
    if _known is None:
        p = os.path.join(VERIF, 'known_findings.json')
        _known = {f['key'] for f in json.load(open(p))['findings'] if PROPERTY in (None, f['property'])} if os.path.exists(p) else set()
    return _known

# ---------------------------------------------------------------------------------------------
class Enough(BaseException):
    """a violation was found and time is running away (a server that hangs, say): don't go on with this chunk"""

class Result:
    def __init__(self):
        self.n = {}            # counters
        self.viol = []         # dicts: key, message, replay
        self.known = {}
        self.samples = []
        self.outcomes = {}     # distinct observed outcomes -> count
        self.states = set()
        self.since = None      # when a worker began with this
    def add(self, name, k=1): self.n[name] = self.n.get(name, 0) + k
    def outcome(self, o): self.outcomes[o] = self.outcomes.get(o, 0) + 1
    def sample(self, s):
        if len(self.samples) < 3: self.samples.append(s)
    def violation(self, message, case, key=None, **replay):
        """key identifies a failing input in known_findings.json; anything not listed there is a violation"""
        if key is not None and key in known_keys():
            self.known[key] = self.known.get(key, 0) + 1
            return
        self.add('violations')
        if len(self.viol) < 5:
            self.viol.append(dict(message=message, case=case, key=key, **replay))
        if self.since and time.time() - self.since > 15: raise Enough()
    def merge(self, o):
        for k, v in o.n.items(): self.n[k] = self.n.get(k, 0) + v
        self.viol += o.viol[:max(0, 20 - len(self.viol))]
        for k, v in o.known.items(): self.known[k] = self.known.get(k, 0) + v
        for s in o.samples:
            if len(self.samples) < 6: self.samples.append(s)
        for k, v in o.outcomes.items(): self.outcomes[k] = self.outcomes.get(k, 0) + v
        self.states |= o.states

def _worker(conn, fn):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    import ctypes
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)     # die with the parent
    while True:
        try: chunk = conn.recv()
        except EOFError: os._exit(0)
        r = Result(); r.since = time.time()
        try:
            try: fn(chunk, r)
            except Enough: pass
            conn.send(('ok', r))
        except Exception: conn.send(('error', traceback.format_exc()))

def chunks(it, n):
    it = iter(it)
    while True:
        c = list(itertools.islice(it, n))
        if not c: return
        yield c

def fan_out(fn, cases, chunk=500, result=None, deadline=None):
    """run fn(chunk, result) over all cases in worker processes; fn judges each case against the implementation.
    Returns the merged result and whether every case was run before the deadline (absolute time)."""
    total = result if result is not None else Result()
    if total.viol: return total, False
    tmpdir()
    start = time.time()
    ctx = get_context('fork')
    workers = {}
    try:
        for _ in range(NPROC):
            ours, theirs = ctx.Pipe()
            p = ctx.Process(target=_worker, args=(theirs, fn), daemon=True)
            p.start(); theirs.close()
            workers[ours] = p
        gen, complete, busy, idle = chunks(cases, chunk), True, set(), list(workers)
        more = True
        while True:
            while more and idle:
                if deadline and time.time() > deadline: more = complete = False; break
                c = next(gen, None)
                if c is None: more = False; break
                w = idle.pop(); w.send(c); busy.add(w)
            if not busy: break
            for w in wait(list(busy)):
                kind, r = w.recv()
                if kind == 'error': raise RuntimeError('harness error\n' + r)
                busy.discard(w); idle.append(w)
                total.merge(r)
            if len(total.viol) >= 20 or total.viol and time.time() - start > 60: complete = False; break      # enough
        return total, complete
    finally:
        for w, p in workers.items():
            p.kill(); p.join(); w.close()
