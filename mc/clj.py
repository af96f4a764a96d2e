"""The Clojure half: the sources below /repo/clj run on the interpreter of /verif/clj, one JVM per worker process.
call(source of a function, cases) applies it to every case."""
import subprocess, os, select, time, json, re
from .core import *
CLJ = os.path.join(VERIF, 'clj')
CLASSES = os.path.join(VERIF, '.build', 'clj')
REPO = '/repo'
PATH = ':'.join([CLJ + '/lib'] + [REPO + p for p in ('/clj/src', '/clj/resources', '/clj/test-plugins/src')])
class Jvm:
    def __init__(self, env=None, path=None, cwd=None, utf8=True, bin=None):
        e = dict(CLEAN_ENV, **(env or {}))
        e['PATH'] = (bin or BIN) + ':' + e.get('PATH', '/usr/bin:/bin')
        self.err = open(os.path.join(tmpdir(), 'jvm.%d.err' % os.getpid()), 'ab')
        self.p = subprocess.Popen(['java', '-Xss1m', '-Xlog:disable', '-Xlog:all=warning:stderr', '-XX:-UsePerfData', '-XX:+DisplayVMOutputToStderr', '-Xmx1500m', '-XX:+UseSerialGC', '-XX:CICompilerCount=2', '-Djava.io.tmpdir=' + tmpdir(), *(['-Dfile.encoding=UTF-8', '-Dsun.jnu.encoding=UTF-8'] if utf8 else []), '-Dclj.path=' + (path or PATH), '-cp', CLASSES, 'clojure.lang.Main', CLJ + '/worker.clj'],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, env=dict(e, LC_ALL='C.UTF-8' if utf8 else 'C'), cwd=cwd or tmpdir())
        self.buf = b''
    def call(self, f, cases, timeout=120):
        """one answer per case; Dead if the JVM went away or hung"""
        line = (dumps({'f': f, 'cases': cases}) + '\n').encode()
        try:
            end, out, sent = time.time() + timeout, self.p.stdout, 0
            os.set_blocking(self.p.stdin.fileno(), False)
            while True:
                i = self.buf.find(b'\n')
                if i >= 0: break
                left = end - time.time()
                if left <= 0: self.close(); return [Dead('hang')] * len(cases)
                rd, wr, _ = select.select([out], [self.p.stdin] if sent < len(line) else [], [], left)
                if wr:
                    try: sent += os.write(self.p.stdin.fileno(), line[sent:sent + 65536])
                    except BlockingIOError: pass
                if rd:
                    b = os.read(out.fileno(), 1 << 20)
                    if not b: rc = self.p.wait(); return [Dead('JVM exit %s' % rc, open(self.err.name).read()[-2000:])] * len(cases)
                    self.buf += b
            l, self.buf = self.buf[:i], self.buf[i + 1:]
            return loads(l.decode())
        except OSError as x:
            self.close(); return [Dead('JVM gone: %s' % x, open(self.err.name).read()[-2000:])] * len(cases)
    def close(self):
        if self.p.poll() is None: self.p.kill()
        self.p.wait()
        for f in (self.p.stdin, self.p.stdout, self.err):
            try: f.close()
            except OSError: pass
class Gap(Exception):
    """the sources use something of Clojure which the interpreter lacks: nothing can be said of them"""
LACKS = re.compile(r'(Unable to resolve (symbol|classname|var): |No such (var|namespace): |Could not locate |Can.t take value of a macro: |ClassNotFound)(?!\S*limabean|f/)')
_jvm = {}
def jvm(**kw):
    """this process's JVM (started again if it is gone)"""
    k = (os.getpid(), json.dumps(kw, sort_keys=True))
    j = _jvm.get(k)
    if j is None or j.p.poll() is not None:
        if j: j.close()
        _jvm[k] = j = Jvm(**kw)
    return j
def call(f, cases, timeout=120, **kw):
    """a JVM that dies of a case is started again for the others"""
    cases = list(cases)
    a = jvm(**kw).call(f, cases, timeout)
    if a and isinstance(a[0], dict) and a[0].get('$compile') and LACKS.match(a[0].get('root') or ''): raise Gap(a[0]['root'])
    if len(cases) > 1 and isinstance(a[0], Dead):
        h = len(cases) // 2
        return call(f, cases[:h], timeout, **kw) + call(f, cases[h:], timeout, **kw)
    return a
def failed(a): return isinstance(a, Dead) or isinstance(a, dict) and ('$ex' in a or '$exit' in a)
def why(a): return repr(a) if isinstance(a, Dead) else 'exit %s' % a['$exit'] if '$exit' in a else '%s: %s %s' % (a['$ex'], a.get('message'), a.get('data') or '')
