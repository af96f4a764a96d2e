"""Running the launcher with stand-ins for java and clojure, which record how they were started (mc/c/stub.c)."""
import re, shutil, errno
from .core import *
def prepare():
    """directory of variants of the stand-ins"""
    d = os.path.join(tmpdir(), 'stub')
    if not os.path.isdir(d):
        os.makedirs(d)
        subprocess.run(['gcc', '-O1', '-w', '-o', d + '/stub', os.path.join(VERIF, 'mc', 'c', 'stub.c')], check=True, env=dict(CLEAN_ENV, TMPDIR=tmpdir()))
    return d
STATES = ('ok', 'absent', 'not executable', 'directory', 'bad interpreter', 'dangling')
def place(d, name, state):
    p = os.path.join(d, name)
    if state == 'ok': os.link(prepare() + '/stub', p)
    elif state == 'not executable': open(p, 'w').write('#!/bin/sh\n'); os.chmod(p, 0o644)
    elif state == 'directory': os.mkdir(p)
    elif state == 'bad interpreter': open(p, 'w').write('#!/nonexistent/interpreter\n'); os.chmod(p, 0o755)
    elif state == 'dangling': os.symlink('/nonexistent', p)
_paths = {}
def path_dir(java='ok', clojure='ok'):
    """a directory for PATH in which java and clojure are in these states"""
    k = (java, clojure)
    if k not in _paths:
        d = tempfile.mkdtemp(prefix='path', dir=tmpdir())
        os.chmod(d, 0o755)
        place(d, 'java', java); place(d, 'clojure', clojure)
        _paths[k] = d
    return _paths[k]
class Run: pass
_n = 0
_base = None
def inherited():
    """signals ignored and descriptors open in a program started the way the launcher is"""
    global _base
    if _base is None:
        _base = ((), ())
        s = launch([], binary=prepare() + '/stub').started[0]
        _base = (s.ign, s.fd)
    return _base
def launch(args, env=None, path=None, do='e0', stdin=b'', cwd=None, binary=None, timeout=60):
    """runs the launcher: Run with started [(program, args, env, cwd, ...)], out, err, rc. env: as given, with PATH and the stand-in's variables added"""
    global _n
    _n += 1
    log = os.path.join(tmpdir(), 'log%d.%d' % (os.getpid(), _n))
    e = {os.fsencode(k): os.fsencode(v) for k, v in (env or {}).items()}
    e.setdefault(b'PATH', os.fsencode(path or path_dir()))
    e[b'STUB_LOG'] = log.encode(); e[b'STUB_DO'] = do.encode()
    r = Run()
    kw = dict(stdin=subprocess.PIPE) if isinstance(stdin, bytes) else dict(stdin=stdin)
    p = subprocess.Popen([binary or LIMABEAN] + list(args), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd or tmpdir(), restore_signals=True, **kw)
    r.pid, r.env, r.cwd = p.pid, e, os.path.realpath(cwd or tmpdir())
    try: r.out, r.err = p.communicate(stdin if isinstance(stdin, bytes) else None, timeout); r.rc = p.returncode
    except subprocess.TimeoutExpired: p.kill(); r.out, r.err = p.communicate(); r.rc = 'hang'
    r.started = []
    if os.path.exists(log):
        for rec in open(log, 'rb').read().split(b'\2\0')[:-1]:
            s = Run(); s.args, s.env, s.ign, s.fd = [], [], [], []
            for f in (rec[:-1] if rec.endswith(b'\0') else rec).split(b'\0\1'):
                k, _, v = f.lstrip(b'\1').partition(b'=')
                pass
                if k == b'start': s.program = v.decode()
                elif k in (b'arg', b'env', b'ign', b'fd'): getattr(s, 'args' if k == b'arg' else k.decode()).append(v)
                elif k == b'cwd': s.cwd = os.fsdecode(v)
                elif k == b'pid': s.pid = int(v.rstrip(b'\0'))
            r.started.append(s)
        os.unlink(log)
    return r

class Edn(Exception): pass
def edn(text):
    """the one form in text: maps as ('map', [(key, value)]), strings as ('string', s), others as their spelling"""
    i = 0
    def ws():
        nonlocal i
        while i < len(text) and (text[i].isspace() or text[i] == ','): i += 1
    def form():
        nonlocal i
        ws()
        if i >= len(text): raise Edn('ends early')
        c = text[i]
        if c in '{[(':
            end, items = {'{': '}', '[': ']', '(': ')'}[c], []
            i += 1
            while True:
                ws()
                if i >= len(text): raise Edn('unclosed ' + c)
                if text[i] == end: i += 1; break
                items.append(form())
            if c != '{': return (c, items)
            if len(items) % 2: raise Edn('odd map')
            kv = list(zip(items[::2], items[1::2]))
            if len({str(k) for k, _ in kv}) != len(kv): raise Edn('duplicate key')
            return ('map', sorted(kv, key=str))
        if c == '"':
            i += 1; out = ''
            while True:
                if i >= len(text): raise Edn('unclosed string')
                if text[i] == '"': i += 1; return ('string', out)
                if text[i] == '\\':
                    i += 1
                    if i >= len(text): raise Edn('unclosed string')
                    if text[i] not in '"\\ntrbf': raise Edn('escape \\' + text[i])
                    out += {'n': '\n', 't': '\t', 'r': '\r', 'b': '\b', 'f': '\f'}.get(text[i], text[i])
                else: out += text[i]
                i += 1
        if c in '}])': raise Edn('unexpected ' + c)
        j = i
        while i < len(text) and not text[i].isspace() and text[i] not in ',{}[]()"': i += 1
        return text[j:i]
    f = form()
    ws()
    if i < len(text): raise Edn('more after the form: ' + text[i:])
    return f

def version():
    import tomllib
    return tomllib.load(open('/repo/rust/Cargo.toml', 'rb'))['package']['version']
NATIVE = '--enable-native-access=ALL-UNNAMED'
def expected(env, buildtime=None):
    """(program, what the launcher itself has to pass, whether it has to warn)"""
    env = {k: v for k, v in env.items() if not re.search('[\udc80-\udcff]', v)}     # not UTF-8 is as not set
    deps = env.get('LIMABEAN_CLJ_DEPS')
    if 'LIMABEAN_CLJ_LOCAL_ROOT' in env: coord = ('map', [(':local/root', ('string', env['LIMABEAN_CLJ_LOCAL_ROOT']))])
    elif 'LIMABEAN_UBERJAR' in env: return 'java', env['LIMABEAN_UBERJAR'], deps is not None
    elif buildtime is not None: return 'java', buildtime, deps is not None
    else: coord = ('map', [(':mvn/version', ('string', version()))])
    more = edn('{%s}' % (deps or ''))[1]
    return 'clojure', ('map', [(':deps', ('map', sorted([('io.github.tesujimath/limabean', coord)] + more, key=str)))]), False
def wrong_start(s, env, args, buildtime=None):
    """what is wrong with how the program was started"""
    prog, own, warn = expected(env, buildtime)
    if s.program != prog: return 'started %s, expected %s' % (s.program, prog)
    a, want = list(s.args), [os.fsencode(x) for x in args]
    if len(want) and a[-len(want):] != want or len(a) < len(want): return 'arguments %r do not end in %r' % (a, want)
    own_args = a[:len(a) - len(want)]
    try: own_args = [x.decode() for x in own_args]
    except UnicodeDecodeError: return 'own arguments %r' % own_args
    if prog == 'java':
        if own_args[-2:] != ['-jar', own]: return 'java run with %r, expected -jar %r' % (own_args, own)
        if own_args[:-2] != [NATIVE]: return 'JVM options %r' % own_args[:-2]
        return None
    if own_args[-3:] != ['-M', '-m', 'limabean.main']: return 'clojure does not run the main function of limabean.main: %r' % own_args
    rest = own_args[:-3]
    if '-Sdeps' not in rest or rest.index('-Sdeps') + 1 >= len(rest): return 'no dependencies: %r' % rest
    k = rest.index('-Sdeps')
    deps = rest[k + 1]
    rest = rest[:k] + rest[k + 2:]
    if rest != ['-J' + NATIVE]: return 'clojure options %r' % rest
    try: got = edn(deps)
    except Edn as e: return 'dependencies are not EDN (%s): %s' % (e, deps)
    if got != own: return 'dependencies are %r, expected %r' % (got, own)
    return None
BUILDTIME_JAR = '/built in/limabean.jar'
def build_buildtime():
    """the launcher built with a jar configured at build time; the other binary is put back. None if it does not build."""
    v = os.path.join(VERIF, '.build', 'limabean-buildtime')
    keep = LIMABEAN + '.keep'
    shutil.copy2(LIMABEAN, keep)
    try:
        p = subprocess.run(['cargo', 'build', '--release', '--locked', '--offline', '--bin', 'limabean'], cwd='/repo/rust', env=dict(CLEAN_ENV, LIMABEAN_UBERJAR=BUILDTIME_JAR), capture_output=True)
        if p.returncode: raise RuntimeError(p.stderr.decode()[-2000:])
        shutil.copy2(LIMABEAN, v)
    finally: os.replace(keep, LIMABEAN)
    return v
