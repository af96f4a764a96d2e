"""C24 arguments, streams, environment and exit status pass through the launcher."""
import time
from ..launch import *
LEVEL = 'model_checking'
AWKWARD = ['', 'a b', '"q"', "'", '-x', '--', '--version', '-v', '--verbose', 'health', '*', '$HOME', 'a\nb', 'é☃', b'\xff\xfe', '-J-Xmx1g', '-Sdeps', '-jar', 'a\\b', '=', '--versionX', '-V', '-vv', '--version=1', 'version', '-h', ' ', '{}', '@x', 'x' * 5000]
KNOWN = ['JAVA_TOOL_OPTIONS', '_JAVA_OPTIONS', 'JDK_JAVA_OPTIONS', 'JAVA_OPTS', 'JAVA_HOME', 'JAVA_CMD', 'CLASSPATH', 'CLJ_CONFIG', 'CLJ_CACHE', 'CLJ_JVM_OPTS', 'CLOJURE_HOME', 'GITLIBS', 'LANG', 'LC_ALL', 'TERM', 'COLUMNS', 'LINES', 'TZ', 'HOME', 'USER', 'SHELL', 'PWD', 'OLDPWD', 'TMPDIR', 'EDITOR', 'PAGER', 'NO_COLOR', 'INPUTRC', 'XDG_CONFIG_HOME', 'XDG_DATA_HOME', 'RUST_BACKTRACE', 'LIMABEAN_BEANFILE', 'LIMABEAN_POD', 'LIMABEAN_POD_LOG', 'LIMABEAN_POD_LOG_LEVEL', 'LIMABEAN_USER_CLJ', 'LIMABEAN_LOG', 'BEANCOUNT_FILE', 'http_proxy', 'HTTPS_PROXY', 'DEBUG', 'DISPLAY']
RUNTIMES = [{'LIMABEAN_UBERJAR': '/j.jar'}, {}, {'LIMABEAN_CLJ_LOCAL_ROOT': '/src'}]
def words(b): return b.decode('utf-8', 'replace')
def judge(x, env, args, do='e0', stdin=b'', ok=True):
    """what is wrong. do: only o, r, m, c and a final e or k occur"""
    verbose = '-v' in args or '--verbose' in args
    want_out = (b'limabean.rs', version().encode()) if '--version' in args else None
    lines = x.out
    if want_out:
        first, nl, lines = x.out.partition(b'\n')
        if not nl or want_out[1] not in first.split() : return 'version not printed first: %r' % x.out[:200]
    prog = expected(env)[0]
    if not ok:
        if x.started: return 'started %s' % x.started[0].program
        if x.rc != 1: return 'exit status %s' % x.rc
        if lines: return 'stdout %r' % lines[:200]
        if prog.encode() not in x.err: return 'no message naming %s on stderr: %r' % (prog, x.err[:300])
        return None
    if len(x.started) != 1: return 'started %d programs; stderr %r' % (len(x.started), x.err[-300:])
    s = x.started[0]
    msg = wrong_start(s, env, args)
    if msg: return msg
    out = b''.join({'o': b'stub out\n', 'm': b'stub 21.0.1 2023\nRuntime Env (build "x")\n', 'c': stdin}.get(c, b'') for c in do)
    err = b'stub err\nmore err\n' * do.count('r')
    if lines != out: return 'stdout is %r, expected %r' % (lines[:300], out[:300])
    if not x.err.endswith(err): return 'stderr is %r, expected it to end in %r' % (x.err[:300], err)
    own = x.err[:len(x.err) - len(err)]
    if verbose:
        bare = words(own)
        for a in [prog] + [words(a) for a in s.args]:
            if a and a.isascii() and all(c.isalnum() or c in '-_./ =' for c in a) and a not in bare: return 'command printed on stderr lacks %r: %r' % (a[:50], bare[:300])
    elif own: return 'launcher says %r on stderr' % own[:300]
    if '-k' in do or 'k' in do:
        n = int(do[do.index('k') + 1:])
        if x.rc != -n: return 'exit status %s, expected signal %d' % (x.rc, n)
    else:
        n = int(do[do.index('e') + 1:]) if 'e' in do else 0
        if x.rc != n: return 'exit status %s, expected %d' % (x.rc, n)
    e = dict(b.split(b'=', 1) for b in s.env)
    if e != x.env: return 'environment differs: %r' % {k: (x.env.get(k), e.get(k)) for k in set(e) | set(x.env) if e.get(k) != x.env.get(k)}
    if s.cwd != x.cwd: return 'working directory %r, expected %r' % (s.cwd, x.cwd)
    ign, fd = inherited()
    if s.ign != ign: return 'signals %s are ignored in the program started, %s by the caller' % (s.ign, ign)
    if s.fd != fd: return 'file descriptors %s are open in the program started, %s of the caller' % (s.fd, fd)
    return None
def w(chunk, r):
    for what, env, args, kw, ok in chunk:
        kw = dict(kw)
        if kw.get('cwd') == 'sub':
            kw['cwd'] = os.path.join(tmpdir(), 'sub dir é'); os.makedirs(kw['cwd'], exist_ok=True)
        if 'state' in kw:
            st = kw.pop('state'); prog = expected(env)[0]
            kw['path'] = path_dir(**{prog: st})
        x = launch(args, env, **kw)
        r.add('runs'); r.add(what); r.outcome((what, expected(env)[0], x.rc))
        msg = judge(x, env, args, kw.get('do', 'e0'), kw.get('stdin', b''), ok)
        if r.n['runs'] % 1999 == 1: r.sample(dict(case=what, env=env, args=[str(a)[:60] for a in args], rc=x.rc))
        if msg: r.violation('%s: env %r args %r %s: %s' % (what, env, args if len(str(args)) < 500 else str(args)[:500], {k: v for k, v in kw.items() if k != 'stdin'}, msg), dict(env=env, args=[str(a) for a in args], do=kw.get('do')))
def cases(deep):
    first = [a for a in AWKWARD if a != 'health']
    for env in RUNTIMES:
        for n in (0, 1, 2):
            for a in itertools.product(AWKWARD, repeat=n):
                if a[:1] != ('health',): yield 'arguments', env, list(a), {}, True
        if env != RUNTIMES[-1] or deep:
            for a in itertools.product(first, AWKWARD, AWKWARD): yield 'arguments', env, list(a), {}, True
        if deep:
            few = [a for a in AWKWARD if a in ('', 'a b', '--version', '-v', 'health', '--', '"q"', '-jar')]
            for a in itertools.product(few, repeat=4):
                if a[0] != 'health': yield 'arguments', env, list(a), {}, True
        yield 'many arguments', env, ['a%d' % i for i in range(5000)], {}, True
        yield 'many arguments', env, [''] * 3000, {}, True
        for n in list(range(3, 40)) + [64, 100, 255, 256, 257, 1000]:
            for a in ('-v', '--verbose', '--version', 'health', '--'):
                for at in sorted({0, 1, n // 2, n - 2, n - 1}):
                    if a != 'health' or at: yield 'one among many', env, ['a%d' % i for i in range(at)] + [a] + ['b%d' % i for i in range(n - at - 1)], {}, True
        yield 'long argument', env, ['x' * 100000, 'y' * 100000], {}, True
        for status in range(256): yield 'exit status', env, [], dict(do='e%d' % status), True
        for sig in list(range(1, 16)) + [24, 25, 26, 27, 29, 30, 31]: yield 'signal', env, ['x'], dict(do='k%d' % sig), True
        for do in ['oe0', 're0', 'ore3', 'roe0', 'oooe1', 'ork15', 'ce0', 'coe0', 'ocre2', 'mce0', 'ok9', '']:
            for args in ([], ['--version'], ['-v'], ['--verbose', '--version'], ['x', '--version', 'y'], ['-v', '-v']):
                for stdin in (b'', b'text\n', b'no line end', bytes(range(256)) * 300, b'\n' * 3, '日本\n'.encode() * 50000): yield 'streams', env, args, dict(do=do, stdin=stdin), True
        for other in [{}, {'A': ''}, {'RUST_LOG': 'trace'}, {'RUST_LOG': 'limabean=info'}, {k: 'v %d' % i for i, k in enumerate(KNOWN)}, {k: '' for k in KNOWN}, {'X': 'a\udcff', 'LIMABEAN_BEANFILE': '\udce9', '\udce8': 'y'}, {'LIMABEAN_BEANFILE': '/x y', 'LIMABEAN_POD_LOG': 'l', 'LANG': 'de_DE', 'é': 'ü', 'TZ': 'X', 'HOME': '', 'B': 'x' * 50000, 'C': 'a\nb=c'}, {'LIMABEAN_CLJ_DEPS': 'a/b {:mvn/version "1"}'} if 'LIMABEAN_UBERJAR' not in env else {'D': '='}]:
            for cwd in (None, '/', 'sub'):
                for args in ([], ['-v'], ['a', 'b c']): yield 'environment', dict(env, **other), args, dict(cwd=cwd, do='ore5'), True
        for state in STATES[1:]:
            for args in ([], ['-v'], ['--version'], ['--version', '--verbose'], ['a', ''], ['--', 'health']): yield 'cannot be started', env, args, dict(state=state), False
def run(tier, seed):
    t = Result()
    deep = tier == 'thorough'
    prepare(); path_dir()
    _, done = fan_out(w, cases(deep), 100, t, time.time() + (700 if deep else 240))
    return t, dict(states=t.n.get('runs', 0), transitions=t.n.get('runs', 0), traces_validated_against_impl=t.n.get('runs', 0), exhaustive=done)
