"""C23 the launcher starts the program its configuration selects: all combinations of the environment variables."""
import time
from ..launch import *
LEVEL = 'model_checking'
ROOTS = [None, '', '/' + '"q\\ ' * 40, '/src/limabean', 'rel/dir', '/with space/x', '/é/日本', '/a"b', 'C:\\limabean\\n', ' ', '{:x}', '/a;b', '/' + 'x' * 3000, '-M', '$HOME', '~', '/', '/a/', './', '..', ' /a', '/a ', '/a\n', '\n/a', '\t', '//a//b', '/a\\', '"', '\\"', "'", '/a:/b', '/a,b', '#{', '/a\udcff', '\udce9', '/a\r', '/a\x01']
JARS = [None, '', '/\udce9/l.jar', '/lib/limabean.jar', 'rel.jar', '/with space/l.jar', '/é.jar', '-jar', '/a"b.jar', 'C:\\l.jar', '$HOME', '/' + 'y' * 3000, '/', '/a/', ' /a', '/a ', '/a\n', '/a\\', '"', '/a.jar/', './l.jar', '/a:/b', '-Dx=y', 'http://x/l.jar']
DEPS = [None, '', 'a/b {:local/root "\udce9"}', ' '.join('a%d/b {:mvn/version "%d"}' % (i, i) for i in range(40)), ' ', 'x/y {:mvn/version "1.0"}', 'a/b {:local/root "p q"} c/d {:git/sha "0f", :git/url "u"}', 'é/é {:mvn/version "\\"1\\\\"}', 'x/y {:mvn/version "1"}\n']
ARGS = [[], ['report'], ['-v'], ['--version'], ['--beanfile', 'x.beancount', '--', 'a b', ''], ['-M'], ['-jar'], ['-Sdeps', '{}'], ['x', 'health']]
OTHER = [{}, {'LIMABEAN_BEANFILE': '/x', 'LIMABEAN_USER_CLJ': 'a:b', 'LIMABEAN_POD_LOG': '/nowhere/x', 'JAVA_HOME': '/none', 'JAVA_TOOL_OPTIONS': '-X', 'RUST_LOG': 'debug', 'HOME': '/none'}]
def w(chunk, r):
    for root, jar, deps, args, other, binary in chunk:
        env = dict(other, **{k: v for k, v in (('LIMABEAN_CLJ_LOCAL_ROOT', root), ('LIMABEAN_UBERJAR', jar), ('LIMABEAN_CLJ_DEPS', deps)) if v is not None})
        buildtime = BUILDTIME_JAR if binary else None
        x = launch(args, env, binary=binary)
        prog, own, warn = expected(env, buildtime)
        r.add('configurations'); r.outcome((prog, root is not None, jar is not None, deps is not None, tuple(args), bool(binary)))
        msg = None
        if len(x.started) != 1: msg = 'started %d programs; stderr %r' % (len(x.started), x.err[-300:])
        else: msg = wrong_start(x.started[0], env, args, buildtime)
        if not msg and x.rc != 0: msg = 'exit status %s' % x.rc
        if not msg:
            warned = b'LIMABEAN_CLJ_DEPS' in (x.err if '-v' not in args else x.err.split(b'\n"java"')[0])
            if warned != warn and not (prog == 'clojure' and '-v' in args): msg = 'warning on stderr %r, expected one: %s' % (x.err[:300], warn)
        if r.n['configurations'] % 499 == 1: r.sample(dict(env=env, args=args, started=[x.started[0].program] + [str(a)[:200] for a in x.started[0].args] if x.started else None))
        if msg: r.violation('LOCAL_ROOT=%r UBERJAR=%r DEPS=%r%s args %r: %s' % (root, jar, deps, ' with a jar at build time' if binary else '', args, msg), dict(env=env, args=args))
def cases(deep, built):
    for root, jar, deps in itertools.product(ROOTS, JARS, DEPS):
        plain = root in (None, '', '/src/limabean') and jar in (None, '', '/lib/limabean.jar')
        for args in ARGS if plain or deep else ARGS[:2]:
            for other in OTHER if plain or deep else OTHER[:1]: yield root, jar, deps, args, other, None
    for root, jar, deps in itertools.product(ROOTS[:4], JARS[:4], DEPS):
        for args in ARGS: yield root, jar, deps, args, {}, built
def run(tier, seed):
    t = Result()
    deep = tier == 'thorough'
    prepare(); path_dir()
    built = build_buildtime()
    _, done = fan_out(w, cases(True, built), 50, t, time.time() + (700 if deep else 240))
    return t, dict(states=t.n.get('configurations', 0), transitions=t.n.get('configurations', 0), traces_validated_against_impl=t.n.get('configurations', 0), exhaustive=done)
