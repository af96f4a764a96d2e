"""C25 limabean health: exit 0 iff the selected runtime can work; limabean itself is never started."""
import time
from ..launch import *
from .c23 import DEPS
LEVEL = 'model_checking'
OUTS = {'me0': (True, ['stub 21.0.1 2023', 'Runtime Env (build "x")'], []), 'e0': (True, [], []), 're0': (True, [], []), 'oe0': (True, ['stub out'], []), 'ore0': (True, ['stub out'], []), 'e1': (False, [], []), 're1': (False, [], ['stub err', 'more err']), 'ore2': (False, [], ['stub err', 'more err']), 'oe255': (False, [], []), 'k9': (False, [], []), 'rk6': (False, [], ['stub err', 'more err']), 'me127': (False, [], [])}
JARS = {'file': True, 'empty file': True, 'directory': True, 'absent': False, 'parent absent': False, 'below a file': False, 'dangling': False, 'link': True, 'with space é': True, 'empty': False, 'relative': True, 'relative absent': False, 'too long': False, 'not readable': True, 'quote"\\': True,
        'blank at its end': True, 'blank before': True, 'blank added': False, 'newline added': False, 'slash added': False, 'dots': True, 'upper case': False, '~': False}
def jar(kind):
    """path of such a jar, relative ones to the directory the launcher runs in"""
    d = os.path.join(tmpdir(), 'jars')
    if not os.path.isdir(d):
        q = '%s.%d' % (d, os.getpid())
        os.makedirs(q + '/dir')
        for n in ('l.jar', 'sp é.jar', 'q"\\.jar', 'secret.jar', 'b.jar ', ' c.jar'): open(os.path.join(q, n), 'w').write('x')
        open(q + '/empty.jar', 'w').close(); os.symlink('l.jar', q + '/link.jar'); os.symlink('/nonexistent/x', q + '/dangling.jar'); os.chmod(q + '/secret.jar', 0)
        os.rename(q, d)
    return {'file': d + '/l.jar', 'empty file': d + '/empty.jar', 'directory': d + '/dir', 'absent': d + '/nope.jar', 'parent absent': d + '/nope/l.jar', 'below a file': d + '/l.jar/x', 'dangling': d + '/dangling.jar', 'link': d + '/link.jar', 'with space é': d + '/sp é.jar', 'empty': '',
            'relative': 'l.jar', 'relative absent': 'm.jar', 'too long': '/' + 'x' * 300, 'not readable': d + '/secret.jar', 'quote"\\': d + '/q"\\.jar',
            'blank at its end': d + '/b.jar ', 'blank before': ' c.jar', 'blank added': d + '/l.jar ', 'newline added': d + '/l.jar\n', 'slash added': d + '/l.jar/', 'dots': d + '/../jars/./l.jar', 'upper case': d + '/L.JAR', '~': '~/l.jar'}[kind]
def w(chunk, r):
    for env, kind, java, clojure, do, args in chunk:
        env = dict(env)
        if kind: env['LIMABEAN_UBERJAR'] = jar(kind)
        jar('file')
        x = launch(['health'] + args, env, path=path_dir(java, clojure), do=do, cwd=os.path.join(tmpdir(), 'jars'))
        prog, own, warn = expected(env)
        state = java if prog == 'java' else clojure
        works, described, reason = OUTS[do]
        runs = state == 'ok'
        good = runs and (prog == 'clojure' or works and JARS[kind])
        r.add('configurations'); r.outcome((prog, state, do, kind, good))
        err = x.err.decode('utf-8', 'replace')
        what = 'health%s with %s %s doing %s%s, other program %s' % (args or '', prog, state, do, ', jar %s' % kind if kind else '', clojure if prog == 'java' else java)
        if r.n['configurations'] % 199 == 1: r.sample(dict(case=what, rc=x.rc, stderr=err[:300]))
        msg = None
        if x.rc != (0 if good else 1): msg = 'exit status %s, expected %d (stderr %r)' % (x.rc, 0 if good else 1, err[:300])
        elif x.out: msg = 'stdout %r' % x.out[:200]
        elif any(s.program != prog or s.args != [b'--version'] for s in x.started): msg = 'started %s' % [(s.program, s.args) for s in x.started]
        elif runs and not x.started: msg = '%s not asked for its version' % prog
        elif good and not all(l in err for l in [prog] + described): msg = 'not described on stderr: %r' % err[:300]
        elif good and prog == 'java' and own not in err: msg = 'jar not described on stderr: %r' % err[:300]
        elif not good and not err.strip(): msg = 'no reason on stderr'
        elif not runs and prog not in err: msg = 'reason does not name %s: %r' % (prog, err[:300])
        elif runs and not good and not works and not all(l in err for l in ['java'] + reason): msg = 'reason lacks what java said: %r' % err[:300]
        elif runs and not good and works and own not in err: msg = 'reason does not name the jar: %r' % err[:300]
        elif ('LIMABEAN_CLJ_DEPS' in err) != warn: msg = 'warning %r, expected one: %s' % (err[:300], warn)
        if msg: r.violation(what + ': ' + msg, dict(env=env, args=['health'] + args, do=do, java=java, clojure=clojure))
def cases(deep):
    for args in [[], ['x'], ['--verbose'], ['health']] if not deep else [[], ['x'], ['--verbose'], ['health'], ['--version'], ['a', 'b', ''], ['-v', 'report']]:
        for deps in DEPS[:3] if not deep else DEPS:
            extra = {} if deps is None else {'LIMABEAN_CLJ_DEPS': deps}
            for java, clojure in itertools.product(STATES, STATES):
                for do in OUTS:
                    if args and do not in ('me0', 'e1', 're1'): continue
                    for env, kind in [({}, None), ({'LIMABEAN_CLJ_LOCAL_ROOT': '/src\udcff'}, None), ({'LIMABEAN_CLJ_LOCAL_ROOT': '/src\udcff'}, 'absent'), ({'LIMABEAN_UBERJAR': '/\udcff'}, None), ({'LIMABEAN_CLJ_LOCAL_ROOT': '/src'}, None), ({'LIMABEAN_CLJ_LOCAL_ROOT': '/src'}, 'file'), ({'LIMABEAN_CLJ_LOCAL_ROOT': ''}, 'absent')] + [({}, k) for k in (JARS if do in ('me0', 'e1') or deep else ('file', 'absent'))]:
                        if deps is not None and (java, clojure) != ('ok', 'ok') and not deep: continue
                        yield dict(env, **extra), kind, java, clojure, do, args
def run(tier, seed):
    t = Result()
    deep = tier == 'thorough'
    prepare()
    for a, b in itertools.product(STATES, STATES): path_dir(a, b)
    jar('file')
    _, done = fan_out(w, cases(deep), 40, t, time.time() + (700 if deep else 240))
    return t, dict(states=t.n.get('configurations', 0), transitions=t.n.get('configurations', 0), traces_validated_against_impl=t.n.get('configurations', 0), exhaustive=done)
