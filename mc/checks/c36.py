"""C36 a session answers from the ledger last loaded, survives errors; one expression is evaluated to an exit status."""
import time
from ..clj import *
LEVEL = 'model_checking'
ASSUMPTIONS = ['the Clojure sources run on the interpreter in /verif/clj, not on Clojure itself', 'command line parser and read-eval-print loop are stand-ins for clojure.tools.cli and rebel-readline']
F = """(require 'limabean.main)
(fn [{:keys [args in]}]
  (alter-var-root #'limabean.adapter.exception/*exception* (constantly nil))
  (doseq [s '[x u0 u1 u2 u3 u4]] (ns-unmap 'user s))
  (let [o (java.io.StringWriter.) e (java.io.StringWriter.)
        c (binding [*out* o *err* e *in* (java.io.PushbackReader. (java.io.StringReader. (or in "")))]
            (try (apply limabean.main/-main args) (catch Throwable t (or (exit-code* t) (str "thrown " t)))))]
    [c (str o) (str e)]))"""
HEAD = '2018-01-01 open Assets:A\n2018-01-01 open Equity:X\n'
TXN = '2020-01-02 * "p" "n"\n  Assets:A %s\n  Equity:X\n'
A = HEAD + TXN % '10.50 USD'
B = 'option "name_assets" "Assets"\noption "title" "t"\n' + HEAD + TXN % '2 EUR' + TXN % '3 EUR'
BAD = HEAD + TXN % '7 CHF' + 'foo\n'
UNBAL = HEAD + TXN % '7 CHF' + '2020-01-03 *\n  Assets:A 1 USD\n  Equity:X 1 USD\n'
PLUGIN = 'plugin "no.such.plugin"\n' + A
EMPTY = ''
# ledger: directives, (account, units, currency) of the inventory, or None if it fails
LEDGERS = {'A': (A, (3, [('Assets:A', '10.50M', 'USD'), ('Equity:X', '-10.50M', 'USD')])), 'B': (B, (4, [('Assets:A', '5', 'EUR'), ('Equity:X', '-5', 'EUR')])), 'empty': (EMPTY, (0, [])), 'bad': (BAD, None), 'unbalanced': (UNBAL, None), 'plugin': (PLUGIN, None), 'missing': (None, None)}
JOURNAL = {'A': '[["Assets:A" 10.50M]]', 'B': '[["Assets:A" 2] ["Assets:A" 3]]', 'empty': '[]'}
SHOWN = {'A': 'Assets:A  10.50 USD\n', 'B': 'Assets:A  5 EUR\n', 'empty': '\n'}
LOADED = {k: LEDGERS[k][1] for k in LEDGERS}
def paths():
    r = {k: beanfile(t) if t is not None else os.path.join(tmpdir(), 'nosuch.beancount') for k, (t, _) in LEDGERS.items()}
    return r
INV = '(vec (sort (map (fn [[a ps]] [a (mapv (juxt :units :cur) ps)]) (inventory))))'
def inv(l): return '[%s]' % ' '.join('["%s" [[%s "%s"]]]' % p for p in (LOADED[l] or (0, []))[1])
# what is asked after every step, and the answer in a state (ledger, exception, x)
PROBES = [('(count *directives*)', lambda s: str((LOADED[s[0]] or (0,))[0])),
          (INV, lambda s: inv(s[0])),
          ('(mapv (juxt :acc :units) (journal (f/acc "Assets:A")))', lambda s: JOURNAL.get(s[0], '[]')),
          ('(some? (:error *beans*))', lambda s: 'true' if s[0] in ('bad', 'unbalanced', 'plugin') else 'false'),
          ('(some? *registry*)', lambda s: 'true' if LOADED[s[0]] else None),
          ('(some-> *exception* :via last :message)', lambda s: '"%s"' % s[1] if s[1] else 'nil'),
          ('(identical? *directives* (:directives *beans* *directives*))', lambda s: 'true'),
          ('(.count (.children (java.lang.ProcessHandle/current)))', lambda s: '0' if s[0] == 'missing' else '1')]
LATE = [('(show (balances))', lambda s: SHOWN.get(s[0], '\n') + ':ok' if LOADED[s[0]] else None), ('(show (journal (f/date< 2000)))', lambda s: '\n:ok')]
# steps: expression, printed on stdout (None: whatever), text on stderr, next state
def steps():
    p = paths()
    yield from ((('load', k), '(load-beanfile %s)' % json.dumps(p[k])) for k in LEDGERS)
    yield ('throw', 'boom'), '(throw (ex-info "boom" {:a 1}))'
    yield ('throw', 'inner'), '(throw (ex-info "outer" {} (ex-info "inner" {})))'
    yield ('throw', 'Divide by zero'), '(/ 1 0)'
    yield ('throw', None), '(no-such-function)'
    yield ('filter', None), '(journal (f/date< "not a date"))'
    yield ('def', None), '(def x 7)'
    yield ('use', None), 'x'
def after(s, what):
    """(printed, on stderr, next state)"""
    led, exc, x = s
    k, v = what
    if k == 'load':
        if v == 'missing': return '', 'Exception: ', (v, '?', x)
        return ':ok', 'rror' if LOADED[v] is None and v != 'plugin' else '[limabean]', (v, exc, x)
    if k == 'throw': return '', 'Exception: ' + ('outer' if v == 'inner' else v or ''), (led, v or '?', x)
    if k == 'filter': return '', 'Exception: ', (led, '?', x)
    if k == 'def': return "#'user/x", '', (led, exc, True)
    return ('7', '', s) if x else ('', 'Exception: ', (led, '?', x))
MARK = re.compile(r':--(\d+)\n')
def session(seq, late):
    """source, and per expression what it prints and says"""
    s, src, want = ('A', None, False), ':--999\n(binding [*out* *err*] (println :--999))\n', []
    def add(e, out, err):
        nonlocal src
        src += e + '\n:--%d\n(binding [*out* *err*] (println :--%d))\n' % (len(want), len(want)); want.append((e, out, err))
    for what, e in seq:
        out, err, s = after(s, what)
        add(e, out, err)
        for q, a in PROBES + (LATE if late else []):
            if '*exception*' in q and s[1] == '?': add(q, None, '')
            else: add(q, a(s), '')
    return src, want
def pieces(text):
    out, last = {}, 0
    for m in MARK.finditer(text): out[int(m.group(1))] = text[last:m.start()]; last = m.end()
    return out
def w(chunk, r):
    p = paths()
    made = [session(seq, late) for seq, late in chunk]
    cs = [dict(args=['--beanfile', p['A']], **{'in': src}) for src, _ in made]
    for (seq, _), (src, want), c, ans in zip(chunk, made, cs, call(F, cs)):
        r.add('sessions')
        if failed(ans): m = why(ans)
        elif ans[0] != 0: m = 'exit status %s, stderr %s' % (ans[0], ans[2][-500:])
        else:
            m, out, err = None, pieces(ans[1]), pieces(ans[2])
            for i, (e, o, x) in enumerate(want):
                r.add('steps')
                # marks are printed by the loop, then nil by the expression that says them on stderr
                got, said = re.sub(r'^nil\n', '', out.get(i, 'nothing')), err.get(i, '')
                if o is not None and got.strip('\n') != o.strip('\n'): m = '%s prints %r, expected %r' % (e, got, o); break
                if x == '' and said.strip() or x not in said: m = '%s says %r, expected %r' % (e, said[:300], x or 'nothing'); break
        if m: r.violation('after %s: %s' % (' '.join(e for _, e in seq), m[:900]), dict(clj=F, cases=[c]))
        else:
            r.outcome(tuple(what for what, _ in seq)[-2:])
            if r.n['sessions'] % 97 == 1: r.sample(dict(session=[e for _, e in seq]))
# -- one expression ------------------------------------------------------------------------------------------------
# expression: printed per ledger, exit status
EVALS = [('(print 1)', lambda l: '1', 0), ('(show (balances))', lambda l: SHOWN.get(l), 0), ('(prn %s)' % INV, lambda l: inv(l) + '\n', 0), ('(count *directives*)', lambda l: '', 0), ('nil', lambda l: '', 0), ('false', lambda l: '', 0), ('(do (print "a") (throw (ex-info "boom" {})))', lambda l: 'a', 1), ('(/ 1 0)', lambda l: '', 1), ('(no-such-function)', lambda l: '', 1), ('no-such-name', lambda l: '', 1), ('(print 1', lambda l: '', 1), (')', lambda l: '', 1), ('', lambda l: '', 1), ('(journal (f/date< "not a date"))', lambda l: '', 1), ('(do (pprint 1) (print (str *ns*)))', lambda l: '1\nuser', 0), ('(print (type/directives []))', lambda l: None, 0), ('(print (nil? *exception*))', lambda l: 'true', 0), ('(print (str (version)))', lambda l: 'unknown', 0), ('(do (load-beanfile %s) (prn %s))', lambda l: inv('B') + '\n', 0)]
def w_eval(chunk, r):
    p = paths()
    cs, kws = [], []
    for l, env, i, order in chunk:
        e = EVALS[i][0]
        if e.startswith('(do (load'): e = e % (json.dumps(p['B']), INV)
        a = ([['--beanfile', p[l]]] if env != 'only' else []) + [['--eval', e]]
        if order: a.reverse()
        cs.append(dict(args=sum(a, [])))
        kws.append(dict(env={'LIMABEAN_BEANFILE': p[l if env == 'only' else env]}) if env else {})
    for (l, env, i, _), c, kw in zip(chunk, cs, kws):
        e, out, status = EVALS[i]
        ans = call(F, [c], **kw)[0]
        r.add('evaluations')
        if failed(ans): m = why(ans)
        elif l == 'missing': m = None if ans[0] == 1 and not ans[1] and 'no such beanfile ' in ans[2] and paths()[l] in ans[2] else 'exit status %s, prints %r, says %r' % tuple(ans)
        elif ans[0] != status: m = 'exit status %s, expected %s; says %s' % (ans[0], status, ans[2][-600:])
        elif out(l) is not None and ans[1].strip('\n') != out(l).strip('\n'): m = 'prints %r, expected %r' % (ans[1], out(l))
        elif status and 'Exception: ' not in ans[2] or not status and 'Exception' in ans[2]: m = 'says %r' % ans[2][-600:]
        else: m = None
        if m: r.violation('%s with ledger %s%s: %s' % (e, l, ', LIMABEAN_BEANFILE %s' % env if env else '', m[:900]), dict(clj=F, cases=[c]))
        else: r.outcome(('eval', e, l, ans[0]))
# -- command lines -------------------------------------------------------------------------------------------------
def command_lines(deep):
    p = paths()
    opts = [['--beanfile', p['A']], ['--beanfile', p['missing']], ['--beanfile', tmpdir()], ['--beanfile'], ['--eval', '(print 1)'], ['--eval'], ['-h'], ['--help'], ['--version'], ['-v'], ['--verbose'], ['extra'], ['--nosuch'], ['-x'], ['--beanfile=' + p['A']]]
    for n in range(4 if deep else 3):
        for c in itertools.permutations(opts, n): yield sum(c, []), False
        for c in itertools.permutations(opts[2:], n): yield sum(c, []), True
def outcome(args, env):
    """(status, on stdout, in stderr)"""
    o, errors, rest, i = {}, 0, [], 0
    while i < len(args):
        a = args[i]
        name, eq, val = a.partition('=')
        if name in ('--beanfile', '--eval'):
            if eq: o[name] = val
            elif i + 1 < len(args): i += 1; o[name] = args[i]
            else: errors += 1
        elif a in ('-h', '--help', '--version', '-v', '--verbose'): o[a.replace('-h', '--help') if a == '-h' else a] = True
        elif a.startswith('-'): errors += 1
        else: rest.append(a)
        i += 1
    bean = o.get('--beanfile', env)
    if '--help' in o: return 0, '', 'usage'
    if errors: return 1, '', 'limabean: argument parsing errors'
    if '--version' in o: return 0, 'limabean.clj unknown\n', ''
    if not bean: return 1, '', '--beanfile or $LIMABEAN_BEANFILE is required'
    if not os.path.isfile(bean): return 1, '', 'no such beanfile ' + bean
    if rest: return 1, '', 'superfluous arguments: ' + ' '.join(rest)
    if '--eval' not in o: return 0, '', '[limabean] '
    if o['--eval'] == '(print 1)': return 0, '1', '[limabean] '
    return None
def w_lines(chunk, r):
    p = paths()['A']
    for env in (False, True):
        these = [a for a, e in chunk if e == env]
        for a, ans in zip(these, call(F, [dict(args=a) for a in these], **(dict(env={'LIMABEAN_BEANFILE': p}) if env else {}))):
            r.add('command lines')
            want = outcome(a, p if env else None)
            if want is None: continue
            m = why(ans) if failed(ans) else None if ans[0] == want[0] and ans[1] == want[1] and want[2] in ans[2] else 'exit status %s, prints %r, says %r' % (ans[0], ans[1][:300], ans[2][:600])
            if m: r.violation('limabean %s%s: %s; expected %s' % (' '.join(a), ' with LIMABEAN_BEANFILE' if env else '', m, want), dict(clj=F, cases=[dict(args=a)]))
            else: r.outcome(('line', want))
# -- the user's own files ------------------------------------------------------------------------------------------
USER = {'good': '(def u%d (count *directives*))\n', 'second': '(def u%d (inc %s))\n', 'query': '(def u%d (count (journal (f/acc "Assets:A"))))', 'throws': '(def u%d 50)\n(throw (ex-info "user %d" {}))\n(def u%d 60)', 'unreadable': '(def u%d 70)\n(def', 'unknown': '(def u%d 80) (no-such-function)', 'missing': None, 'fn': '(ns user)\n(defn f%d [] 9)\n(def u%d (f%d))', 'redefines': '(def u0 -1) (def u%d 5)'}
def user_dir():
    d = os.path.join(tmpdir(), 'user.%d' % os.getpid()); os.makedirs(d, exist_ok=True); return d
def w_user(chunk, r):
    d, p = user_dir(), paths()
    for kinds, led in chunk:
        n = len(kinds)
        env = {'LIMABEAN_USER_CLJ': ':'.join('%s/u%d.clj' % (d, i) for i in range(n))}
        u, exc = {}, None
        for i, k in enumerate(kinds):
            f = '%s/u%d.clj' % (d, i)
            if os.path.exists(f): os.unlink(f)
            t = USER[k]
            count, lines = (LOADED[led] or (0,))[0], len(re.findall('A"', JOURNAL.get(led, '')))
            if k == 'second':
                t %= i, 'u%d' % (i - 1)
                if i and i - 1 in u: u[i] = u[i - 1] + 1
                else: exc = '?'
            elif t: t = t.replace('%d', str(i))
            if t is not None:
                with open(f, 'w') as h: h.write(t)
            if k == 'good': u[i] = count
            if k == 'query': u[i] = lines
            if k == 'throws': u[i] = 50; exc = 'user %d' % i
            if k == 'unreadable': u[i] = 70; exc = '?'
            if k == 'unknown': u[i] = 80; exc = '?'
            if k == 'missing': exc = '?'
            if k == 'fn': u[i] = 9
            if k == 'redefines': u[0] = -1; u[i] = 5
        bad = [i for i, k in enumerate(kinds) if k in ('throws', 'unreadable', 'unknown', 'missing') or k == 'second' and not (i and i - 1 in ok(kinds, i))]
        e = '(prn (mapv (fn [s] (let [x (some-> (resolve s) deref)] (when (number? x) x))) (quote [%s])) (str *ns*) (some-> *exception* :via last :message))' % ' '.join('u%d' % i for i in range(n))
        c = dict(args=['--beanfile', p[led], '--eval', e])
        ans = call(F, [c], env=env)[0]
        r.add('user files', n); r.add('starts')
        want = '[%s] "user" ' % ' '.join(str(u.get(i, 'nil')) for i in range(n)) + ('' if exc == '?' else '"%s"' % exc if exc else 'nil')
        if failed(ans): m = why(ans)
        elif ans[0] != 0: m = 'exit status %s: %s' % (ans[0], ans[2][-500:])
        elif not (ans[1].startswith(want) if exc == '?' else ans[1].strip() == want): m = 'yields %r, expected %r' % (ans[1], want)
        else:
            told = [int(x) for x in re.findall(r'Failed to load \S*/u(\d)\.clj', ans[2])]
            m = None if told == bad else 'says %r, expected failures of %s' % (ans[2][-600:], bad)
        if m: r.violation('user files %s, ledger %s: %s' % (' '.join(kinds), led, m), dict(clj=F, cases=[c]))
        else: r.outcome(('user', len(bad), exc is None))
def ok(kinds, i):
    """files before i which define their name"""
    u = set()
    for j, k in enumerate(kinds[:i]):
        if k == 'redefines': u |= {0, j}
        elif k == 'second':
            if j and j - 1 in u: u.add(j)
        elif k != 'missing': u.add(j)
    return u
def run(tier, seed):
    t = Result()
    deep = tier == 'thorough'
    end = time.time() + (800 if deep else 200)
    st = list(steps())
    # a session of every sequence of steps; longer ones only of those that change the state
    few = [x for x in st if x[0] in (('load', 'A'), ('load', 'B'), ('load', 'unbalanced'), ('load', 'missing'), ('throw', 'boom'), ('def', None), ('use', None))]
    seqs = [(list(s), n < 3) for n in (range(4) if deep else range(3)) for s in itertools.product(st, repeat=n)] + [(list(s), False) for s in itertools.product(few, repeat=4 if deep else 3)]
    d = [fan_out(w, seqs, 20, t, end)[1]]
    ev = [(l, env, e, o) for l in LEDGERS for e in range(len(EVALS)) for env, o in ((None, False), (None, True))] + [(l, env, e, False) for l in ('A', 'B') for e in range(len(EVALS)) for env in ('only', 'A', 'missing')]
    ev.sort(key=lambda x: str(x[1]))
    d.append(fan_out(w_eval, ev, 20, t, end)[1])
    d.append(fan_out(w_lines, command_lines(deep), 40, t, end)[1])
    us = [(k, led) for n in (1, 2, 3, 4) if deep or n < 4 for k in itertools.product(USER, repeat=n) for led in (('A', 'B', 'unbalanced') if n < 3 else 'A') if n < 3 or deep or 'second' in k or 'redefines' in k[1:]]
    d.append(fan_out(w_user, us, 30, t, end)[1])
    n = sum(t.n.get(k, 0) for k in ('sessions', 'evaluations', 'command lines', 'starts'))
    return t, dict(states=t.n.get('steps', 0) + n, transitions=t.n.get('steps', 0) + n, traces_validated_against_impl=n, exhaustive=all(d))
