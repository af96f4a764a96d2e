"""C39 a golden test passes exactly if the output is what the golden files say; generated golden output is that."""
import time, itertools, shutil
from ..clj import *
LEVEL = 'model_checking'
ASSUMPTIONS = ['the Clojure sources run on the interpreter in /verif/clj, not on Clojure itself', 'matcho and zprint are stand-ins: strict matching as matcho documents it, data printed as EDN']
GPATH = dict(path=PATH + ':' + REPO + '/clj-test/src')
PRELUDE = r"""(require 'limabean.test 'limabean.test.create-golden 'limabean 'limabean.adapter.edn 'limabean.adapter.show '[clojure.test :as t] '[clojure.string :as str] '[clojure.java.io :as io])
"""
# what a ledger gives, as golden files would say it: EDN by the printer itself, text by show
GIVES = PRELUDE + r"""(fn [path]
  (binding [*err* (java.io.StringWriter.)]
    (let [b (limabean/load-beanfile path)
          parts (fn parts [x] (cond (map? x) (into (sorted-map) (map (fn [[k v]] [k (parts v)])) x) (set? x) (into #{} (map parts) x) (sequential? x) (mapv parts x) :else x))
          edn (fn [k] (when (contains? b k) (pr-str (parts (get b k)))))
          show (fn [f] (let [w (java.io.StringWriter.)] (try (binding [*out* w] (limabean.adapter.show/show (f))) (str w) (catch Exception e nil))))]
      {"raw-xf-directives.edn" (edn :raw-xf-directives) "directives.edn" (edn :directives) "error.edn" (edn :error)
       "inventory" (show #(limabean/inventory b)) "journal" (show #(limabean/journal b)) "rollup" (show #(limabean/rollup (limabean/inventory b)))
       :raw? (contains? b :raw-xf-directives) :booked? (contains? b :booked-xf-directives)})))"""
# every value differing from an EDN value in one place
MUTANTS = PRELUDE + r"""(fn [s]
  (letfn [(at [v i x] (assoc v i x))
          (leaf [x] (cond (string? x) [(str x "x") "" nil] (keyword? x) [:other (name x)] (boolean? x) [(not x) nil] (nil? x) [1 false] (integer? x) [(inc x) (- x)] (decimal? x) [(+ x 0.01M) (- x) (str x)]
                            (instance? java.time.LocalDate x) [(.plusDays x 1) (str x)] :else [:other]))
          (ms [x] (remove #(= % x)
            (cond (map? x) (concat (map #(dissoc x %) (keys x)) [(assoc x :extra 1)] (mapcat (fn [[k v]] (map #(assoc x k %) (ms v))) x))
                  (set? x) (concat (map #(disj x %) x) [(conj x "extra")])
                  (sequential? x) (let [x (vec x) n (count x)]
                    (concat (map #(into (subvec x 0 %) (subvec x (inc %))) (range n)) (map #(into (subvec x 0 (inc %)) (subvec x %)) (range n)) [(conj x nil) (conj x {})]
                            (map #(assoc x % (x (inc %)) (inc %) (x %)) (range (dec n))) (mapcat (fn [i] (map #(assoc x i %) (ms (x i)))) (range n))))
                  :else (leaf x))))]
    (mapv pr-str (ms (limabean.adapter.edn/read-string s)))))"""
DO = PRELUDE + r"""(fn [{:keys [root what]}]
  (reset! t/results [])
  (let [o (java.io.StringWriter.) e (java.io.StringWriter.)
        x (try (binding [*out* o *err* e]
                 (doseq [w what] (case w "gen" (limabean.test.create-golden/update-all {:root-dir root}) "api" (limabean.test/api-tests root) "app" (limabean.test/app-tests root)))
                 nil)
               (catch Throwable t (str t)))]
    {:results @t/results :failed x :out (str o) :found (mapv (fn [m] [(:test-name m) (:beanfile m) (str (:golden-dir m))]) (limabean.test/find-golden-tests root))}))"""
READ = PRELUDE + "(fn [[a b]] (= (limabean.adapter.edn/read-string a) (limabean.adapter.edn/read-string b)))"
H = '2018-01-01 open Assets:A\n2018-01-01 open Equity:X\n'
LEDGERS = {'plain': H + '2020-01-02 * "p" "n" #t ^l\n  kk: 2020-05-05\n  Assets:A 10.50 USD\n  Equity:X\n2020-01-03 * "é"\n  Assets:A 1 EUR\n  Equity:X -1 EUR\n',
           'raw plugin': 'plugin "limabean.test.plugins.set-narration" "{:narration \\"ruled\\"}"\n' + H + '2020-01-02 * "p" "n"\n  Assets:A 10.50 USD\n  Equity:X\n',
           'both plugins': 'plugin "limabean.test.plugins.set-narration" "{:narration \\"ruled\\"}"\nplugin "limabean.test.plugins.adjust-postings-after-booking" "{\\"Assets:A\\" 5}"\n' + H + '2020-01-02 * "n"\n  Assets:A 10.50 USD\n  Equity:X\n',
           'lots': H + '2020-01-02 * "buy"\n  Assets:A 3 STK {4.00 USD, "l"}\n  Equity:X\n2020-02-02 * "sell"\n  Assets:A -1 STK {}\n  Equity:X 4.00 USD\n2020-03-01 pad Assets:A Equity:X\n2020-03-02 balance Assets:A 7 ~ 0.1 EUR\n2021-01-01 custom "x" TRUE 1 USD\n',
           'empty': '', 'not parsed': H + 'what is this\n', 'not booked': H + '2020-01-02 * "u"\n  Assets:A 1 USD\n  Equity:X 1 USD\n2020-01-03 close Assets:None\n',
           'not booked after plugins': 'plugin "limabean.test.plugins.set-narration" "{:narration \\"ruled\\"}"\n' + H + '2020-01-02 * "u"\n  Assets:A 1 USD\n  Equity:X 1 USD\n'}
EDN = ('raw-xf-directives.edn', 'directives.edn', 'error.edn')
TEXTS = ('inventory', 'rollup', 'journal')
FYI = {'raw-xf-directives.edn': 'raw-xf-directives.fyi.beancount', 'directives.edn': 'directives.fyi.beancount'}
_gives = {}
def gives(name):
    if name not in _gives: _gives[name], = call(GIVES, [beanfile(LEDGERS[name])], **GPATH)
    return _gives[name]
def tree(files):
    p, drop = ledger([('.keep', '')] + list(files))
    return os.path.dirname(p), drop
def listing(root):
    r = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            if f == '.keep': continue
            p = os.path.join(d, f)
            with open(p, 'rb') as x: r[os.path.relpath(p, root)] = x.read().decode('utf-8', 'replace')
    return r
def where(root, s, name):
    """spans name no files, so what a ledger gives is the same wherever it is"""
    return s
def tests_of(files):
    """(name, golden files) of the tests below a root, by the names of files alone"""
    r = []
    for f in files:
        b = os.path.basename(f)
        if not b.endswith('.beancount') or b.endswith('.fyi.beancount'): continue
        g = f[:-len('.beancount')] + '.golden/'
        if any(x.startswith(g) for x in files): r.append((os.path.basename(f[:-len('.beancount')]), f, g))
    return r
def judge_tests(case, files, ans, root):
    """files: name -> (content, which ledger's, whether right) of golden files and ledgers"""
    if failed(ans): return why(ans)
    if ans['failed']: return 'the tests fail with %s' % ans['failed']
    want = tests_of(files)
    if sorted(map(tuple, ans['found'])) != sorted((n, os.path.join(root, f), os.path.join(root, g[:-1])) for n, f, g in want): return 'tests found: %s, expected %s' % (ans['found'], [w[1] for w in want])
    exp = sorted(((bool(files[g + k][1]), [n]) for n, f, g in want for k in EDN + TEXTS if g + k in files), key=repr)
    got = sorted(((bool(a), list(b)) for a, b in ans['results']), key=repr)
    if exp != got: return 'golden tests give %s, expected %s' % (got, exp)
    return None
def w(chunk, r):
    """cases: ('tests', name, {file: (content, right)}) or ('gen', name, ledger, existing files, content)"""
    for case in chunk:
        if case[0] == 'tests':
            _, name, files = case
            root, drop = tree([(f, c) for f, (c, _) in files.items()])
            ans, = call(DO, [dict(root=root, what=['api', 'app'])], **GPATH)
            r.add('golden trees tested'); r.add('golden files compared', sum(1 for f in files if '.golden/' in f and not f.endswith('.beancount')))
            msg = judge_tests(case, files, ans, root)
            if listing(root) != {f: c for f, (c, _) in files.items()} and not msg: msg = 'testing changed files: %s' % sorted(set(listing(root).items()) ^ {(f, c) for f, (c, _) in files.items()})[:3]
            what = dict(files={f: c for f, (c, _) in files.items()})
        else:
            _, name, led, existing, content = case
            g = gives(led)
            if failed(g): r.violation('%s: %s' % (name, why(g)), dict(ledger=LEDGERS[led])); continue
            before = {'sub/t.beancount': LEDGERS[led], 'other.txt': 'x', 'n.fyi.beancount': 'not a ledger'}
            for k in existing: before['sub/t.golden/' + k] = content if content is not None else g.get(k) or 'x'
            root, drop = tree(before.items())
            bad = not failed(g) and bool(g.get('error.edn'))
            made = {'error.edn'} if bad else {k for k in ('directives.edn', 'raw-xf-directives.edn') + TEXTS if k in existing} | ({'directives.edn'} if g['booked?'] else set()) | ({'raw-xf-directives.edn'} if g['raw?'] else set())
            stale = [k for k in existing if k not in made] # left alone; what tests say of these is another matter
            ans, = call(DO, [dict(root=root, what=['gen'] if stale else ['gen', 'api', 'app'])], **GPATH)
            r.add('golden directories generated')
            after = listing(root)
            msg = None
            if failed(ans): msg = why(ans)
            elif ans['failed']: msg = 'generating fails with %s' % ans['failed']
            else:
                names = set(before) | {'sub/t.golden/' + k for k in made} | {'sub/t.golden/' + FYI[k] for k in made if k in FYI}
                if set(after) != names: msg = 'files after generating: %s, expected %s' % (sorted(after), sorted(names))
                else:
                    for f in before:
                        if not (f.startswith('sub/t.golden/') and f.split('/')[-1] in made) and after[f] != before[f]: msg = 'generating changed %s' % f
                    for k in sorted(made):
                        a = after['sub/t.golden/' + k]
                        same, = call(READ, [[a, g[k]]], **GPATH) if k in EDN else [a == g[k]]
                        if same is not True: msg = 'generated %s is %r, expected %r (%s)' % (k, a[:600], (g[k] or '')[:600], same)
                    if not msg and not stale and [x for x in ans['results'] if not x[0]]: msg = 'tests of what was generated fail: %s' % ans['results']
                    if not msg and not stale and len(ans['results']) != len(made): msg = '%d tests of %d generated files' % (len(ans['results']), len(made))
            what = dict(ledger=LEDGERS[led], existing=existing, content=content)
        r.add('replayed'); r.outcome((case[0], name)); r.add('transitions')
        if r.n['replayed'] % 151 == 1: r.sample(dict(kind=case[0], case=name, **{k: str(v)[:400] for k, v in what.items()}))
        if msg: r.violation('%s: %s' % (name, msg), what)
        drop()
def cases(deep):
    names = list(LEDGERS)
    for led in names:
        g = gives(led)
        if failed(g): raise RuntimeError('%s cannot be loaded: %s' % (led, why(g)))
        files = [k for k in EDN + TEXTS if g.get(k) is not None and not (k in ('directives.edn',) + TEXTS and g.get('error.edn'))]
        right = {'t.beancount': (LEDGERS[led], True), **{'t.golden/' + k: (g[k], True) for k in files}}
        yield ('tests', led + ' as it is', right)
        # each subset of golden files, each right or wrong
        for k in (EDN + TEXTS):
            for c in ((g.get(k), True), ('{:wrong 1}' if k in EDN else 'wrong\n', False)):
                if c[0] is not None and (k in files or not c[1]): yield ('tests', led + ' ' + k, {'t.beancount': right['t.beancount'], 't.golden/' + k: c})
        for n in (2, 3, 4, 5):
            for ks in itertools.combinations(files, n):
                for bad in [None] + list(ks): yield ('tests', led + ' some', {'t.beancount': right['t.beancount'], **{'t.golden/' + k: (g[k], True) if k != bad else ('[{}]' if k in EDN else g[k] + ' ', False) for k in ks}})
        # every single difference
        for k in files:
            if k in EDN:
                ms, = call(MUTANTS, [g[k]], **GPATH)
                if failed(ms): raise RuntimeError('%s of %s: %s' % (k, led, why(ms)))
            else:
                ls = g[k].split('\n')
                ms = ['\n'.join(ls[:i] + ls[i + 1:]) for i in range(len(ls))] + ['\n'.join(ls[:i] + [l + x] + ls[i + 1:]) for i, l in enumerate(ls) for x in (' ', 'x')] + ['\n'.join(ls[:i] + [l] + ls[i:]) for i, l in enumerate(ls)]
                ms += [g[k][:i] + ('0' if g[k][i] != '0' else '1') + g[k][i + 1:] for i in range(len(g[k]))] + [g[k].replace('  ', ' '), g[k].upper(), '', g[k] + g[k]]
                ms = [m for m in dict.fromkeys(ms) if m != g[k]]
            for m in ms[:: 1 if deep or len(ms) < 150 else len(ms) // 150 + 1]: yield ('tests', led + ' differing', {'t.beancount': right['t.beancount'], 't.golden/' + k: (m, False)})
        # generation over every subset of what is there
        for n in range(7):
            for ex in itertools.combinations(EDN + TEXTS, n):
                for content in ('', 'x', None):
                    if n or content is None: yield ('gen', led, led, list(ex), content)
    # which files are tests
    a, b = gives('plain'), gives('lots')
    A, B = (LEDGERS['plain'], True), (LEDGERS['lots'], True)
    ga, gb = {k: (a[k], True) for k in ('directives.edn', 'inventory')}, {k: (b[k], True) for k in ('directives.edn', 'journal', 'rollup')}
    places = ['a', 'sub/b', 'sub/deep/c', 'x.y', 'beancount', 'my.beancount', 'fyi', 'a b', 'é', 'sub/a']
    for p, q in itertools.permutations(places, 2):
        for wrong in (None, p, q):
            files = {p + '.beancount': A, q + '.beancount': B}
            for x, gx in ((p, ga), (q, gb)):
                for k, v in gx.items(): files['%s.golden/%s' % (x, k)] = v if x != wrong else ('{}' if k in EDN else 'no', False)
            yield ('tests', 'two ledgers', files)
        yield ('tests', 'one without golden files', {p + '.beancount': A, q + '.beancount': B, **{'%s.golden/%s' % (p, k): v for k, v in ga.items()}})
    for p in places:
        G = {'%s.golden/%s' % (p, k): v for k, v in ga.items()}
        yield ('tests', 'not ledgers', {p + '.fyi.beancount': A, p + '.fyi.golden/directives.edn': ('{}', False)})
        yield ('tests', 'not ledgers', {p + 'beancount.txt': A, p + '.bean': B, **G})
        yield ('tests', 'beside golden output', {p + '.beancount': A, **G, p + '.golden/directives.fyi.beancount': ('nonsense', True), p + '.golden/directives.fyi.golden/directives.edn': ('{}', False)})
        yield ('tests', 'other files in the golden directory', {p + '.beancount': A, **G, p + '.golden/other.edn': ('{}', True), p + '.golden/directives': ('x', True)})
def run(tier, seed):
    t = Result()
    deep = tier == 'thorough'
    _, done = fan_out(w, cases(deep), 20, t, time.time() + (800 if deep else 240))
    return t, dict(states=t.n.get('golden files compared', 0) + t.n.get('golden directories generated', 0), transitions=t.n.get('transitions', 0), traces_validated_against_impl=t.n.get('replayed', 0), exhaustive=done)
