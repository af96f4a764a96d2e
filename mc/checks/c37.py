"""C37 wherever limabean-pod dies, a load gives exactly the ledger or an error, show its table or an error, and the session goes on."""
import time
from ..clj import *
LEVEL = 'model_checking'
ASSUMPTIONS = ['the Clojure sources run on the interpreter in /verif/clj, not on Clojure itself', 'a pod that dies is a stand-in before the real one which stops passing on its answers']
# a load through a faulty pod, what there is afterwards, and another load through a good one
F = r"""(require 'limabean 'limabean.user '[limabean.adapter.pod :as pod])
(defn plain [d] (let [f #(dissoc % :span-p)] (cond-> (f (into {} d)) (:postings d) (update :postings (fn [ps] (mapv f ps))))))
(def stages [:raw-directives :raw-xf-directives :booked-directives :booked-xf-directives :directives])
(defn state [path]
  (let [e (java.io.StringWriter.)
        thrown (binding [*out* e *err* e] (try (limabean.user/load-beanfile path) nil (catch Exception x (str (.getMessage x)))))
        b limabean.user/*beans*]
    (into {:thrown thrown :said (str e) :error (boolean (:error b)) :where (vec (sort (map name (keys (:error b))))) :options limabean.user/*options*
           :count (count limabean.user/*directives*) :registry (some? limabean.user/*registry*)
           :same (= limabean.user/*directives* (get b :directives []))
           :journal (mapv #(select-keys % [:acc :units :cur :bal]) (limabean.user/journal))}
          (keep (fn [k] (when-let [ds (get b k)] [k (mapv plain ds)])) stages))))
(fn [[path good]]
  (let [a (state path) b (state good)]
    (when-let [p (:pod limabean.user/*beans*)] (pod/stop p))
    (alter-var-root #'limabean.user/*beans* (constantly nil))
    (limabean.user/load-beanfile good)
    (when-let [p (:pod limabean.user/*beans*)] (pod/stop p))
    (alter-var-root #'limabean.user/*beans* (constantly nil))
    [a b (.count (.children (java.lang.ProcessHandle/current)))]))"""
S = r"""(require 'limabean.user)
(fn [v] (let [o (java.io.StringWriter.) r (binding [*out* o] (try [(limabean.user/show v)] (catch clojure.lang.ExceptionInfo x [nil (str (.getMessage x)) (:user-error (ex-data x))]))) ] [r (str o)]))"""
STAGES = ('raw-directives', 'raw-xf-directives', 'booked-directives', 'booked-xf-directives', 'directives')
HEAD = '2018-01-01 open Assets:A\n2018-01-01 open Assets:B EUR\n2018-01-01 open Equity:Größe\n'
T1 = '2020-01-02 * "payée" "näration ☃ \U0001f600"\n  Assets:A 10.50 USD\n  Equity:Größe\n'
T2 = '2020-01-03 ! "buy"\n  Assets:A 2 STK {10 USD, "lot"}\n  Assets:A -20 USD\n2020-01-04 * "sell"\n  Assets:A -1 STK {}\n  Assets:A 10 USD\n'
PAD = '2020-02-01 pad Assets:A Equity:Größe\n2020-02-02 balance Assets:A 1000 USD\n'
act = lambda phase, op, w='w', kind=None: 'plugin "mc-plug.act" "%s"\n' % ('{:phase :%s :op \\"%s\\"%s :with \\"%s\\"}' % (phase, op, ' :kind :%s' % kind if kind else '', w))
def ledgers(deep):
    """(text, whether it loads without error)"""
    yield HEAD + T1, True
    yield 'option "operating_currency" "USD"\noption "title" "ü"\n' + HEAD + T1 + T2 + PAD, True
    yield act('raw', 'add', 'ü') + HEAD + T1, True
    yield act('booked', 'narration', 'ü', 'txn') + HEAD + T1 + T2, True
    yield act('both', 'meta') + HEAD + T1 + PAD, True
    yield act('raw', 'drop', kind='note') + act('booked', 'none') + HEAD + T1, True
    yield HEAD + T1 + '2020-01-05 *\n  Assets:A 1 USD\n  Equity:Größe 1 USD\n', False
    yield HEAD + T1 + 'foo\n', False
    yield act('raw', 'meta') + HEAD + T1 + '2020-01-05 *\n  Assets:B 1 USD\n  Equity:Größe\n', False
    yield act('raw', 'err', kind='txn') + HEAD + T1, False
    yield act('booked', 'moderr', kind='txn') + HEAD + T1, False
    yield act('raw', 'throw') + HEAD + T1, False
    yield 'plugin "no.such"\n' + HEAD + T1, False
    yield '', True
    if deep:
        yield act('both', 'twice') + 'plugin "beancount.plugins.auto_accounts"\n' + T1 + T2.replace('Assets:A', 'Assets:C:ÄÖ'), True
        yield HEAD + ''.join(T1.replace('10.50', '%d.25' % i) for i in range(40)), True
        yield act('raw', 'meta', 'x' * 3000) + HEAD + ''.join(T1 for i in range(30)), True
GOOD = (HEAD + T1 + T1)
def requests(text):
    """how many a load makes: status, plugins, options, directives, spans, book, spans, errors"""
    p = os.path.join(tmpdir(), 'n.%d.beancount' % os.getpid())
    with open(p, 'wb') as f: f.write(text.encode())
    with open(p + '.plan', 'w') as f: f.write('[[-2, "count", null]]')
    call(F, [[p, beanfile(GOOD)]], timeout=60, **kw())
    try: return min(12, int(open(p + '.n').read()))
    except (OSError, ValueError): return 8
def w_requests(chunk, r):
    for i, t in chunk: r.outcome((i, requests(t)))
def plans(n_requests, deep):
    for n in range(1, n_requests + 2):
        for how in (0, 1, 'kill') if deep else (0, 'kill'): yield [[n, 'before', how]]; yield [[n, 'read', how]]
        for k in (1, 2, 3, 7, 15, 30, 40, 80, -1, -2, -3, -10) + (tuple(range(4, 15)) + tuple(range(16, 30)) + tuple(range(31, 400, 9)) + tuple(range(400, 4000, 150)) if deep else (100, 150, 200, 300, 500, 800)): yield [[n, 'cut', k]]
        yield [[n, 'pieces', 1 if n < 3 else 37]]; yield [[n, 'chat', None]]
    for k in (5, 100) + ((1000, 8191, 8192, 8193) if deep else ()): yield [[0, 'pieces', k]]
    yield [[0, 'chat', None]]
def bin_dir():
    d = os.path.join(tmpdir(), 'bin.%d' % os.getpid())
    if not os.path.isdir(d):
        os.makedirs(d); os.symlink(os.path.join(VERIF, 'mc', 'faulty_pod.py'), d + '/limabean-pod')
    return d
def kw(): return dict(bin=bin_dir(), env={'MC_POD': POD, 'MC_TABULATE': '%s/tab' % bin_dir()}, path=PATH + ':' + CLJ + '/plugins')
def fine(a): return not a['thrown'] and not a['error']
_known = {}
def whole(texts):
    """what these give when nothing fails"""
    texts = [t for t in dict.fromkeys(texts) if t not in _known]
    if texts:
        ps = [beanfile(t) for t in texts]
        for t, ans in zip(texts, call(F, [[p, beanfile(GOOD)] for p in ps], timeout=60, **kw())): _known[t] = ans
    return _known
def judge(case, ans, ref, good):
    text, ok, plan = case
    if failed(ans): return why(ans)
    a, b, kids = ans
    deadly = any(w in ('before', 'read', 'cut') for _, w, _ in plan)
    if not deadly and not ok:
        if a != ref[0]: return 'is %s, expected %s' % (dumps(a)[:700], dumps(ref[0])[:700])
    if ok and (fine(a) or not deadly):
        for k in STAGES + ('options', 'count', 'registry', 'same', 'journal', 'thrown', 'error'):
            if a.get(k) != ref[0].get(k): return '%s: %s, expected %s (%s)' % (k, dumps(a.get(k))[:500], dumps(ref[0].get(k))[:500], a['said'][:200])
    else:
        if fine(a): return 'loads without error, though it is wrong: %s' % dumps(a)[:600]
        if a['count'] or not a['same'] or a.get('directives') or a['journal']: return 'has an error and yet directives: %s' % dumps(a)[:600]
        for k in STAGES[:4]:
            if a.get(k) is not None and a[k] != ref[0].get(k): return 'reached %s: %s, expected %s' % (k, dumps(a[k])[:500], dumps(ref[0].get(k))[:500])
    b['said'] = re.sub(r'WARNING: limabean-pod failed to stop.*\n', '', b['said'])
    if b != good[1]: return 'the next load gives %s, expected %s' % (dumps(b)[:600], dumps(good[1])[:600])
    if kids: return '%s processes are left behind' % kids
def w(chunk, r):
    ref = whole([c[0] for c in chunk] + [GOOD])
    good = ref[GOOD]
    paths = []
    for i, (t, ok, plan) in enumerate(chunk):
        p = os.path.join(tmpdir(), 'f%d.%d.beancount' % (os.getpid(), i))
        with open(p, 'wb') as f: f.write(t.encode())
        with open(p + '.plan', 'w') as f: json.dump(plan, f)
        paths.append(p)
    for t, x in ref.items():
        bad = why(x) if failed(x) else 'left behind %s' % x[2] if x[2] else None
        if bad: r.violation('without any fault: %s\n%s' % (bad, t)); return
    cs = [[p, beanfile(GOOD)] for p in paths]
    for case, c, p, ans in zip(chunk, cs, paths, call(F, cs, timeout=60, **kw())):
        r.add('loads', 2); r.add('faults')
        t, ok, plan = case
        if not failed(ans):
            for x in ans[:2]: x['said'] = x['said'].replace(p, beanfile(t))
        m = judge(case, ans, ref[t], good)
        if m: r.violation('pod with fault %s (request, what, how): %s\nledger:\n%s' % (plan, m[:1200], t), dict(clj=F, cases=[c], plan=plan, files=[['main.beancount', t]]))
        else:
            r.outcome((*plan[0][:2], *ans[0]['where'], bool(ans[0]['thrown'])))
            if r.n['faults'] % 151 == 1: r.sample(dict(ledger=t[:200], plan=plan, thrown=ans[0]['thrown'], error=ans[0]['where'], count=ans[0]['count']))
    for p in paths: os.unlink(p); os.unlink(p + '.plan')
VALUES = ['"a"', '{"é" 1.50M, "b" [1 2 "☃"]}', '[]', '(vec (range 300))', '(apply str (repeat 200000 "x"))']
def w_tabulate(chunk, r):
    k = kw()
    plan = k['env']['MC_TABULATE']
    for v, fault in chunk:
        if os.path.exists(plan): os.unlink(plan)
        c = {'$edn': v}
        ref = call(S, [c], timeout=60, **k)[0]
        with open(plan, 'w') as f: json.dump(fault, f)
        ans = call(S, [c], timeout=60, **k)[0]
        os.unlink(plan)
        after = call(S, [c], timeout=60, **k)[0]
        r.add('shows', 3); r.add('faults')
        bad = fault[0] != 'pieces' and not (fault[0] == 'all' and fault[1] == 0)
        if failed(ref) or ref[0] != ['ok']: m = 'without fault: %s' % (why(ref) if failed(ref) else ref)
        elif failed(ans): m = why(ans)
        elif not bad: m = None if ans == ref else 'shows %r, expected %r' % (ans, ref)
        elif fault[1] == 0 and ans[0] == ['ok']: m = 'no claim'      # a pod which says all is well
        elif ans[0][0] == 'ok' or ans[1]: m = 'prints %r and answers %s, expected an error' % (ans[1][:300], ans[0])
        elif fault[0] in ('part', 'all') and 'out of paper' not in str(ans[0][2]): m = 'the error is %s, expected what tabulate says' % ans[0]
        elif after != ref: m = 'then shows %r, expected %r' % (after, ref)
        else: m = None
        if m == 'no claim': continue
        if m: r.violation('show %s, tabulate %s: %s' % (v, fault, m[:900]), dict(clj=S, cases=[c], plan=fault))
        else: r.outcome((*fault, 'ok' if ans[0][0] else 'error'))
def run(tier, seed):
    t = Result()
    deep = tier == 'thorough'
    end = time.time() + (850 if deep else 250)
    ls = list(ledgers(deep))
    k = Result()
    fan_out(w_requests, [(i, l) for i, (l, _) in enumerate(ls)], 2, k, end)
    many = dict(k.outcomes.keys())
    t.add('requests', sum(many.values()))
    cases = [(l, ok, p) for i, (l, ok) in enumerate(ls) for p in plans(many.get(i, 8), deep)]
    cases.sort(key=lambda c: len(c[0]))
    cases += [(HEAD + T1, True, [[-1, 'linger', None]])] * (2 if deep else 1)
    _, d = fan_out(w, cases, 15, t, end)
    shows = [(v, f) for v in VALUES for f in [('die', 0), ('die', 1), ('die', 'kill'), ('read', 0), ('read', 3), ('read', 'kill'), ('part', 1), ('part', 'kill'), ('all', 1), ('all', 'kill'), ('all', 0), ('pieces', 1 if len(v) < 20 else 1009), ('pieces', 7 if len(v) < 20 else 8191)]]
    _, d2 = fan_out(w_tabulate, shows, 5, t, end)
    n = t.n.get('loads', 0) + t.n.get('shows', 0)
    return t, dict(states=n, transitions=n, traces_validated_against_impl=n, exhaustive=d and d2)
