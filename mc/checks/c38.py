"""C38 what plugins make is of the published structure of directives, or the load is an error: one edit at a time, everywhere."""
import time
from ..clj import *
LEVEL = 'model_checking'
ASSUMPTIONS = ['the Clojure sources run on the interpreter in /verif/clj, not on Clojure itself', 'clojure.spec is a stand-in']
# edits of one directive by plugins run directly: true (accepted and kept), false (an error of the specification)
F = r"""(require 'limabean.adapter.loader '[limabean.adapter.pod :as pod] '[limabean.adapter.plugins :as plugins] 'limabean.adapter.edn '[limabean.spec :as spec] '[clojure.spec.alpha :as s])
(def loaded (atom {}))
(defn ledger [path] (or (get @loaded path) (let [b (limabean.adapter.loader/load-beanfile path)] (pod/stop (:pod b)) (swap! loaded assoc path b) b)))
(defn remove-in [d path] (if (next path) (update-in d (vec (butlast path)) dissoc (last path)) (dissoc d (first path))))
(defn edit [d {:keys [path value gone]}] (if gone (remove-in d path) (assoc-in d path value)))
(defn bare [d] (-> d (dissoc :span :span-p :provenance :idx)))
(fn [{:keys [file phase at how edits]}]
  (s/check-asserts true)
  (let [b (ledger file)
        ds (vec (if (= phase "raw") (:raw-directives b) (:booked-directives b)))
        xf (if (= phase "raw") :raw-xf :booked-xf)]
    (mapv (fn [e]
            (let [e (limabean.adapter.edn/read-string e) d (edit (get ds at) e)
                  plugin (fn [f] {:name "p" xf f})
                  here (fn [f] (let [n (volatile! -1)] (mapcat (fn [x] (if (= at (vswap! n inc)) (f x) [x])))))
                  ps (case how
                       "modify" [(plugin (here (fn [x] [(edit x e)])))]
                       "insert" [(plugin (here (fn [x] [x (bare (edit x e))])))]
                       "last" [(plugin (map identity)) (plugin (fn [rf] (fn ([] (rf)) ([r] (rf (unreduced (rf r (bare d))))) ([r x] (rf r x)))))]
                       "then" [(plugin (here (fn [x] [(edit x e)]))) (plugin (map (fn [x] (assoc x :flag "!"))))]
                       "inside" [(plugin (map identity)) (plugin (here (fn [x] [(edit x e)]))) (plugin (remove (constantly true)))])]
              (try (let [out (plugins/run-plugins-of-kind ds ps xf (spec/directive-spec (keyword phase)))]
                     (cond (= how "inside") (empty? out)
                           (= how "modify") (and (= (count out) (count ds)) (= (bare (get out at)) (bare d)) (= (mapv bare (subvec out 0 at)) (mapv bare (subvec ds 0 at))))
                           :else (> (count out) 0)))
                   (catch clojure.lang.ExceptionInfo x (if (= :assertion-failed (:clojure.spec.alpha/failure (ex-data x))) false (str x)))
                   (catch Exception x (str x)))))
          edits)))"""
# the same through a load
L = r"""(require 'limabean.adapter.loader '[limabean.adapter.pod :as pod])
(fn [path] (let [b (limabean.adapter.loader/load-beanfile path)]
  (pod/stop (:pod b))
  {:errors (sort (map name (keys (:error b)))) :directives (count (:directives b)) :cause (:cause (:exception (first (vals (:error b))))) :message (:message (first (vals (:error b))))
   :raw (some? (:raw-xf-directives b)) :booked (some? (:booked-xf-directives b))}))"""
TEXT = '''2018-01-01 open Assets:A USD,STK "FIFO"
  kacc: Assets:A
  kamount: 1.50 USD
  kbool: TRUE
  kcur: USD
  kdate: 2020-01-02
  klink: ^l
  knull:
  knumber: 2
  kstring: "s"
  ktag: #t
2018-01-01 open Equity:X
2018-01-01 commodity USD
  kk: "v"
2018-01-02 * "payee" "narration" #t1 #t2 ^l1
  kk: 1
  Assets:A 2 STK {10 USD, "lot"} @ 11 USD
    mm: "n"
  ! Assets:A -20 USD
  Equity:X 0.5 USD @ 2 EUR
  Assets:A -0.5 USD @ 2 EUR
2018-01-03 *
  Assets:A 1 USD
  Equity:X
2018-01-04 price STK 3 USD
2018-01-05 balance Assets:A -19.5 ~ 1 USD
2018-01-06 pad Assets:A Equity:X
2018-01-07 balance Assets:A 100 USD
2018-01-08 document Assets:A "/a/b.pdf" #t ^l
2018-01-09 note Assets:A "c"
2018-01-10 event "type" "description"
2018-01-11 query "name" "content"
2018-01-12 custom "type" "s" 1 TRUE Assets:A 2 USD 2020-01-01
2018-01-13 close Assets:A
'''
# -- the structure: kind of value -> what is one ------------------------------------------------------------------
VALUES = {'nil': 'null', '""': 'string', '"x"': 'string', '"Assets:A"': 'string', '1': 'number', '-2': 'number', '1.5M': 'number', '12345678901234567890': 'number', '1.5': 'double', 'true': 'bool', 'false': 'bool', ':fifo': 'booking', ':strict-with-size': 'booking', ':strict': 'booking', ':none': 'booking', ':average': 'booking', ':lifo': 'booking', ':hifo': 'booking', ':FIFO': 'keyword', ':nosuch': 'keyword', ':fifo2': 'keyword', '\\a': 'char', 'sym': 'symbol',
          '#time/date "2020-02-29"': 'date', '[]': 'vector', '["x"]': 'vector-s', '["x" 1]': 'vector', '("x")': 'list', '#{}': 'set', '#{"x"}': 'set', '#{"x" "y"}': 'set', '#{"x" 1}': 'set?', '#{nil}': 'set?', '#{:x}': 'set?', '{}': 'map', '{:a 1}': 'map'}
METAS = {'{:acc "A"}': 1, '{:units 1M :cur "U"}': 1, '{:units 1 :cur "U"}': 1, '{:bool true}': 1, '{:bool false}': 1, '{:cur "U"}': 1, '{:date #time/date "2020-01-01"}': 1, '{:link "l"}': 1, 'nil': 1, '{:number 1M}': 1, '{:number 1}': 1, '{:string ""}': 1, '{:tag "t"}': 1, '{:units 1M}': 1,
         '{}': 0, '{:acc 1}': 0, '{:acc nil}': 0, '{:units "1" :cur "U"}': 0, '{:units 1M :cur nil}': 0, '{:units 1M :cur "U" :x 1}': 0, '{:bool nil}': 0, '{:bool "true"}': 0, '{:cur :USD}': 0, '{:date "2020-01-01"}': 0, '{:link #{"l"}}': 0, '{:number 1.5}': 0, '{:number "1"}': 0, '{:string nil}': 0, '{:string \\a}': 0, '{:tag 1}': 0, '{:units nil}': 0, '{:string "a" :tag "b"}': 0, '{:acc "A" :cur "U"}': 0, '{:nosuch "a"}': 0, '{"string" "a"}': 0, '"s"': 0, '1M': 0, 'true': 0, '[]': 0, '#{}': 0, ':k': 0}
def is_(kind):
    t = {'string': ('string',), 'number': ('number',), 'date': ('date',), 'bool': ('bool',), 'booking': ('booking',), 'strings': ('set',)}[kind]
    return {v: k in t for v, k in VALUES.items()}
# a field may be left out if its kind ends in ?
FIELDS = dict(date='date', tags='strings?', links='strings?', metadata='metadata?')
KINDS = dict(txn=dict(flag='string', payee='string?', narration='string?', postings='postings?'), price=dict(cur='string', price='price'), balance=dict(acc='string', units='number', cur='string', tolerance='number?'), open=dict(acc='string', currencies='strings?', booking='booking?'), close=dict(acc='string'), commodity=dict(cur='string'), pad=dict(acc='string', source='string'), document=dict(acc='string', path='string'), note=dict(acc='string', comment='string'), event=dict(type='string', description='string'), query=dict(name='string', content='string'), custom=dict(type='string', values='values'))
RAW_POSTING = dict(flag='string?', acc='string?', units='number?', cur='string?', tags='strings?', links='strings?', metadata='metadata?', **{'cost-spec': 'cost-spec?', 'price-spec': 'price-spec?'})
POSTING = dict(RAW_POSTING, acc='string', units='number', cur='string', cost='cost?', price='price?'); del POSTING['cost-spec'], POSTING['price-spec']
INNER = {'cost-spec': {'per-unit': 'number?', 'total': 'number?', 'cur': 'string?', 'date': 'date?', 'label': 'string?', 'merge': 'bool?'}, 'cost': {'per-unit': 'number', 'total': 'number', 'cur': 'string', 'date': 'date', 'label': 'string?', 'merge': 'bool?'},
         'price-spec': {'per-unit': 'number?', 'total': 'number?', 'cur': 'string?'}, 'price': {'per-unit': 'number', 'cur': 'string', 'total': 'number?'}}
def tops(fields, have, phase, path=()):
    """edits of the fields of a map: (path, value or None if removed, whether fine)"""
    for f, k in fields.items():
        p, opt, k = path + (f,), k.endswith('?'), k.rstrip('?')
        yield p, None, opt or f not in have
        if k in INNER:
            yield from ((p, v, False) for v, t in VALUES.items() if t != 'map')
            yield from ((p, v, not any(not x.endswith('?') for x in INNER[k].values())) for v in ('{}', '{:a 1}'))
            if f in have: yield from tops(INNER[k], have[f], phase, p)
        elif k == 'metadata':
            yield from ((p, v, t == 'map' and v == '{}') for v, t in VALUES.items())
            yield from ((p + ('kk',), v, bool(ok)) for v, ok in METAS.items())
            yield from ((p, '{%s %s}' % (key, v), False) for key in ('"k"', 'k', '1', 'nil') for v in ('{:string "a"}',))
            for key in list(have.get(f) or ())[:20]: yield from ((p + (key,), v, bool(ok)) for v, ok in METAS.items())
        elif k == 'values':
            yield from ((p, v, v == '[]') for v in VALUES)
            yield from ((p, '[%s]' % v, bool(ok)) for v, ok in METAS.items())
            yield from ((p, '[{:string "a"} %s]' % v, bool(ok)) for v, ok in METAS.items())
            for i in range(len(have.get(f) or ())): yield from ((p + (i,), v, bool(ok)) for v, ok in METAS.items())
        elif k == 'postings':
            yield from ((p, v, v == '[]') for v in VALUES)
            yield p, '[{}]', phase == 'raw'
            for i, pst in enumerate(have.get(f) or ()):
                yield from ((p + (i,), v, t == 'map' and phase == 'raw') for v, t in VALUES.items())
                yield from tops(RAW_POSTING if phase == 'raw' else POSTING, pst, phase, p + (i,))
        else: yield from ((p, v, ok) for v, ok in is_(k).items())
    yield path + ('xyzzy',), '1', True
def edits(d, phase):
    kind = d['dct']
    yield from tops(dict(FIELDS, **KINDS[kind]), d, phase)
    yield ('dct',), None, False
    yield from ((('dct',), v, False) for v in list(VALUES) + ['"%s"' % kind, ':transaction', ':limabean/dct'])
    if kind == 'open': yield from (((k,), v, False) for k in ('cur', 'curs', 'currency') for v in ('"USD"', '#{"USD"}', ':USD'))
    for other in KINDS:
        # as another kind: fine if it has what that needs
        if other != kind and other != 'txn': yield ('dct',), ':' + other, not (other == 'open' and 'cur' in d) and all(f in d and (f, k) in dict(FIELDS, **KINDS[kind]).items() for f, k in KINDS[other].items() if not k.endswith('?')) and all(f not in d or (f, k) in KINDS[kind].items() for f, k in KINDS[other].items() if k.endswith('?'))
def path_edn(p): return '[%s]' % ' '.join(str(x) if isinstance(x, int) else ':' + x for x in p)
def edit_edn(p, v): return '{:path %s %s}' % (path_edn(p), ':gone true' if v is None else ':value ' + v)
def directives():
    b = call("(require 'limabean.adapter.loader '[limabean.adapter.pod :as pod]) (fn [p] (let [b (limabean.adapter.loader/load-beanfile p)] (pod/stop (:pod b)) [(some? (:error b)) (mapv #(into {} %) (:raw-directives b)) (mapv #(into {} %) (:booked-directives b))]))", [beanfile(TEXT)])[0]
    if failed(b) or b[0]: return None, b
    return dict(raw=b[1], booked=b[2]), None
HOWS = ('modify', 'insert', 'last', 'then', 'inside')
def w(chunk, r):
    cs = [dict(file=beanfile(TEXT), phase=phase, at=at, how=how, edits=[edit_edn(p, v) for p, v, _ in es]) for phase, at, how, es in chunk]
    for (phase, at, how, es), c, ans in zip(chunk, cs, call(F, cs)):
        r.add('batches')
        if failed(ans): r.violation('%s: %s' % ((phase, at, how), why(ans)), dict(clj=F, cases=[c], files=[['main.beancount', TEXT]])); continue
        for (p, v, ok), e, got in zip(es, c['edits'], ans):
            r.add('edits')
            r.outcome((phase, how, p[-1] if isinstance(p[-1], str) else 'item', ok))
            if got is not ok: r.violation('%s plugin, %s directive %d %s := %s: %s, expected %s' % (phase, how, at, path_edn(p), v or 'removed', {True: 'accepted', False: 'rejected'}.get(got, got), 'accepted' if ok else 'rejected'), dict(clj=F, cases=[dict(c, edits=[e])], files=[['main.beancount', TEXT]]))
        if r.n['batches'] % 7 == 1: r.sample(dict(phase=phase, directive=at, how=how, edits=[[path_edn(p), v, ok] for p, v, ok in es[:3]]))
def w_load(chunk, r):
    made = []
    for phase, at, how, (p, v, ok) in chunk:
        cfg = '{:phase :%s :at %d :how :%s :path %s %s}' % (phase, at, how, path_edn(p), ':gone true' if v is None else ':value ' + v)
        made.append('plugin "mc-plug.edit" "%s"\n' % cfg.replace('\\', '\\\\').replace('"', '\\"') + TEXT)
    paths = [beanfile(t) for t in made]
    for (phase, at, how, (p, v, ok)), t, f, ans in zip(chunk, made, paths, call(L, paths, path=PATH + ':' + CLJ + '/plugins')):
        r.add('loads')
        m = None
        if failed(ans): m = why(ans)
        elif not ok:
            if ans['errors'] != [phase + '-plugins'] or ans['directives'] or ans[phase] or not str(ans['cause']).startswith('Spec assertion failed') or phase not in str(ans['message']): m = 'gives %s, expected the error of the structure' % dumps(ans)
        elif phase + '-plugins' in ans['errors'] or not ans[phase]: m = 'gives %s, expected no error of the %s plugin' % (dumps(ans), phase)
        elif phase == 'booked' and ans['errors']: m = 'gives %s' % dumps(ans)
        if m: r.violation('%s plugin, %s directive %d %s := %s: %s' % (phase, how, at, path_edn(p), v or 'removed', m[:700]), dict(clj=L, files=[['main.beancount', t]]))
        else: r.outcome(('load', phase, ok, tuple(ans['errors'])))
    for f in set(paths): os.unlink(f)
def run(tier, seed):
    t = Result()
    deep = tier == 'thorough'
    end = time.time() + (800 if deep else 200)
    ds, bad = directives()
    if ds is None:
        t.violation('the ledger of all directives does not load: %s' % (why(bad) if failed(bad) else dumps(bad)[:500]), dict(files=[['main.beancount', TEXT]]))
        return t, dict(states=1, transitions=1, traces_validated_against_impl=1, exhaustive=False)
    all_ = [(phase, at, list(edits(d, phase))) for phase in ds for at, d in enumerate(ds[phase])]
    batches = []
    for phase, at, es in all_:
        for j, how in enumerate(HOWS):
            if how == 'inside': continue
            some = es if deep or how == 'modify' else es[j::5]
            if how == 'last': some = [e for e in some]
            if how == 'then' : some = [e for e in some if e[0] != ('flag',)]
            batches += [(phase, at, how, some[i:i + 100]) for i in range(0, len(some), 100)]
        batches.append((phase, at, 'inside', [e for e in es if not e[2]][::1 if deep else 3]))
    _, d1 = fan_out(w, batches, 4, t, end)
    loads = [(phase, at, how, e) for phase, at, es in all_ for how in ('modify', 'insert') for e in es[(at + (how == 'insert')) % 7::17 if not deep else 2] if all(c not in (e[1] or '') for c in ('#time', '\\a'))]
    _, d2 = fan_out(w_load, loads, 30, t, end)
    n = t.n.get('edits', 0) + t.n.get('loads', 0)
    return t, dict(states=n, transitions=n, traces_validated_against_impl=n, exhaustive=d1 and d2)
