"""C33 plugins run in order, raw ones before booking, and what comes out of them is told, located and used."""
import time
from ..clj import *
from ..content import *
LEVEL = 'model_checking'
ASSUMPTIONS = ['the Clojure sources run on the interpreter in /verif/clj, not on Clojure itself']
F = r"""(require 'limabean.adapter.loader 'limabean.adapter.pod 'limabean.core.format '[clojure.string :as str])
(defn prov [ds] (mapv #(mapv (fn [p] (if (keyword? p) p (str "\"" p))) (:provenance %)) ds))
(defn spans [pod ds]
  (mapv (fn [d] (when (:span-p d)
     {:dct (first (limabean.adapter.pod/resolve-spans pod [(:span-p d)]))
      :pst (mapv #(when (:span-p %) (first (limabean.adapter.pod/resolve-spans pod [(:span-p %)]))) (:postings d))
      :text (limabean.core.format/directive->str d)})) ds))
(defn error [e] (cond-> (select-keys e [:message :spanned-reports])
                   (:exception e) (assoc :exception (:cause (:exception e)))
                   (:dct-errors e) (assoc :dct-errors (:dct-errors e))))
(fn [path]
  (let [b (limabean.adapter.loader/load-beanfile path) pod (:pod b)]
    (try
      (into {:keys (sort (keys b))
       :error (into {} (map (fn [[k e]] [k (if (= k :plugins) (mapv #(select-keys % [:name :config :err]) e) (error e))])) (:error b))
       :plugins (mapv (fn [p] [(:name p) (:config p) (some? (:raw-xf p)) (some? (:booked-xf p)) (some? (:err p))]) (:plugins b))}
       (mapcat (fn [k] (when-let [ds (get b k)] [[k ds] [(keyword (str (name k) "-prov")) (prov ds)] [(keyword (str (name k) "-spans")) (spans pod ds)]])))
       [:raw-directives :raw-xf-directives :booked-directives :booked-xf-directives :directives])
     (finally (limabean.adapter.pod/stop pod)))))"""
# the bundled plugin auto_accounts, collecting its result in several ways
AUTO = r"""(require 'beancount.plugins.auto-accounts)
(fn [[ds n]]
  (let [xf (beancount.plugins.auto-accounts/raw-xf {:config nil :options {}})
        ds (mapv #(-> % (update :dct keyword) (cond-> (:postings %) (update :postings (fn [ps] (mapv (fn [a] {:acc a}) ps))))) ds)
        out (fn [ds] (mapv #(-> % (update :dct name) (dissoc :postings) (cond-> (:postings %) (assoc :accs (mapv :acc (:postings %))))) ds))]
    (mapv out [(into [] xf ds) (transduce xf conj [] ds) (into '() xf ds) (into [] (comp xf (take n)) ds) (transduce (comp xf (take n)) conj [] ds) (into [] (comp (take n) xf) ds)])))"""
# very many directives, of which every other one is changed: each told to be changed, and no other
MANY = r"""(require 'limabean.adapter.plugins)
(fn [n]
  (let [ds (mapv (fn [i] {:dct :note :date i :acc "A" :comment "c"}) (range n))
        other (fn [rf] (fn ([] (rf)) ([r] (rf r)) ([r d] (rf r (if (even? (:date d)) (assoc d :comment (str (:date d))) d)))))
        ps [{:name "one" :raw-xf (map identity)} {:name "two" :raw-xf other} {:name "three" :raw-xf (map identity)}]
        out (limabean.adapter.plugins/run-plugins-of-kind ds ps :raw-xf nil)]
    [(count out) (count (remove (fn [d] (= (:provenance d) (when (even? (:date d)) ["two"]))) out))]))"""
def auto(ds):
    seen = set()
    for d in ds:
        if d['dct'] == 'open': seen.add(d['acc'])
        if d['dct'] == 'txn':
            for a in sorted(set(d['postings']) - seen): seen.add(a); yield dict(dct='open', date=d['date'], acc=a, metadata={'auto': None})
            yield dict({k: v for k, v in d.items() if k != 'postings'}, accs=d['postings'])
        else: yield d
def w_auto(chunk, r):
    for (ds, n), ans in zip(chunk, call(AUTO, chunk)):
        r.add('ledgers'); r.add('plugins')
        full, few = list(auto(ds)), list(auto(ds[:n]))
        if failed(ans): m = why(ans)
        else: m = next(('%s gives %s, expected %s' % (how, g, e) for how, g, e in zip(('into vector', 'transduce', 'into list', 'into, take', 'transduce, take', 'take, into'), ans, (full, full, full[::-1], full[:n], full[:n], few)) if g != e), None)
        if m: r.violation('auto_accounts of %s: %s' % (ds, m), dict(clj=AUTO, cases=[[ds, n]]))
def autos(deep):
    al = [dict(dct='open', acc='B'), dict(dct='open', acc='A'), dict(dct='open', acc='C', currencies=['USD'], booking='strict', metadata={'k': {'string': 'v'}}), dict(dct='txn', tags=['t'], flag='!', postings=['A', 'C']), dict(dct='txn', postings=['A']), dict(dct='txn', postings=['B', 'A', 'B']), dict(dct='txn', postings=['C', 'B']), dict(dct='txn', postings=[]), dict(dct='note', acc='D')]
    for k in range(6 if deep else 5):
        for i, ds in enumerate(itertools.product(al, repeat=k)): yield [[dict(d, date=j) for j, d in enumerate(ds)], i % 6]
def w_many(chunk, r):
    for n, ans in zip(chunk, call(MANY, chunk)):
        r.add('ledgers')
        if ans != [n, 0]: r.violation('of %d directives, every other changed by a plugin: out, and with wrong provenance: %s' % (n, ans), dict(clj=MANY, cases=[n]))
# every stage which is reached is dumped, as it is, into LIMABEAN_DEBUG_DIR
DUMP = r"""(require 'limabean.adapter.loader 'limabean.adapter.pod 'limabean.core.format '[clojure.string :as str])
(fn [path]
  (let [b (limabean.adapter.loader/load-beanfile path)]
    (limabean.adapter.pod/stop (:pod b))
    (into {} (keep (fn [k] (when-let [ds (get b (keyword (str k "-directives")))] [k (str/join "\n" (map limabean.core.format/directive->str ds))]))) ["raw" "raw-xf" "booked" "booked-xf"])))"""
def w_dump(chunk, r):
    d = os.path.join(tmpdir(), 'dump'); os.makedirs(d, exist_ok=True)
    paths = [beanfile(c[0]) for c in chunk]
    for case, p, ans in zip(chunk, paths, call(DUMP, paths, env={'LIMABEAN_DEBUG_DIR': d}, **JVM)):
        r.add('ledgers'); r.add('dumps', len(ans))
        base = os.path.join(d, os.path.basename(p)[:-len('.beancount')])
        got = {}
        for k in ('raw', 'raw-xf', 'booked', 'booked-xf'):
            f = '%s.%s.beancount' % (base, k)
            if os.path.exists(f): got[k] = open(f, encoding='utf-8', newline='').read(); os.unlink(f)
        if got != ans: r.violation('dumped %s, expected %s\n%s' % (got, why(ans) if failed(ans) else ans, case[0]), dict(clj=DUMP, cases=[p]))
    for p in set(paths): os.unlink(p)
# in another locale: what plugins made is what was booked
LOCALE = r"""(require 'limabean.adapter.loader 'limabean.adapter.pod)
(fn [path]
  (let [b (limabean.adapter.loader/load-beanfile path)
        plain (fn [d] (-> (into {} d) (dissoc :span :span-p :provenance :idx) (update :postings #(mapv :acc %))))]
    (limabean.adapter.pod/stop (:pod b))
    [(nil? (:error b)) (count (filter true? (map (fn [r d] (and (= (plain r) (plain d)) (some? (get-in r [:metadata :mcKey])))) (:raw-xf-directives b) (:booked-directives b))))]))"""
def w_locale(chunk, r):
    paths = [beanfile(t) for n, t in chunk]
    for (n, t), p, ans in zip(chunk, paths, call(LOCALE, paths, utf8=False, **JVM)):
        r.add('ledgers')
        if ans != [True, n]: r.violation('in locale C: no error, and number of directives booked as plugins made them: %s, expected [True, %d]\n%s' % (why(ans) if failed(ans) else ans, n, t), dict(clj=LOCALE, cases=[p]))
    for p in set(paths): os.unlink(p)
def locales():
    head = written(plugin('mc-plug.act', dict(op='meta', phase=Kw('raw'), **{'with': 'w'}))) + '2010-01-01 open Assets:A\n2010-01-01 open Equity:日本\n2010-01-01 open Expenses:É:Bä\n'
    for s in STRINGS + ['÷', '\u2028', '\U0001f600']:
        for d in (dict(dct='note', acc='Equity:日本', comment=s), dict(dct='event', type=s, description=s), dict(dct='document', acc='Expenses:É:Bä', path=s), dict(dct='txn', flag='*', payee='é' + s, postings=[dict(acc='Equity:日本', units=Num('1'), cur='USD'), dict(acc='Expenses:É:Bä')])):
            yield 4, head + document([dict(d, date='2020-01-02', metadata={'kk': {'string': s}})])
JVM = dict(path=PATH + ':' + CLJ + '/plugins')
# -- what plugins do, on [content, provenance]; Stop when one throws ----------------------------
class Stop(Exception): pass
OWN = ('span', 'span-p', 'provenance', 'idx', 'err')
def content(d):
    d = {k: v for k, v in d.items() if k not in OWN}
    if 'postings' in d: d['postings'] = [{k: v for k, v in p.items() if k not in OWN} for p in d['postings']]
    return d
def edn(x):
    if isinstance(x, dict): return '{%s}' % ', '.join(':%s %s' % (k, edn(v)) for k, v in x.items())
    if isinstance(x, Kw): return ':' + x
    if x is None: return 'nil'
    return '"%s"' % x if isinstance(x, str) else str(x)
class Kw(str): pass
class Item:
    """a directive on its way; the same object as long as it is not changed"""
    def __init__(s, d, prov=(), span=None, errs=(), has_prov=False): s.d, s.prov, s.span, s.errs = d, tuple(prov), span, tuple(errs)
    def but(s, **kw):
        x = Item(s.d, s.prov, s.span, s.errs)
        for k, v in kw.items(): setattr(x, k, v)
        return x
def act(cfg, phase, options, items):
    op, kind, arg = cfg.get('op'), cfg.get('kind'), cfg.get('with')
    mine = cfg.get('phase') in (phase, 'both')
    n = 0
    for x in items:
        n += 1
        if not mine or kind is not None and x.d['dct'] != kind: yield x; continue
        note = lambda c: Item(dict(date=x.d['date'], dct='note', acc='Assets:A', comment=c))
        mod = lambda **kw: x.but(d=dict(x.d, **kw))
        me = 'mc-plug.act'
        if op == 'drop': continue
        elif op == 'add': yield x; yield note(arg)
        elif op == 'before': yield Item(dict(date=x.d['date'], dct='event', type='t', description=arg)); yield x
        elif op == 'twice': yield x; yield x
        elif op == 'copy': yield x; yield Item(dict(x.d, links=[arg]), errs=x.errs)
        elif op == 'meta': yield mod(metadata=dict(x.d.get('metadata') or {}, mcKey={'string': arg}))
        elif op == 'links': yield mod(links=[arg])
        elif op == 'narration': yield mod(narration=arg)
        elif op == 'option': yield mod(narration='option ' + options.get(arg, ''))
        elif op == 'config': yield mod(narration=edn(cfg['config']))
        elif op == 'err': yield x.but(errs=x.errs + ((me, arg),))
        elif op == 'errs': yield x.but(errs=x.errs + ((me, arg), (me, 'again')))
        elif op == 'adderr': yield x; yield note(arg).but(errs=((me, 'inserted'),))
        elif op == 'moderr': yield x.but(d=dict(x.d, links=[arg]), errs=x.errs + ((me, 'modified'),))
        elif op == 'throw': raise Stop(arg)
        elif op == 'bad': yield mod(date='2020!')
        elif op == 'badkind': yield mod(dct='nosuch')
        elif op == 'stop': yield x; return_ = True; break
        else: yield x
    if mine and op == 'count': yield Item(dict(date='2030-01-01', dct='note', acc='Assets:A', comment='%d %s' % (n, arg)))
def payee(cfg, word, items):
    for x in items: yield x.but(d=dict(x.d, payee='%s %s' % (word, edn(cfg['config'])))) if x.d['dct'] == 'txn' else x
def stage(name, phase, known, items):
    """what comes out of one plugin: what is new or changed has its provenance noted and must be well-formed"""
    for x in items:
        if id(x) not in known and not x.errs:
            pre = ('booked',) if phase == 'booked' and 'booked' not in x.prov else ()
            x = x.but(prov=x.prov + pre + ('"' + name,))
            if (x.d['date'] == '2020!' or x.d['dct'] == 'nosuch'): raise Stop(None)
        known[id(x)] = x
        yield x
def run_stage(plugins, phase, options, items):
    known = {id(x): x for x in items}
    it = iter(items)
    for p in plugins:
        r = p['does'](phase)
        if not r: continue
        it = stage(p['name'], phase, known, r(options, it))
    return list(it)
def plugin(name, config=None):
    """config: a dict, None, or EDN text which is not as the plugin wants it"""
    ns = name.replace('_', '-')
    c = config if isinstance(config, dict) else {}
    cfg = dict(c, config=config)
    p = dict(name=name, config=config, err=False)
    if isinstance(config, str): p['err'] = True
    if ns == 'mc-plug.act': p['does'] = lambda ph: lambda o, it: act(cfg, ph, o, it)
    elif ns == 'mc-plug.raw-only': p['does'] = lambda ph: ph == 'raw' and (lambda o, it: payee(cfg, 'raw', it))
    elif ns == 'mc-plug.booked-only': p['does'] = lambda ph: ph == 'booked' and (lambda o, it: payee(cfg, 'booked', it))
    elif ns == 'mc-plug.choosy':
        p['does'] = lambda ph: ph == 'raw' and (lambda o, it: it)
        p['err'] = p['err'] or not c.get('please')
    else: p['err'] = True
    return p
def written(p):
    c = p['config']
    if c is None: return 'plugin "%s"\n' % p['name']
    t = c if isinstance(c, str) else edn(c)
    return 'plugin "%s" "%s"\n' % (p['name'], t.replace('\\', '\\\\').replace('"', '\\"'))
# -- judging ------------------------------------------------------------------------------------
def same(what, ans, key, items):
    got = ans.get(key)
    if got is None: return 'no ' + what
    for i, (g, x) in enumerate(itertools.zip_longest(got, items)):
        if g is None or x is None: return '%s: %d directives, expected %d' % (what, len(got), len(items))
        a, b = normal(content(g)), normal(content(x.d))
        if a != b: return '%s: directive %d is %s, expected %s' % (what, i, a, b)
        prov = ans[key + '-prov'][i]
        if x.errs and tuple(prov[:len(x.prov)]) == x.prov and (g.get('span') or prov): x = x.but(prov=tuple(prov))  # may tell more of what is in error, must have a place
        if tuple(prov) != x.prov: return '%s: directive %d has provenance %s, expected %s' % (what, i, prov, x.prov)
        if [(e['plugin'], e['message']) for e in g.get('err', [])] != list(x.errs): return '%s: directive %d has errors %s, expected %s' % (what, i, g.get('err'), x.errs)
        if (g.get('span') or None) != (x.span or None): return '%s: directive %d has span %s, expected %s' % (what, i, g.get('span'), x.span)
        s = ans[key + '-spans'][i]
        if bool(s) != bool(x.prov): return '%s: directive %d %s synthetic span, provenance %s' % (what, i, 'has a' if s else 'lacks its', x.prov)
        if s:
            lines = lambda t: [l.strip() for l in t.split('\n') if l.strip()]
            parts = [s['dct']] + s['pst']
            if any(p is None for p in parts) or len(s['pst']) != len(g.get('postings', [])): return '%s: directive %d lacks spans of postings: %s' % (what, i, s)
            for p in parts:
                want = 'Synthetic directive from ' + ' '.join(':' + q if q == 'booked' else q[1:] for q in x.prov)
                if p.get('file-name') != want: return '%s: synthetic span of directive %d named %r, expected %r' % (what, i, p.get('file-name'), want)
            text = sum((lines(p['content']) for p in parts), [])
            full = lines(s['text'])
            if g['dct'] == 'txn':  # its header need not tell tags, links and metadata
                full = [l for l in full if l in text or l == full[0]]
                if text and full[0].startswith(text[0]) and set(w_[0] for w_ in full[0][len(text[0]):].split()) <= set('#^'): full[0] = text[0]
            if text != full: return '%s: synthetic text of directive %d is %s, printed it is %s' % (what, i, text, full)
def booking(path, items, raw):
    """booked by the pod itself: (items, None) or (None, reports)"""
    a = ask(path, [request('book', [content(x.d) for x in items] if raw else None)])[0]
    if 'error' in a: return None, a['error']
    out = []
    for d in a['result']['directives']:
        x = items[int(d['idx'])]
        out.append(Item(content(d), x.prov, x.span))
    return out, None
def judge(case, path, ans):
    text, plugins, options = case
    if failed(ans): return why(ans)
    err = ans['error']
    got = [(n, r, b) for n, c, r, b, e in ans['plugins'] if not e]
    bad = [(p['name']) for p in plugins if p['err']]
    if [n for n, c, r, b, e in ans['plugins']] != [p['name'] for p in plugins]: return 'plugins are %s' % ans['plugins']
    if bad:
        if [e['name'] for e in err.get('plugins', [])] != bad: return 'errors of plugins %s, expected of %s' % (err, bad)
        if any(not e['err'].get('message') for e in err['plugins']): return 'no message in %s' % err
        if any(k in ans for k in ('raw-directives', 'booked-directives', 'directives')) or set(err) != {'plugins'}: return 'processed further in spite of %s: %s' % (bad, ans['keys'])
        return None
    if 'plugins' in err: return 'unexpected errors of plugins %s' % err['plugins']
    base = ask(path, [request('parser.directives')])[0]['result']['directives']
    items = [Item(content(d), (), d.get('span')) for d in base]
    m = same('raw directives', ans, 'raw-directives', items)
    if m: return m
    def through(phase, items, key, ekey):
        """('ok', items), ('stop', None) or message"""
        if not any(p['does'](phase) for p in plugins): return ('stop', '%s without such plugins' % key) if key in ans else ('ok', items, False)
        try: out = run_stage(plugins, phase, options, items)
        except Stop as x:
            e = err.get(ekey) or {}
            if set(err) != {ekey} or 'exception' not in e or x.args[0] and x.args[0] not in (e['exception'] or '') or not e.get('message'): return 'stop', 'errors %s, expected of an exception %s in %s' % (err, x.args[0], ekey)
            if key in ans or 'directives' in ans: return 'stop', 'processed further after an exception: %s' % ans['keys']
            return 'stop', None
        m = same(key, ans, key, out)
        if m: return 'stop', m
        wrong = [x for x in out if x.errs]
        if wrong:
            e = err.get(ekey) or {}
            if set(err) != {ekey} or [normal(content(d)) for d in e.get('dct-errors', [])] != [normal(content(x.d)) for x in wrong]: return 'stop', 'errors %s, expected of %s' % (err, [x.d for x in wrong])
            if 'directives' in ans: return 'stop', 'processed further in spite of errors: %s' % ans['keys']
            return 'stop', None
        if ekey in err: return 'stop', 'unexpected errors %s' % err
        return 'ok', out, True
    s = through('raw', items, 'raw-xf-directives', 'raw-plugins')
    if s[0] == 'stop': return s[1] or ('booked all the same' if 'booked-directives' in ans else None)
    items = s[1]
    booked, e = booking(path, items, s[2])
    if e:
        b = err.get('booking') or {}
        if set(err) != {'booking'} or len(b.get('spanned-reports', [])) != len(e['data']) or sorted(x['reason'] for x in b['spanned-reports']) != sorted(x['reason'] for x in e['data']): return 'errors %s, expected of booking %s' % (err, e)
        return 'processed further in spite of errors' if 'directives' in ans or 'booked-directives' in ans else None
    m = same('booked directives', dict(ans, **{'booked-directives-spans': ans.get('booked-directives-spans')}), 'booked-directives', booked) if any(x.prov for x in booked) is False else same_but_text(ans, booked)
    if m: return m
    s = through('booked', booked, 'booked-xf-directives', 'booked-plugins')
    if s[0] == 'stop': return s[1]
    if err: return 'unexpected errors %s' % err
    if 'directives' not in ans: return 'no directives'
    want = 'booked-xf-directives' if s[2] else 'booked-directives'
    if ans['directives'] != ans[want]: return 'directives differ from ' + want
def same_but_text(ans, items):
    """booked directives keep the synthetic spans of the raw ones, whose text is of those"""
    a = dict(ans)
    a['booked-directives-spans'] = [None] * len(items)
    bare = [Item(x.d, x.prov, x.span) for x in items]
    got = ans.get('booked-directives')
    if got is None or len(got) != len(items): return '%s booked directives, expected %d' % (got and len(got), len(items))
    for i, (g, x) in enumerate(zip(got, bare)):
        if normal(content(g)) != normal(x.d): return 'booked directive %d is %s, expected %s' % (i, normal(content(g)), normal(x.d))
        if tuple(ans['booked-directives-prov'][i]) != x.prov: return 'booked directive %d has provenance %s, expected %s' % (i, ans['booked-directives-prov'][i], x.prov)
        if (g.get('span') or None) != (x.span or None) or bool(g.get('span-p')) != bool(x.prov): return 'booked directive %d has spans %s and %s, expected %s, provenance %s' % (i, g.get('span'), g.get('span-p'), x.span, x.prov)
def w(chunk, r):
    paths = [beanfile(c[0]) for c in chunk]
    for case, p, ans in zip(chunk, paths, call(F, paths, **JVM)):
        case = (case[0], [plugin(*x) for x in case[1]], case[2])
        r.add('ledgers'); r.add('plugins', len(case[1]))
        m = judge(case, p, ans)
        if m: r.violation('%s\n%s' % (m, case[0]), dict(clj=F, files=[['main.beancount', case[0]]]))
        else:
            r.outcome((len(ans.get('directives', ())), tuple(sorted(ans['error']))))
            if r.n['ledgers'] % 97 == 1: r.sample(dict(ledger=case[0], provenance=ans.get('directives-prov'), error=sorted(ans['error'])))
    for p in set(paths): os.unlink(p)
LEDGERS = ["""2018-01-01 open Assets:A
2018-01-01 open Equity:E
  key: "v"
2019-01-01 note Assets:A "hello"
2020-01-02 * "pay" "narr" #t
  Assets:A 3.50 USD
    pk: 1
  Equity:E
2020-01-04 event "a" "b"
""", """option "title" "The Title"
2018-01-01 open Assets:A
2018-01-01 open Assets:B "FIFO"
2018-01-01 open Equity:E
2020-01-01 * "buy"
  Assets:B 2 STK {10 USD}
  ! Assets:A -20 USD
2020-01-02 pad Assets:A Equity:E
2020-01-03 balance Assets:A 5 ~ 1 USD
2020-01-04 txn
  Assets:B -1 STK {}
  Equity:E
2020-01-05 close Assets:B
""", "2018-01-01 open Assets:A\n", ""]
def cases(deep):
    ops = [dict(op='links', **{'with': 'l1'}), dict(op='drop', kind='event'), dict(op='drop', kind='open'), dict(op='add', kind='open', **{'with': 'n'}), dict(op='add', kind='txn', **{'with': 'm'}), dict(op='before', kind='balance', **{'with': 'b'}), dict(op='before', kind='note', **{'with': 'b'}),
           dict(op='copy', kind='txn', **{'with': 'c'}), dict(op='twice', kind='note'), dict(op='narration', kind='txn', **{'with': 'N'}), dict(op='option', kind='txn', **{'with': 'title'}), dict(op='config', kind='txn'), dict(op='count', **{'with': 'seen'}),
           dict(op='err', kind='event', **{'with': 'e'}), dict(op='errs', kind='open', **{'with': 'e'}), dict(op='adderr', kind='note', **{'with': 'x'}), dict(op='moderr', kind='txn', **{'with': 'x'}), dict(op='throw', kind='txn', **{'with': 'boom'}), dict(op='bad', kind='event'), dict(op='badkind', kind='open'), dict(op='stop', kind='txn'), {}]
    act_ = [('mc-plug.act' if i % 2 else 'mc_plug.act', dict(o, phase=Kw(p))) for i, o in enumerate(ops) for p in ('raw', 'booked', 'both')]
    for a in act_: a[1].update({k: v for k, v in a[1].items()})
    other = [('mc-plug.act', None), ('mc_plug.raw_only', None), ('mc-plug.raw-only', {'a': Num('1')}), ('mc_plug.booked_only', {'x': 'q'}), ('mc-plug.choosy', {'please': Num('1')})]
    bad = [('mc-plug.choosy', None), ('mc-plug.choosy', {'pleas': Num('1')}), ('mc_plug.neither', None), ('mc-plug.broken', None), ('no.such', None), ('mc-plug.act', '{:a'), ('mc-plug.raw-only', '#nosuch 1'), ('nosuch', {'a': Num('1')})]
    def ledger_(ps, body):
        ps_ = [plugin(*p) for p in ps]
        return ''.join(map(written, ps_)) + body, ps, ({'title': 'The Title'} if 'title' in body else {})
    for l in LEDGERS:
        yield ledger_([], l)
        for p in act_ + other + bad: yield ledger_([p], l)
    two = list(itertools.product(act_ + other, repeat=2))
    for s in two: yield ledger_(s, LEDGERS[1])
    for s in two if deep else two[::4]: yield ledger_(s, LEDGERS[0])
    for p in act_[::5] + other:
        for b in bad: yield ledger_([p, b], LEDGERS[1]); yield ledger_([b, p], LEDGERS[1])
    for b in itertools.product(bad, repeat=2): yield ledger_(b, LEDGERS[0])
    three = act_[:1] + act_[3:4] + act_[9:10] + act_[14:15] + act_[21:22] + act_[28:30] + act_[38:40] + act_[45:47] + other[1:4:2] if not deep else act_[::2] + other[1:4:2]
    for s in itertools.product(three, repeat=3): yield ledger_(s, LEDGERS[1])
def once(it):
    seen = set()
    for c in it:
        h = hash(c[0])
        if h not in seen: seen.add(h); yield c
def rich(deep):
    """ledgers with directives of every shape, unchanged and changed by plugins before and after booking"""
    metas = [None, [('mc-plug.act', dict(op='meta', phase=Kw('raw'), **{'with': 'w'}))], [('mc-plug.act', dict(op='meta', phase=Kw('booked'), **{'with': 'w'}))], [('mc-plug.act', dict(op='meta', phase=Kw('both'), **{'with': 'w'}))], [('mc_plug.act', None)]]
    top = ''.join('2010-01-01 open %s\n' % a for a in ACCS)
    def each(ds, n, head=top):
        ds = [d for d in ds if writable(d)]
        for i in range(0, len(ds), n):
            t = head + document([dict(dict(date='2020-%02d-%02d' % (1 + j // 28, 1 + j % 28)), **d) for j, d in enumerate(ds[i:i + n])])
            for m in metas: yield ''.join(map(written, [plugin(*p) for p in m or []])) + t, m or [], {}
    for k, bodies in kinds():
        if k in ('pad', 'balance', 'open'): continue
        if k == 'close': bodies = bodies[1:]
        if not deep: bodies = bodies[:300:3] + bodies[-3:]
        yield from each(bodies, 30)
    yield from each([dict(dct='note', acc='Assets:A', comment='c', **m) for m in list(metadata_each()) + EXTRA_FULL], 25)
    yield from each([dict(dct='custom', type='t', values=[{'number': Num(n)}, {'units': Num(n), 'cur': c}]) for n in NUMS + ['12345678901234567890', '-9223372036854775809'] for c in CURS], 12)
    for d in dict(kinds())['open'] if deep else dict(kinds())['open'][::4]: yield from each([d], 1, '')
    for d in [dict(dct='balance', acc='Assets:A', units=Num('0'), cur=c, **e) for c in CURS for e in opts(('tolerance', [Num(x) for x in ('0', '0.01', '5', '0.00', '12345678901234567890')]))]: yield from each([d], 1)
    yield from each([dict(dct='pad', acc='Assets:A', source='Income:1'), dict(dct='balance', acc='Assets:A', units=Num('12345678901234567890'), cur='USD')], 2)
    for h in list(headers())[::1 if deep else 5]: yield from each([dict(h, dct='txn', postings=[dict(acc='Assets:A', units=Num('12345678901234567890'), cur='USD'), dict(acc='Income:1')])], 1)
    ps = [p for p in postings() if not (p.get('cost-spec') or {}).get('merge')]
    for i, p in enumerate(ps if deep else ps[::7]): yield from each([dict(dct='txn', flag='*', postings=[p, dict(acc='Income:1', **EXTRA_FULL[i % len(EXTRA_FULL)])])], 1)
def run(tier, seed):
    t = Result()
    deep = tier == 'thorough'
    _, d1 = fan_out(w_auto, autos(deep), 300, t, time.time() + (300 if deep else 60))
    _, d2 = fan_out(w_many, [0, 1, 5, 200000], 1, t, time.time() + 60)
    _, d4 = fan_out(w_locale, locales(), 10, t, time.time() + 60)
    _, d5 = fan_out(w_dump, once(itertools.islice(itertools.chain(cases(False), rich(False)), 0, None, 5 if deep else 31)), 40, t, time.time() + 60)
    _, d = fan_out(w, once(cases(deep)), 40, t, time.time() + (700 if deep else 200))
    _, d3 = fan_out(w, once(rich(deep)), 40, t, time.time() + (500 if deep else 120))
    n = t.n.get('ledgers', 0)
    return t, dict(states=n, transitions=t.n.get('plugins', 0), traces_validated_against_impl=n, exhaustive=d and d1 and d2 and d3 and d4 and d5)
