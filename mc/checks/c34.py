"""C34 loading a ledger tells every error at its place, or yields its directives; and the next load starts afresh."""
import time
from ..clj import *
from .c33 import plugin, written, Kw, JVM
LEVEL = 'model_checking'
ASSUMPTIONS = ['the Clojure sources run on the interpreter in /verif/clj, not on Clojure itself']
F = r"""(require 'limabean.user 'limabean.adapter.pod '[clojure.string :as str])
(fn [path]
  (let [old (:pod limabean.user/*beans*) w (java.io.StringWriter.) o (java.io.StringWriter.)
        ret (try (binding [*err* w *out* o] (limabean.user/load-beanfile path)) (catch Exception e {:thrown (.getMessage e) :data (ex-data e)}))
        b limabean.user/*beans* pod (:pod b)
        reports (fn [k] (get-in b [:error k :spanned-reports]))
        dct (fn [d] (-> (into {} d) (select-keys [:dct :span :span-p :provenance :err :idx])
                        (assoc :postings (mapv #(select-keys % [:span :span-p]) (:postings d)))))
        plain (fn [d] (-> (into {} d) (dissoc :span :span-p :provenance :idx :err) (cond-> (:postings d) (update :postings (fn [ps] (mapv #(dissoc % :span :span-p :idx) ps))))))
        spans (fn [ds] (distinct (concat (keep :span-p ds) (mapcat #(keep :span-p (:postings %)) ds))))
        xs (vec (or (:raw-xf-directives b) (:raw-directives b)))
        sp (vec (concat (spans xs) (spans (:booked-xf-directives b))))]
    {:ret ret :text (str w) :out (str o) :old (when old (.isAlive (:process old)))
     :parser (reports :parser) :booking (reports :booking) :message (get-in b [:error :booking :message]) :errors (sort (keys (:error b)))
     :dcts (mapv dct xs) :raw (mapv plain xs) :raw? (some? (:raw-xf-directives b))
     :wrong (mapv dct (or (get-in b [:error :raw-plugins :dct-errors]) (get-in b [:error :booked-plugins :dct-errors])))
     :synthetic (when (and pod (seq sp)) (mapv vector sp (limabean.adapter.pod/resolve-spans pod sp)))
     :globals [(count limabean.user/*directives*) (identical? limabean.user/*directives* (get b :directives limabean.user/*directives*)) (count limabean.user/*options*) (= limabean.user/*options* (get b :options {})) (= limabean.user/*registry* (:registry b)) (some? limabean.user/*registry*)]}))"""
def key(r): return json.dumps(norm(r), sort_keys=True)
def norm(r):
    r = {k: v for k, v in r.items() if v not in (None, [])}
    return json.loads(json.dumps(r, default=lambda x: int(x) if x == int(x) else str(x)))
def kindname(d): return 'transaction' if d['dct'] == 'txn' else d['dct']
def place(idx, ds):
    """what is at an index: (description, span, whether it is synthetic, span of its directive)"""
    d = ds[int(idx[0])]
    x, what = (d['postings'][int(idx[1])], 'posting') if len(idx) > 1 else (d, kindname(d))
    span = x.get('span') or x.get('span-p') or d.get('span') or d.get('span-p')
    if d.get('provenance') and (x.get('span') or d.get('span')): what += ', modified by ' + ' '.join(d['provenance'])
    return what, span, d.get('span') or d.get('span-p')
def resolved(e, ds):
    what, span, whole = place(e['idx'], ds)
    r = dict(message='invalid ' + what, reason=e['reason'], span=span, annotation=e.get('annotation'))
    if len(e['idx']) > 1: r['contexts'] = [['transaction', whole]]
    if e.get('related'): r['related'] = [list(place(i, ds)[:2]) for i in e['related']]
    return r
def told(path, reports): return ask(path, [request('parser.format-errors', reports)])[0].get('result')
def shown(path, text, rest, reports, synthetic):
    """whether every report is shown with its place, be it synthetic, and with everything related"""
    plain = re.sub('\x1b\\[[0-9;]*m', '', rest)
    blocks = [b for b in re.split('(?m)^Error: ', plain)[1:]]
    if len(blocks) != len(reports): return '%d reports shown, expected %d' % (len(blocks), len(reports))
    for r in reports:
        want = ['%s\n' % r['message']] + [l for l in r['reason'].split('\n')]
        places = [r['span']] + [s for _, s in r.get('related') or ()] + [s for _, s in r.get('contexts') or ()]
        for s in places:
            x = synthetic.get(tuple(s))
            if x: want += ['[ %s:' % x['file-name'], ' ' + x['content'].strip().split('\n')[0].strip()]
            else: want.append('%s:%d:' % (path, text.encode()[:int(s[1])].count(b'\n') + 1) if s is r['span'] else ' ' + text.encode()[int(s[1]):].split(b'\n')[0].decode().strip() + '\n')
        i = next((i for i, b in enumerate(blocks) if all(x in re.sub(' +\n', '\n', b) for x in want)), None)
        if i is None: return 'no report shown with %s' % want
        del blocks[i]
def judge(case, path, ans):
    text, plugins = case
    if failed(ans): return why(ans)
    if ans['out']: return 'printed to standard output: %r' % ans['out']
    if ans['old']: return 'the pod of the ledger loaded before is still running'
    first = ask(path, [request('parser.directives'), request('book')])
    if isinstance(first[0], Dead) or 'error' in first[0] and first[0]['error']['code'] != 2:
        e = first[0]['error']['message'] if not isinstance(first[0], Dead) else ''
        if not isinstance(ans['ret'], dict) or 'thrown' not in ans['ret'] or e and e not in str(ans['ret']['data']): return 'load-beanfile gives %s, pod says %s' % (ans['ret'], first[0])
        if ans['globals'][0] or ans['globals'][2] or ans['globals'][5]: return 'not failed afresh: %s' % ans['globals']
        return None
    if ans['ret'] != 'ok': return 'load-beanfile gives %s' % ans['ret']
    n = len(first[0]['result']['directives']) if 'result' in first[0] else 0
    bad = [p for p in plugins if p['err']]
    head = '[limabean] %d directives loaded from %s\n' % (0 if bad else n, path)
    if not ans['text'].startswith(head): return 'begins %r, expected %r' % (ans['text'][:200], head)
    rest = ans['text'][len(head):]
    g = ans['globals']
    if not (g[1] and g[3] and g[4]): return 'globals are not of this ledger: %s' % g
    def nothing(): return None if g[0] == 0 and not g[5] else 'directives or registry in spite of errors: %s' % g
    if 'error' in first[0]:
        want = first[0]['error']['data']
        if ans['errors'] != ['parser'] or sorted(map(key, ans['parser'])) != sorted(map(key, want)): return 'parser reports %s, expected %s' % (ans['parser'], want)
        if rest != told(path, ans['parser']) + '\n': return 'tells %r, expected %r' % (rest, told(path, ans['parser']))
        return nothing()
    if bad:
        lines = rest.split('\n')
        if ans['errors'] != ['plugins'] or len(lines) != len(bad) + 1 or any(not l.startswith('ERROR in plugin %s - ' % p['name']) or len(l) < len('ERROR in plugin %s - x' % p['name']) for l, p in zip(lines, bad)): return 'tells %r of bad plugins %s' % (rest, [p['name'] for p in bad])
        return nothing()
    synthetic = {tuple(s): x for s, x in ans['synthetic'] or ()}
    if ans['wrong'] or 'raw-plugins' in ans['errors'] or 'booked-plugins' in ans['errors']:
        kind = 'raw-plugins' if 'raw-plugins' in ans['errors'] else 'booked-plugins'
        phase = kind.split('-')[0]
        if ans['errors'] != [kind]: return 'errors %s' % ans['errors']
        throwing = next((p['config']['with'] for p in plugins if p['config'] and p['config'].get('op') == 'throw' and p['config'].get('phase') in (phase, 'both')), None)
        if not ans['wrong']:
            if not throwing: return 'tells %r, no exception was thrown' % rest
            if not rest.startswith('Exception thrown by %s plugin' % phase) or throwing not in rest: return 'tells %r of exception %r' % (rest, throwing)
            return nothing()
        want = []
        for d in ans['wrong']:
            for e in d['err']:
                span = d.get('span-p') or d.get('span')
                if span is None: return 'an error without a place: %s' % d
                r = dict(message=e['plugin'], reason=e['message'], span=span)
                if d.get('span') and d.get('span-p'): r['related'] = [['source', d['span']]]
                want.append(r)
        # each error with its message, below the place of its directive
        real = [r for r in want if tuple(r['span']) not in synthetic]
        if len(real) == len(want):
            if rest != told(path, real) + '\n': return 'tells %r, expected %r' % (rest, told(path, real))
        else:
            m = shown(path, text, rest, want, synthetic)
            if m: return '%s\n%s' % (m, rest)
        return nothing()
    if any(p['config'] and p['config'].get('op') in ('err', 'errs', 'adderr', 'throw') and p['config'].get('phase') in ('raw', 'both') and any(d['dct'] == p['config'].get('kind') for d in first[0]['result']['directives']) for p in plugins): return 'no error of the plugin told: %r' % rest
    base = first[1]
    params = [content_(d) for d in ans['raw']]
    again = ask(path, [request('book', params)])[0] if ans['raw?'] else base
    if 'error' in again:
        if ans['errors'] != ['booking']: return 'errors %s, expected of booking' % ans['errors']
        got = ans['booking']
        if got is None:
            return nothing() if rest == 'Booking failed\n\n%s\n' % ans['message'] and ans['message'] == again['error']['message'] else 'tells %r of %s' % (rest, again['error'])
        want = [resolved(e, ans['dcts']) for e in again['error']['data']] if ans['raw?'] else again['error']['data']
        a, b = sorted(map(key, got)), sorted(map(key, want))
        if a != b: return 'booking reports %s, expected %s' % (a, b)
        if not any(d.get('provenance') for d in ans['dcts']):
            same = not any((p['config'] or {}).get('op') in ('twice', 'drop') for p in plugins)
            if same and ('error' not in base or sorted(map(key, base['error']['data'])) != a): return 'booking reports with a plugin which changes nothing %s, without %s' % (a, str(base)[:1500])
            t = 'Booking failed\n\n' + told(path, got) + '\n'
            if rest != t: return 'tells %r, expected %r' % (rest, t)
        else:
            if not rest.startswith('Booking failed\n\n'): return 'tells %r' % rest
            m = shown(path, text, rest, want, synthetic)
            if m: return '%s\n%s' % (m, rest)
            for r in want:
                if tuple(r['span']) not in synthetic and r['span'][0] != 0: return 'a place which is not in the ledger: %s' % r
        return nothing()
    if ans['errors']: return 'errors %s' % ans['errors']
    m = re.fullmatch(r'\[limabean\] (\d+) directives resulting from booking and running plugins\n', rest)
    if not m or int(m.group(1)) != g[0] or not g[5]: return 'tells %r, directives %s' % (rest, g)
    if not any(p['does']('booked') for p in plugins) and g[0] != len(again['result']['directives']): return '%d directives, expected %d' % (g[0], len(again['result']['directives']))
def content_(d): return {k: v for k, v in d.items() if k != 'span'}
def w(chunk, r):
    chunk = [(t, [plugin(*x) for x in ps]) for t, ps in chunk]
    paths = [beanfile(c[0]) if c[0] is not None else '/nonexistent/%d.beancount' % i for i, c in enumerate(chunk)]
    for case, p, ans in zip(chunk, paths, call(F, paths, **JVM)):
        r.add('ledgers')
        m = judge(case, p, ans)
        if m: r.violation('%s\n%s' % (m, case[0]), dict(clj=F, files=[['main.beancount', case[0]]]))
        else:
            r.add('failed' if ans.get('errors') else 'loaded')
            r.outcome((tuple(ans.get('errors', ())), tuple(sorted({x['message'] for x in (ans.get('booking') or ())}))))
            if r.n['ledgers'] % 97 == 1: r.sample(dict(ledger=case[0], told=ans.get('text', '').replace(p, 'LEDGER')))
    for p in set(paths): 
        if os.path.exists(p): os.unlink(p)
LETTERS = ['%s open Assets:A\n', '%s open Assets:A USD\n  kk: "v"\n', '%s close Assets:A\n', '%s close Assets:U\n', '%s * "one" "fine" #t\n  Assets:A 1 USD\n  Equity:X\n', '%s * "unbalanced"\n  Assets:A 1 USD\n    kk: "v"\n  Equity:X 1 USD\n', '%s * "currency"\n  Equity:X\n  Assets:U 1 EUR\n',
           '%s txn "no account"\n  Equity:X\n  ! Assets:No 1 EUR\n', '%s txn "é"\n  Equity:X 1 USD\n  Assets:A\n  Assets:U\n', '%s balance Assets:A 100 USD\n', '%s balance Assets:U 1 EUR\n', '%s balance Assets:No 0 USD\n', '%s pad Assets:A Equity:X\n', '%s pad Assets:No Equity:X\n',
           '%s * "sell"\n  Assets:A -1 STK {}\n  Equity:X\n', '%s note Assets:A "n"\n', '%s event "a" "b"\n  kk: 1\n']
TOP = '2019-01-01 open Equity:X\n2019-01-01 open Assets:U USD\n'
def body(seq, top=TOP, same=False): return top + ''.join(LETTERS[i] % ('2020-01-%02d' % (1 if same else 1 + j)) for j, i in enumerate(seq))
PARSE = ['2020-01-01 opem Assets:A\n', '2020-01-01 open\n', 'garbage\n', '2020-01-01 * "x\n', '2020-13-01 open Assets:A\n', '2020-01-01 *\n  Assets:A 1 USD USD\n', '"\n', 'option "x"\n', 'include "/nonexistent"\n', '2020-01-01 open Assets:A "NOSUCH"\n', 'poptag #x\n', 'plugin\n', '2020-01-01 note Assets:A é\n']
def cases(deep):
    op = lambda o, ph, k=None, wth='w': ('mc-plug.act', dict(dict(op=o, phase=Kw(ph), **{'with': wth}), **({'kind': k} if k else {})))
    def c(t, *ps): return ''.join(written(plugin(*p)) for p in ps) + t, ps
    modes = [[], [('mc-plug.act', None)], [op('meta', 'raw')], [op('before', 'raw')], [op('copy', 'raw', 'txn')], [op('meta', 'raw', 'balance'), op('add', 'raw', 'open')], [op('twice', 'raw', 'open')], [op('meta', 'booked')], [op('err', 'raw', 'txn')], [op('err', 'booked', 'event')]]
    more = [[op('errs', 'raw', 'note')], [op('adderr', 'raw', 'event')], [op('adderr', 'booked', 'note')], [op('moderr', 'raw', 'txn')], [op('moderr', 'booked', 'txn')], [op('meta', 'raw'), op('err', 'raw', 'txn', 'the message')], [op('throw', 'raw', 'txn', 'boom')], [op('throw', 'booked', 'event', 'bang é')], [op('copy', 'raw', 'txn'), op('meta', 'raw')],
            [('mc-plug.choosy', None)], [('no.such', None), ('mc-plug.neither', None)], [('mc-plug.act', None), ('mc-plug.broken', None)], [('mc-plug.act', '{:a')], [op('drop', 'raw', 'open')], [('mc_plug.raw_only', None), op('meta', 'raw'), ('mc-plug.booked-only', None)]]
    L = range(len(LETTERS))
    yield None, []
    yield '', []
    for m in modes + more:
        yield c('', *m); yield c(TOP, *m)
        for i in L: yield c(body([i]), *m)
    for t in PARSE:
        for m in modes[:3] + more[-6:-1]:
            for u, v in (('', ''), (TOP, ''), (TOP, body([4], ''))) if not m else ((TOP, ''),): yield c(u + t + v, *m)
    for a, b in itertools.product(PARSE, repeat=2): yield c(TOP + a + body([15], '') + b)
    for k, m in enumerate(modes + more if deep else modes + more[3:6] + more[8:9]):
        for s in itertools.product(L, repeat=2): yield c(body((0,) + s if sum(s) % 3 else s, same=sum(s) % 5 == 0), *m)
    for s in itertools.product(L, repeat=3):
        for j, m in enumerate(modes[:5]):
            if deep or (sum(s) + s[0]) % 5 == j and s[2] < 13 and s[1] < 15: yield c(body((0,) + s if sum(s) % 4 else s), *m)
    if deep:
        for s in itertools.product(L, repeat=3):
            for j, m in enumerate(modes[5:] + more):
                if (sum(s) + s[0] + s[2]) % 11 == j % 11: yield c(body((0,) + s), *m)
    long = [i for i in range(len(LETTERS))] * 6
    for m in modes + more: yield c(body(long[:28]), *m); yield c(body(long[3:30], same=True), *m)
def once(it):
    seen = set()
    for c in it:
        if c[0] not in seen: seen.add(c[0]); yield c
def run(tier, seed):
    t = Result()
    deep = tier == 'thorough'
    _, d = fan_out(w, once(cases(deep)), 40, t, time.time() + (800 if deep else 200))
    n = t.n.get('ledgers', 0)
    return t, dict(states=n, transitions=n, traces_validated_against_impl=n, exhaustive=d)
