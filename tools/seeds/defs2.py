C = 'clj/src/limabean/'
INV = C + 'core/inventory.clj'; ROL = C + 'core/rollup.clj'; JRN = C + 'core/journal.clj'; FIL = C + 'core/filters.clj'; FMT = C + 'core/format.clj'; CEL = C + 'core/cell.clj'; PLG = C + 'adapter/plugins.clj'; SYN = C + 'adapter/synthetic_spans.clj'; LDR = C + 'adapter/loader.clj'; ERR = C + 'adapter/error.clj'; USR = C + 'user.clj'; UCL = C + 'adapter/user_clj.clj'; APP = C + 'app.clj'; MAI = C + 'main.clj'; EXC = C + 'adapter/exception.clj'; UTL = C + 'util.clj'; AUT = 'clj/src/beancount/plugins/auto_accounts.clj'; REG = C + 'core/registry.clj'
# ---------------------------------------------------------------- C28
seed('c28-dust', 'C28', [(INV, "(if (zero? (:units p))", "(if (zero? (.setScale (bigdec (:units p)) 8 java.math.RoundingMode/DOWN))")],
 'a balance below the eighth decimal', 'positions smaller than 1e-8 vanish from inventories',
 '''out = loaded(OPEN + txn('Assets:A 0.000000000021 BTC', 'Equity:X'), '(prn (mapv :units (get (limabean/inventory beans) "Assets:A")))')
done(out.strip() == '[2.1E-11M]', out)''')
seed('c28-none-order', 'C28', [(INV, "(reduce rf result1 (:at-cost positions))", "(reduce rf result1 (sort-by (comp :date :cost) (:at-cost positions)))")],
 'an account without booking (NONE) to which lots are added in another order than that of their dates', 'lots of an account booked NONE are listed by date rather than in the order they were added',
 '''out = loaded('option "booking_method" "NONE"\\n' + OPEN + txn('Assets:A 1 STK {10 USD, 2019-05-05}', 'Equity:X') + txn('Assets:A 2 STK {10 USD, 2019-01-01}', 'Equity:X'), '(prn (mapv :units (get (limabean/inventory beans) "Assets:A")))')
done(out.strip() == '[1 2]', out)''')
seed('c28-registry-shadow', 'C28', [(REG, "(get-in reg [:accs acc :booking] (:default-booking reg))", "(or (some (fn [[a m]] (when (.startsWith ^String acc a) (:booking m))) (:accs reg))\n      (:default-booking reg))")],
 'an account whose name begins with that of another one with a booking method of its own', 'the booking method of an account leaks to others whose names begin alike',
 '''out = loaded('2018-01-01 open Assets:A "NONE"\\n2018-01-01 open Assets:AB\\n2018-01-01 open Equity:X\\n' + txn('Assets:AB 1 STK {10 USD, 2019-05-05}', 'Equity:X') + txn('Assets:AB 2 STK {10 USD, 2019-05-05}', 'Equity:X'), '(prn (mapv :units (get (limabean/inventory beans) "Assets:AB")))')
done(out.strip() == '[3]', out)''')
# ---------------------------------------------------------------- C29
seed('c29-cancelled-total', 'C29', [(ROL, "(and (contains? total-units acc)", "(and (not (zero? (get total-units acc 0M)))")],
 'a parent account with a balance of its own which its sub-accounts cancel', 'the total of an account is missing from a rollup when it is zero',
 '''out = loaded('2018-01-01 open Assets:A\\n2018-01-01 open Assets:A:B\\n' + txn('Assets:A 7 USD', 'Assets:A:B -7 USD'), '(prn (get-in (limabean/rollup (limabean/inventory beans)) ["Assets:A" :total]))')
done(out.strip() in ('[0 1]', '[0M 1]'), out)''')
seed('c29-deep', 'C29', [(ROL, '(str/split acc #":")', '(str/split acc #":" 4)')],
 'an account of five or more parts', 'a rollup lacks the totals of ancestors below the fourth part of an account name',
 '''out = loaded('2018-01-01 open Assets:A:B:C:D:E\\n2018-01-01 open Equity:X\\n' + txn('Assets:A:B:C:D:E 7 USD', 'Equity:X'), '(prn (sort (keys (limabean/rollup (limabean/inventory beans)))))')
done('"Assets:A:B:C:D"' in out and '"Assets:A:B:C" ' in out, out)''')
# ---------------------------------------------------------------- C30
seed('c30-zero-balance', 'C30', [(JRN, "(vreset! state accumulated)", "(when (seq bal) (vreset! state accumulated))")],
 'a running balance which comes to nothing and a posting after it', 'once the running balance is zero the balances which follow are those before it',
 '''out = loaded(OPEN + txn('Assets:A 7 USD', 'Equity:X') + txn('Assets:A -7 USD', 'Equity:X', date='2020-01-03') + txn('Assets:A 1 USD', 'Equity:X', date='2020-01-04'), '(prn (mapv (comp (partial mapv :units) :bal) (limabean/journal beans [(f/acc "Assets:A")])))')
done(out.strip() == '[[7] [] [1]]', out)''')
seed('c30-costs', 'C30', [(JRN, "(let [p (dissoc p :cost) ;; journal excludes cost\n               accumulated (inventory/accumulate @state p)", "(let [accumulated (inventory/accumulate @state p)\n               p (dissoc p :cost) ;; journal excludes cost")],
 'several lots of one currency', 'running balances list lots instead of the sum per currency',
 '''out = loaded(OPEN + txn('Assets:A 7 STK {1 USD}', 'Equity:X') + txn('Assets:A 2 STK {3 USD}', 'Equity:X', date='2020-01-03'), '(prn (mapv (comp (partial mapv :units) :bal) (limabean/journal beans [(f/acc "Assets:A")])))')
done(out.strip() == '[[7] [9]]', out)''')
# ---------------------------------------------------------------- C31
seed('c31-none', 'C31', [(FIL, "(fn [x] (not (some #(% x) filters)))", "(fn [x] (not (every? #(% x) filters)))")],
 'none-f of several filters of which some but not all select', 'none-f selects what only some of its filters select',
 '''out = clj("(require '[limabean.core.filters :as f]) (prn (mapv (f/none-f (f/acc \\"A\\") (f/cur \\"USD\\")) [{:acc \\"A\\" :cur \\"USD\\"} {:acc \\"A\\" :cur \\"EUR\\"} {:acc \\"B\\" :cur \\"EUR\\"}]))")
done(out.strip() == '[false false true]', out)''')
seed('c31-sibling', 'C31', [(FIL, '(str/starts-with? acc (str target-acc ":"))', '(and (str/starts-with? acc target-acc)\n                                    (str/includes? (subs acc (count target-acc)) ":"))')],
 'a sub-account of an account whose name begins with that asked for', 'sub-acc selects sub-accounts of accounts whose names merely begin alike',
 '''out = clj("(require '[limabean.core.filters :as f]) (prn (mapv (f/sub-acc \\"Assets:Bank\\") [{:acc \\"Assets:Bank\\"} {:acc \\"Assets:Bank:A\\"} {:acc \\"Assets:Banker\\"} {:acc \\"Assets:Banker:A\\"}]))")
done(out.strip() == '[true true false false]', out)''')
# ---------------------------------------------------------------- C32
seed('c32-payee-only', 'C32', [(FMT, "payee (print \"\" payee empty)", "payee (print \"\" payee)")],
 'a transaction with payee but without narration', 'a payee without narration is printed as a narration',
 '''out = clj("(require '[limabean.core.format :as f]) (print (f/directive->str {:dct :txn :date \\"2020-01-02\\" :flag \\"*\\" :payee \\"p\\"}))")
done(out.strip() == '2020-01-02 * "p" ""', out)''')
seed('c32-acc-with-units', 'C32', [(FMT, "(when (:merge cost) (print \", *\"))", "(when (and (:merge cost) (not (:label cost))) (print \", *\"))")],
 'a cost with a label and to be merged', 'the asterisk of a cost is not printed when it has a label',
 '''out = clj("(require '[limabean.core.format :as f]) (print (f/directive->str {:dct :txn :date \\"2020-01-02\\" :flag \\"*\\" :postings [{:acc \\"Assets:A\\" :units 1M :cur \\"S\\" :cost-spec {:per-unit 2M :cur \\"USD\\" :label \\"l\\" :merge true}}]}))")
done('"l", *}' in out, out)''')
seed('c32-custom-tags', 'C32', [(FMT, "(print-tags-and-links-on-separate-lines \"  \" (:tags dct) (:links dct)))\n", "(print-tags-and-links-on-separate-lines \"  \" (:tags dct) nil))\n")],
 'a custom directive with links', 'links of custom directives are not printed',
 '''out = clj("(require '[limabean.core.format :as f]) (print (f/directive->str {:dct :custom :date \\"2020-01-02\\" :type \\"t\\" :links #{\\"l\\"} :values [{:bool true}]}))")
done('^l' in out, out)''')
# ---------------------------------------------------------------- C33
P = '''PLUG = \'\'\'(ns %s) (defn %s [{:keys [config]}] (map (fn [d] %s)))\'\'\'
'''
seed('c33-spans-shift', 'C33', [(SYN, "(if (:provenance dct) (inc (count (:postings dct))) 0))", "(if (:provenance dct) (inc (count (remove :span (:postings dct)))) 0))")],
 'a plugin which changes a transaction and another directive after it', 'synthetic sources go to the wrong directives after a changed transaction with postings',
 P + '''out = loaded('plugin "p1" "1"\\n' + OPEN + txn('Assets:A 1 USD', 'Equity:X') + '2020-01-03 note Assets:A "c"\\n', """(prn (mapv (fn [d] (:content (first (limabean.adapter.pod/resolve-spans (:pod beans) [(:span-p d)])))) (filter :provenance (:raw-xf-directives beans))))""", {'p1.clj': PLUG % ('p1', 'raw-xf', '(if (#{:txn :note} (:dct d)) (assoc d :links #{"l"}) d)')})
done('2020-01-02 *' in out and '2020-01-03 note' in out, out)''')
seed('c33-order', 'C33', [(PLG, "(keep (fn [plugin]\n            (when-let", "(keep (fn [plugin]\n            (when-let"), (PLG, "          resolved-plugins)))\n\n(defn has-", "          (sort-by (comp nil? :config) resolved-plugins))))\n\n(defn has-")],
 'a plugin without configuration before one with it', 'plugins without configuration run after those with one',
 P + '''p = lambda n: PLUG % (n, 'raw-xf', '(if (= (:dct d) :note) (update d :comment str "-%s") d)' % n)
out = loaded('plugin "p1"\\nplugin "p2" "1"\\n' + OPEN + '2020-01-03 note Assets:A "c"\\n', '(prn (mapv :comment (filter :comment (:directives beans))))', {'p1.clj': p('p1'), 'p2.clj': p('p2')})
done(out.strip() == '["c-p1-p2"]', out)''')
seed('c33-auto-twice', 'C33', [(AUT, "(= (:dct dct) :open) (do (vreset! opened-accounts\n                                                 (conj @opened-accounts\n                                                       (:acc dct)))", "(= (:dct dct) :open) (do (vreset! opened-accounts\n                                                 (if (:currencies dct) @opened-accounts (conj @opened-accounts\n                                                       (:acc dct))))")],
 'auto_accounts with an account opened for certain currencies', 'auto_accounts opens accounts which are open already',
 '''out = loaded('plugin "beancount.plugins.auto_accounts"\\n2018-01-01 open Assets:A USD\\n' + txn('Assets:A 1 USD', 'Equity:X'), '(prn (mapv :acc (filter #(= :open (:dct %)) (:raw-xf-directives beans))))')
done(out.strip() == '["Assets:A" "Equity:X"]', out)''')
seed('c33-booked-on-raw', 'C33', [(LDR, "(when-let [", "(when-let [")] if False else [(LDR, "(or (:booked-xf-directives m) (:booked-directives m) [])", "(or (not-empty (:booked-xf-directives m)) (:booked-directives m) [])")],
 'a booked plugin which removes every directive', 'when booked plugins remove everything the directives before them are used',
 P + '''out = loaded('plugin "p1"\\n' + OPEN + txn('Assets:A 1 USD', 'Equity:X'), '(prn (count (:directives beans)))', {'p1.clj': "(ns p1) (defn booked-xf [_] (remove (constantly true)))"})
done(out.strip() == '0', out)''')
# ---------------------------------------------------------------- C34
seed('c34-related', 'C34', [(LDR, "      (:related report) (assoc :related", "      (and (not contexts) (:related report)) (assoc :related")],
 'a raw plugin and a posting to a closed account', 'with raw plugins an error in a posting does not tell where the account was closed',
 '''t = 'plugin "p1"\\n2018-01-01 open Assets:A\\n2018-01-01 open Equity:X\\n2019-01-01 close Assets:A\\n' + txn('Equity:X', 'Assets:A 1 USD')
f = {'p1.clj': '(ns p1) (defn raw-xf [_] (map identity))'}
s = '(prn (mapv (fn [r] (mapv first (:related r))) (get-in beans [:error :booking :spanned-reports])))'
out = loaded(t, s, f)
done(out.strip() == '[["close"]]', out)''')
seed('c34-second-error', 'C34', [(ERR, "(:err dct)))\n         dct-errors)))", "(take 1 (:err dct))))\n         dct-errors)))")],
 'a directive which two plugins mark in error', 'only the first error of a directive is told',
 '''f = {n + '.clj': '(ns %s (:require [limabean.plugin :as p])) (defn raw-xf [_] (map (fn [d] (if (= :note (:dct d)) (p/dct-error! d "wrong %s") d))))' % (n, n) for n in ('p1', 'p2')}
out = clj("(require 'limabean.user) (binding [*err* *out*] (limabean.user/load-beanfile \\"{D}/x.beancount\\"))", dict({'x.beancount': 'plugin "p1"\\nplugin "p2"\\n2018-01-01 open Assets:A\\n2020-01-01 note Assets:A "c"\\n'}, **f))
done('wrong p1' in out and 'wrong p2' in out, out)''')
seed('c34-posting-span', 'C34', [(LDR, "pst-span (or (:span pst) (:span-p pst))]", "pst-span (or (:span-p pst) (:span pst))]")],
 'an error in a posting of a transaction which a raw plugin changed', 'an error in a posting of a changed transaction is told at the synthetic source rather than in the file',
 '''f = {'p1.clj': '(ns p1) (defn raw-xf [_] (map (fn [d] (if (= :txn (:dct d)) (assoc d :narration "changed") d))))'}
out = loaded('plugin "p1"\\n2018-01-01 open Assets:A EUR\\n2018-01-01 open Equity:X\\n' + txn('Assets:A 1 USD', 'Equity:X -1 USD'), '(prn (mapv (comp first :span) (get-in beans [:error :booking :spanned-reports])))', f)
done(out.strip() == '[0]', out)''')
# ---------------------------------------------------------------- C35
seed('c35-nil-key', 'C35', [(CEL, "keys (try-sort (vec (keys x)))]", "keys (try-sort (vec (remove nil? (keys x))))]")],
 'a map with the key nil', 'what a map holds at nil is not shown',
 '''out = clj("(require 'limabean 'limabean.adapter.show) (limabean.adapter.show/show {nil 7M, \\"a\\" 12M})")
done('7' in out and '12' in out, out)''')
seed('c35-zero-bal', 'C35', [(JRN, "(cell (:cur ent)) (cell (:bal ent))]", "(cell (:cur ent)) (cell (take 3 (:bal ent)))]")],
 'a running balance of four or more currencies', 'a journal shows at most three currencies of the running balance',
 '''out = loaded(OPEN + ''.join(txn('Assets:A %d CU%s' % (i, 'ABCDE'[i]), 'Equity:X') for i in range(1, 5)), '(show (limabean/journal beans [(f/acc "Assets:A")]))')
done(out.count('CUE') == 2, out)''')
seed('c35-rollup-shallow', 'C35', [(ROL, "(concat (repeat (- (second item) total-width) cell/EMPTY)", "(concat (repeat (- (second item) (if total (second total) 0)) cell/EMPTY)")],
 'an account with both a balance and a different total', 'in a rollup the balance of an account which also has a total is a column too far right',
 '''out = loaded('2018-01-01 open Assets:A\\n2018-01-01 open Assets:A:B\\n2018-01-01 open Equity:X\\n' + txn('Assets:A 11 USD', 'Equity:X') + txn('Assets:A:B 7 USD', 'Equity:X'), '(show (limabean/rollup (limabean/inventory beans)))')
l = {x.split()[0]: x.rstrip() for x in out.split('\\n') if x.startswith('Assets')}
done(len(l['Assets:A']) == len(l['Assets:A:B']), out)''')
# ---------------------------------------------------------------- C36
MAIN = """GO = '''(require 'limabean.main) (println (binding [*in* (java.io.PushbackReader. (java.io.StringReader. %s))] (try (limabean.main/-main %s) (catch Throwable t (or (exit-code* t) (str t))))))'''
"""
seed('c36-user-stops', 'C36', [(UCL, "(run! (fn [clj]\n            (try (load-file clj)", "(some (fn [clj]\n            (try (load-file clj) nil")],
 'several user files of which one that is not the last fails', 'user files after one which fails are not loaded',
 MAIN + '''out = clj(GO % ('""', '"--beanfile" "{D}/x.beancount" "--eval" "(prn (resolve (quote later)))"'), {'x.beancount': OPEN, 'u1.clj': '(throw (ex-info "boom" {}))', 'u2.clj': '(def later 1)'}, env={'LIMABEAN_USER_CLJ': '{D}/u1.clj:{D}/u2.clj'})
done("#'user/later" in out, out)''')
seed('c36-stale-registry', 'C36', [(USR, "(assign-limabean-globals {})", "(alter-var-root #'*beans* (constantly {}))")],
 'a session which loads a ledger and then one that cannot be read', 'after a failed load *directives* and *options* are still those of the ledger before',
 MAIN + '''out = clj(GO % ('"(count *directives*) (load-beanfile \\\\"{D}/none.beancount\\\\") (count *directives*)"', '"--beanfile" "{D}/x.beancount"'), {'x.beancount': OPEN})
done(out.split('\\n')[:2] == ['3', '0'], out)''')
seed('c36-cause', 'C36', [(EXC, "(alter-var-root #'*exception* (constantly e))", "(alter-var-root #'*exception* #(or % e))")],
 'a second exception in a session', '*exception* keeps the first exception rather than the last',
 MAIN + '''out = clj(GO % ('"(throw (ex-info \\\\"one\\\\" {})) (throw (ex-info \\\\"two\\\\" {})) (:cause *exception*)"', '"--beanfile" "{D}/x.beancount"'), {'x.beancount': OPEN})
done('"two"' in out, out)''')
seed('c36-env-first', 'C36', [(MAI, '[nil "--beanfile PATH" "path to Beancount file, default $LIMABEAN_BEANFILE"\n    :default-fn (fn [_opts] (System/getenv "LIMABEAN_BEANFILE"))]', '[nil "--beanfile PATH" "path to Beancount file, default $LIMABEAN_BEANFILE"\n    :default-fn (fn [_opts] (System/getenv "LIMABEAN_BEANFILE"))\n    :parse-fn #(if (.exists (io/file %)) % (or (System/getenv "LIMABEAN_BEANFILE") %))]')],
 'LIMABEAN_BEANFILE set and --beanfile naming a file that does not exist', 'a ledger which does not exist is silently replaced by that of the environment',
 MAIN + '''out = clj(GO % ('""', '"--beanfile" "{D}/none.beancount" "--eval" "(prn 5)"'), {'x.beancount': OPEN}, env={'LIMABEAN_BEANFILE': '{D}/x.beancount'})
done(out.strip() == '1', out)''')
seed('c40-meta-trailing', 'C40', [(SER, """                            Some(other) => {
                                return Err(serde::de::Error::custom(format!(
                                    "unexpected key {:?} after currency",
                                    other
                                )));
                            }""", """                            Some(_) => {
                                let _: serde::de::IgnoredAny = map.next_value()?;
                                raw::MetaValue::Currency(cur)
                            }""")], 'a metadata value with a currency first and another member than units after it', 'the request is carried out with half of the value instead of being refused',
r'''
def b(v): return ask('', req('book', [dict(dct='commodity', date='2020-01-01', cur='USD', metadata=dict(kk=v))]))[0]
r = [b(dict(cur='USD', string='x')), b(dict(cur='USD', date='2020-01-01')), b(dict(cur='USD')), b(dict(cur='USD', units=1))]
done(['error' in x for x in r] == [True, True, False, False] and r[0]['error']['code'] == '-32700', r)
''')
seed('c40-date-length', 'C40', [(TY, """    Date::parse(s, &fmt)
""", """    Date::parse(s.get(..10).unwrap_or(s), &fmt)
""")], 'a metadata value with a date followed by more', 'the rest is dropped and the request carried out instead of being refused',
r'''
def b(v): return ask('', req('book', [dict(dct='commodity', date='2020-01-01', cur='USD', metadata=dict(kk=dict(date=v)))]))[0]
r = [b('2020-01-01'), b('2020-01-011'), b('2020-01-01T10:00:00'), b('2020-1-01'), b('2020-13-01')]
done(['error' in x for x in r] == [False, True, True, True, True], r)
''')
