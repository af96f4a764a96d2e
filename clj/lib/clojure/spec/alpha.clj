(ns clojure.spec.alpha (:refer-clojure :exclude [+ * and assert or cat def keys merge])
  (:require [clojure.core :as c] [clojure.walk :as walk]))
(c/defonce registry-ref (atom {}))
(defn registry [] @registry-ref)
(defn invalid? [x] (identical? ::invalid x))
(defn spec-obj? [x] (c/and (map? x) (contains? x ::conform)))
(declare conform*)
(defn get-spec [k] (let [s (get @registry-ref k)] (if (c/and (keyword? s) (contains? @registry-ref s)) (recur s) s)))
(defn- the-spec [s]
  (if (keyword? s)
    (c/or (get-spec s) (throw (Exception. (str "Unable to resolve spec: " s))))
    s))
(defn conform* [s x]
  (let [s (the-spec s)]
    (cond (spec-obj? s) ((::conform s) x)
          (ifn? s) (if (s x) x ::invalid)
          :else (throw (Exception. (str (pr-str s) " is not a fn, expected predicate fn"))))))
(defn problems* [s form path via in x]
  (let [via (if (keyword? s) (conj via s) via) s (the-spec s)]
    (if (c/and (spec-obj? s) (::problems s))
      ((::problems s) path via in x)
      (when (invalid? (conform* s x)) [{:path path :pred form :val x :via via :in in}]))))
(defn conform [s x] (conform* s x))
(defn valid? [s x] (not (invalid? (conform* s x))))
(defn form [s] (::form (get-spec s)))
(defn explain-data [s x]
  (let [ps (problems* s s [] [] [] x)]
    (when (seq ps) {::problems (vec ps) ::spec s ::value x})))
(defn explain-str [s x]
  (if-let [d (explain-data s x)]
    (apply str (map (fn [{:keys [val pred path via in]}] (str (pr-str val) " - failed: " (pr-str pred) (when (seq in) (str " in: " (pr-str in))) (when (seq path) (str " at: " (pr-str path))) (when (seq via) (str " spec: " (pr-str (last via)))) "\n")) (::problems d)))
    "Success!\n"))
(defn explain [s x] (print (explain-str s x)))
(c/defmacro def [k form]
  `(do (swap! registry-ref assoc ~(if (symbol? k) `'~(symbol (str *ns*) (name k)) k) ~form) ~(if (symbol? k) `'~k k)))
(c/defmacro spec [form & _] form)
(defn and* [forms specs]
  {::form (cons `and forms)
   ::conform (fn [x] (reduce (fn [x s] (let [r (conform* s x)] (if (invalid? r) (reduced ::invalid) r))) x specs))
   ::problems (fn [path via in x]
                (loop [x x fs forms ss specs]
                  (when ss
                    (let [r (conform* (first ss) x)]
                      (if (invalid? r) (problems* (first ss) (first fs) path via in x) (recur r (next fs) (next ss)))))))})
(c/defmacro and [& forms] `(and* '~forms (list ~@forms)))
(defn or* [ks forms specs]
  {::form (cons `or (interleave ks forms))
   ::conform (fn [x] (c/or (first (keep (fn [[k s]] (let [r (conform* s x)] (when-not (invalid? r) [k r]))) (map vector ks specs))) ::invalid))
   ::problems (fn [path via in x]
                (when (every? (fn [s] (invalid? (conform* s x))) specs)
                  (mapcat (fn [k f s] (problems* s f (conj path k) via in x)) ks forms specs)))})
(c/defmacro or [& kfs] (let [ps (partition 2 kfs)] `(or* '~(map first ps) '~(map second ps) (list ~@(map second ps)))))
(c/defmacro nilable [form] `(let [s# ~form] {::form '(nilable ~form) ::conform (fn [x#] (if (nil? x#) nil (conform* s# x#)))}))
(defn- unk [k] (keyword (name k)))
(defn- req-ok? [m req f] (cond (keyword? req) (contains? m (f req)) (= 'or (first req)) (some #(req-ok? m % f) (rest req)) (= 'and (first req)) (every? #(req-ok? m % f) (rest req)) :else (req-ok? m (second req) f)))
(defn- flat [reqs] (filter keyword? (flatten reqs)))
(defn keys* [{:keys [req opt req-un opt-un]}]
  (let [k->s (into {} (concat (map (fn [k] [k k]) (concat (flat req) opt)) (map (fn [k] [(unk k) k]) (concat (flat req-un) opt-un))))
        missing (fn [m] (concat (remove #(req-ok? m % identity) req) (remove #(req-ok? m % unk) req-un)))]
    {::form (list `keys)
     ::conform (fn [x]
                 (if (c/or (not (map? x)) (seq (missing x))) ::invalid
                   (reduce (fn [r [k v]]
                             (let [s (get-spec (get k->s k k))]
                               (if s
                                 (let [cv (conform* s v)] (cond (invalid? cv) (reduced ::invalid) (identical? cv v) r :else (assoc r k cv)))
                                 r)))
                           x x)))
     ::problems (fn [path via in x]
                  (if-not (map? x) [{:path path :pred `map? :val x :via via :in in}]
                    (concat (map (fn [k] {:path path :pred (list 'contains? '% (if (keyword? k) (if (some #{k} req-un) (unk k) k) k)) :val x :via via :in in}) (missing x))
                            (mapcat (fn [[k v]] (when (get-spec (get k->s k k)) (problems* (get k->s k k) (get k->s k k) (conj path k) via (conj in k) v))) x))))}))
(c/defmacro keys [& {:as opts}] `(keys* '~opts))
(defn merge* [specs]
  {::form (list `merge)
   ::conform (fn [x] (let [ms (map #(conform* % x) specs)] (if (some invalid? ms) ::invalid (apply c/merge ms))))
   ::problems (fn [path via in x] (mapcat #(problems* % % path via in x) specs))})
(c/defmacro merge [& forms] `(merge* (list ~@forms)))
(defn coll-of* [form s {:keys [kind count min-count max-count distinct into]}]
  (let [shape (fn [x] (c/and (coll? x) (c/or (nil? kind) (valid? kind x)) (c/or (nil? count) (= count (bounded-count (inc count) x)))
                             (c/or (nil? min-count) (<= min-count (c/count x))) (c/or (nil? max-count) (<= (c/count x) max-count))
                             (c/or (not distinct) (empty? x) (apply distinct? x))))]
    {::form form
     ::conform (fn [x]
                 (if-not (shape x) ::invalid
                   (let [vs (map #(conform* s %) x)]
                     (if (some invalid? vs) ::invalid
                       (cond into (c/into into vs) (vector? x) (c/into (empty x) vs) (seq? x) vs :else (c/into (empty x) vs))))))
     ::problems (fn [path via in x]
                  (if-not (shape x) [{:path path :pred (c/or kind `coll?) :val x :via via :in in}]
                    (apply concat (map-indexed (fn [i v] (problems* s form path via (conj in i) v)) x))))}))
(c/defmacro coll-of [pred & {:as opts}] `(coll-of* '~pred ~pred ~opts))
(c/defmacro every [pred & {:as opts}] `(coll-of* '~pred ~pred ~opts))
(defn map-of* [form ks vs {:keys [count min-count max-count conform-keys]}]
  (let [shape (fn [x] (c/and (map? x) (c/or (nil? count) (= count (c/count x))) (c/or (nil? min-count) (<= min-count (c/count x))) (c/or (nil? max-count) (<= (c/count x) max-count))))]
    {::form form
     ::conform (fn [x]
                 (if-not (shape x) ::invalid
                   (reduce (fn [r [k v]]
                             (let [ck (conform* ks k) cv (conform* vs v)]
                               (if (c/or (invalid? ck) (invalid? cv)) (reduced ::invalid) (assoc r (if conform-keys ck k) cv))))
                           (empty x) x)))
     ::problems (fn [path via in x]
                  (if-not (shape x) [{:path path :pred `map? :val x :via via :in in}]
                    (mapcat (fn [[k v]] (concat (problems* ks form (conj path 0) via (conj in k 0) k) (problems* vs form (conj path 1) via (conj in k 1) v))) x)))}))
(c/defmacro map-of [kp vp & {:as opts}] `(map-of* '(map-of ~kp ~vp) ~kp ~vp ~opts))
(defn tuple* [forms specs]
  {::form (cons `tuple forms)
   ::conform (fn [x] (if-not (c/and (vector? x) (= (count x) (count specs))) ::invalid (let [vs (mapv conform* specs x)] (if (some invalid? vs) ::invalid vs))))})
(c/defmacro tuple [& preds] `(tuple* '~preds (list ~@preds)))
(defn multi-spec* [mm retag]
  (let [pick (fn [x] (let [d ((fn [] (let [f (.dispatchFn mm)] (f x))))] (when-let [m (get-method mm d)] (m x))))]
    {::form (list `multi-spec)
     ::conform (fn [x] (if-let [s (pick x)] (conform* s x) ::invalid))
     ::problems (fn [path via in x]
                  (if-let [s (pick x)] (problems* s s path via in x) [{:path path :pred 'no-method :val x :via via :in in}]))}))
(c/defmacro multi-spec [mm retag] `(multi-spec* ~mm ~retag))
(def check? (atom false))
(defn check-asserts [flag] (reset! check? (boolean flag)))
(defn check-asserts? [] @check?)
(def ^:dynamic *compile-asserts* true)
(defn assert* [spec x]
  (if (valid? spec x) x
    (let [ed (c/merge (assoc (explain-data spec x) ::failure :assertion-failed))]
      (throw (ex-info (str "Spec assertion failed\n" (explain-str spec x)) ed)))))
(c/defmacro assert [spec x] `(let [x# ~x] (if (check-asserts?) (assert* ~spec x#) x#)))
(c/defmacro fdef [& _] nil)
(defn int-in-range? [start end v] (c/and (int? v) (<= start v) (< v end)))
(c/defmacro int-in [a b] `(and int? (fn [v#] (int-in-range? ~a ~b v#))))
(defn unform [s x] x)
