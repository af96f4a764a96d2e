;; The macros of clojure.core; everything else in it is built in (LibCore, LibMore).
(in-ns 'clojure.core)

(defmacro comment [& _] nil)
(defmacro defn [name & fdecl]
  (let* [doc (if (string? (first fdecl)) (first fdecl) nil)
         fdecl (if (string? (first fdecl)) (next fdecl) fdecl)
         m (if (map? (first fdecl)) (first fdecl) {})
         fdecl (if (map? (first fdecl)) (next fdecl) fdecl)
         single (vector? (first fdecl))
         tail (if single nil (if (map? (last fdecl)) (last fdecl) nil))
         fdecl (if tail (butlast fdecl) fdecl)
         m (if tail (conj m tail) m)
         m (if doc (assoc m :doc doc) m)
         arglists (if single (list (first fdecl)) (apply list (map first fdecl)))
         m (assoc m :arglists (list 'quote arglists))
         m (conj (if (meta name) (meta name) {}) m)]
    (list 'def (with-meta name m) (cons 'fn* (cons (symbol (clojure.core/name name)) fdecl)))))
(defmacro defn- [name & decls]
  (list* 'clojure.core/defn (with-meta name (assoc (meta name) :private true)) decls))
(defmacro declare [& names] `(do ~@(map (fn [n] (list 'def (with-meta n (assoc (meta n) :declared true)))) names)))
(defmacro when [test & body] (list 'if test (cons 'do body)))
(defmacro when-not [test & body] (list 'if test nil (cons 'do body)))
(defmacro if-not ([test then] (list 'if test nil then)) ([test then else] (list 'if test else then)))
(defmacro and
  ([] true)
  ([x] x)
  ([x & next] `(let [and# ~x] (if and# (and ~@next) and#))))
(defmacro or
  ([] nil)
  ([x] x)
  ([x & next] `(let [or# ~x] (if or# or# (or ~@next)))))
(defmacro cond [& clauses]
  (if clauses
    (do (if (next clauses) nil (throw (IllegalArgumentException. "cond requires an even number of forms")))
        (list 'if (first clauses) (second clauses) (cons 'clojure.core/cond (next (next clauses)))))
    nil))
(defmacro condp [pred expr & clauses]
  (let [gpred (gensym "pred__") gexpr (gensym "expr__")
        emit (fn emit [args]
               (cond (nil? args) `(throw (IllegalArgumentException. (str "No matching clause: " ~gexpr)))
                     (nil? (next args)) (first args)
                     (= :>> (second args)) `(if-let [p# (~gpred ~(first args) ~gexpr)] (~(nth args 2) p#) ~(emit (next (next (next args)))))
                     :else `(if (~gpred ~(first args) ~gexpr) ~(second args) ~(emit (next (next args))))))]
    `(let [~gpred ~pred ~gexpr ~expr] ~(emit (seq clauses)))))
(defmacro -> [x & forms]
  (loop [x x forms forms]
    (if forms
      (let [form (first forms)]
        (recur (if (seq? form) (with-meta `(~(first form) ~x ~@(next form)) (meta form)) (list form x)) (next forms)))
      x)))
(defmacro ->> [x & forms]
  (loop [x x forms forms]
    (if forms
      (let [form (first forms)]
        (recur (if (seq? form) (with-meta `(~(first form) ~@(next form) ~x) (meta form)) (list form x)) (next forms)))
      x)))
(defmacro as-> [expr name & forms]
  `(let [~name ~expr ~@(interleave (repeat name) (butlast forms))]
     ~(if (empty? forms) name (last forms))))
(defmacro cond-> [expr & clauses]
  (let [g (gensym) steps (map (fn [[test step]] `(if ~test (-> ~g ~step) ~g)) (partition 2 clauses))]
    `(let [~g ~expr ~@(interleave (repeat g) (butlast steps))]
       ~(if (empty? steps) g (last steps)))))
(defmacro cond->> [expr & clauses]
  (let [g (gensym) steps (map (fn [[test step]] `(if ~test (->> ~g ~step) ~g)) (partition 2 clauses))]
    `(let [~g ~expr ~@(interleave (repeat g) (butlast steps))]
       ~(if (empty? steps) g (last steps)))))
(defmacro some-> [expr & forms]
  (let [g (gensym) steps (map (fn [step] `(if (nil? ~g) nil (-> ~g ~step))) forms)]
    `(let [~g ~expr ~@(interleave (repeat g) (butlast steps))] ~(if (empty? steps) g (last steps)))))
(defmacro some->> [expr & forms]
  (let [g (gensym) steps (map (fn [step] `(if (nil? ~g) nil (->> ~g ~step))) forms)]
    `(let [~g ~expr ~@(interleave (repeat g) (butlast steps))] ~(if (empty? steps) g (last steps)))))
(defmacro if-let
  ([bindings then] `(if-let ~bindings ~then nil))
  ([bindings then else]
   (let [form (bindings 0) tst (bindings 1)]
     `(let [temp# ~tst] (if temp# (let [~form temp#] ~then) ~else)))))
(defmacro when-let [bindings & body]
  (let [form (bindings 0) tst (bindings 1)]
    `(let [temp# ~tst] (when temp# (let [~form temp#] ~@body)))))
(defmacro if-some
  ([bindings then] `(if-some ~bindings ~then nil))
  ([bindings then else]
   (let [form (bindings 0) tst (bindings 1)]
     `(let [temp# ~tst] (if (nil? temp#) ~else (let [~form temp#] ~then))))))
(defmacro when-some [bindings & body]
  (let [form (bindings 0) tst (bindings 1)]
    `(let [temp# ~tst] (if (nil? temp#) nil (let [~form temp#] ~@body)))))
(defmacro when-first [bindings & body]
  (let [[x xs] bindings]
    `(when-let [xs# (seq ~xs)] (let [~x (first xs#)] ~@body))))
(defmacro lazy-seq [& body] `(lazy-seq* (^{:once true} fn* [] ~@body)))
(defmacro lazy-cat [& colls] `(concat ~@(map (fn [c] (list `lazy-seq c)) colls)))
(defmacro delay [& body] `(delay* (fn* [] ~@body)))
(defmacro future [& body] `(future-call (fn* [] ~@body)))
(defmacro while [test & body] `(loop [] (when ~test ~@body (recur))))
(defmacro dotimes [[i n] & body]
  `(let [n# (long ~n)] (loop [~i 0] (when (< ~i n#) ~@body (recur (inc ~i))))))
(defmacro doto [x & forms]
  (let [gx (gensym)]
    `(let [~gx ~x]
       ~@(map (fn [f] (if (seq? f) (with-meta `(~(first f) ~gx ~@(next f)) (meta f)) (list f gx))) forms)
       ~gx)))
(defmacro ..
  ([x form] `(. ~x ~form))
  ([x form & more] `(.. (. ~x ~form) ~@more)))
(defmacro doseq [seq-exprs & body]
  (let [step (fn step [exprs]
               (if-not exprs
                 `(do ~@body nil)
                 (let [k (first exprs) v (second exprs) more (step (nnext exprs))]
                   (cond (= k :let) `(let ~v ~more)
                         (= k :when) `(when ~v ~more)
                         (= k :while) `(if ~v (do ~more true) false)
                         :else
                         (let [s (gensym "seq__")
                               stop? (loop [e (nnext exprs)] (cond (not (keyword? (first e))) false (= :while (first e)) true :else (recur (nnext e))))]
                           `(loop [~s (seq ~v)]
                              (when ~s
                                (let [~k (first ~s) r# ~more]
                                  ~(if stop? `(when-not (false? r#) (recur (next ~s))) `(recur (next ~s)))))))))))]
    `(do ~(step (seq seq-exprs)) nil)))
(defmacro for [seq-exprs body-expr]
  (let [groups (reduce (fn [g [k v]] (if (keyword? k) (conj (pop g) (conj (peek g) [k v])) (conj g [[k v]]))) [] (partition 2 seq-exprs))
        emit (fn emit [[[[bind expr] & mods] & more]]
               (let [f (gensym "iter__") s (gensym "s__")
                     inner (fn inner [mods]
                             (if-let [[[k v] & ms] (seq mods)]
                               (case k
                                 :let `(let ~v ~(inner ms))
                                 :when `(if ~v ~(inner ms) (recur (rest ~s)))
                                 :while `(when ~v ~(inner ms)))
                               (if more
                                 `(let [fs# (seq ~(emit more))]
                                    (if fs# (concat fs# (~f (rest ~s))) (recur (rest ~s))))
                                 `(cons ~body-expr (~f (rest ~s))))))]
                 `((fn ~f [s0#]
                     (lazy-seq
                       (loop [~s s0#]
                         (when-let [s1# (seq ~s)]
                           (let [~bind (first s1#)] ~(inner mods))))))
                   ~expr)))]
    (emit groups)))
(defmacro assert
  ([x] `(when-not ~x (throw (AssertionError. (str "Assert failed: " (pr-str '~x))))))
  ([x message] `(when-not ~x (throw (AssertionError. (str "Assert failed: " ~message "\n" (pr-str '~x)))))))
(defmacro binding [bindings & body]
  (let [m (vec (mapcat (fn [[k v]] [`(var ~k) v]) (partition 2 bindings)))]
    `(let [b# (hash-map ~@m)]
       (push-thread-bindings b#)
       (try ~@body (finally (pop-thread-bindings* b#))))))
(defmacro with-bindings [m & body] `(with-bindings* ~m (fn [] ~@body)))
(defmacro bound-fn [& fntail] `(fn ~@fntail))
(defmacro with-redefs [bindings & body]
  (let [ps (partition 2 bindings)]
    `(with-redefs-fn ~(zipmap (map (fn [[k _]] `(var ~k)) ps) (map second ps)) (fn [] ~@body))))
(defmacro with-local-vars [bindings & body] (throw (UnsupportedOperationException. "with-local-vars")))
(defmacro with-out-str [& body]
  `(let [s# (string-writer*)] (binding [*out* s#] ~@body (str s#))))
(defmacro with-in-str [s & body]
  `(binding [*in* (clojure.lang.LineReader. (java.io.StringReader. ~s))] ~@body))
(defmacro with-open [bindings & body]
  (if (empty? bindings) `(do ~@body)
    `(let [~(bindings 0) ~(bindings 1)]
       (try (with-open ~(subvec bindings 2) ~@body)
            (finally (. ~(bindings 0) close))))))
(defmacro with-precision [precision & exprs]
  (let [[body rm] (if (= (first exprs) :rounding) [(nnext exprs) `((. java.math.RoundingMode ~(second exprs)))] [exprs nil])]
    `(binding [*math-context* (java.math.MathContext. ~precision ~@rm)] ~@body)))
(defmacro locking [x & body] `(do ~x ~@body))
(defmacro io! [& body] `(do ~@body))
(defmacro sync [_ & body] `(do ~@body))
(defmacro dosync [& body] `(do ~@body))
(defmacro time [expr]
  `(let [start# (System/nanoTime) ret# ~expr]
     (prn (str "Elapsed time: " (/ (double (- (System/nanoTime) start#)) 1000000.0) " msecs"))
     ret#))
(defmacro defonce [name expr]
  `(let [v# (def ~name)] (when-not (bound? v#) (def ~name ~expr))))
(defmacro memfn [name & args]
  (let [t (gensym)] `(fn [~t ~@args] (. ~t (~name ~@args)))))
(defmacro vswap! [vol f & args] `(let [v# ~vol] (vreset! v# (~f (deref v#) ~@args))))
(defmacro defmulti [mm-name & options]
  (let [docstring (if (string? (first options)) (first options) nil)
        options (if docstring (next options) options)
        m (if (map? (first options)) (first options) {})
        options (if (map? (first options)) (next options) options)
        dispatch-fn (first options)
        opts (apply hash-map (next options))]
    `(let [v# (def ~(with-meta mm-name (merge (meta mm-name) m)))]
       (when-not (and (bound? v#) (multi?* (deref v#)))
         (def ~(with-meta mm-name (merge (meta mm-name) m (if docstring {:doc docstring} {})))
           (make-multi* ~(name mm-name) ~dispatch-fn ~(get opts :default :default)))))))
(defmacro defmethod [multifn dispatch-val & fn-tail]
  `(add-method* ~multifn ~dispatch-val (fn ~@fn-tail)))
(defmacro defstruct [& _] (throw (UnsupportedOperationException. "defstruct")))
(defmacro gen-class [& _] nil)
(defmacro refer-clojure [& filters] `(refer '~'clojure.core ~@(map (fn [f] (list 'quote f)) filters)))
(defmacro ns [name & references]
  (let [references (if (string? (first references)) (next references) references)
        references (if (map? (first references)) (next references) references)
        q (fn [x] (list 'quote x))]
    `(do (in-ns '~(symbol (clojure.core/name name)))
         ~@(map (fn [[k & args]]
                  (case k
                    :require `(clojure.core/require ~@(map q args))
                    :use `(clojure.core/use ~@(map q args))
                    :import `(clojure.core/import ~@(map (fn [a] a) args))
                    :refer-clojure `(clojure.core/refer-clojure ~@args)
                    :refer `(clojure.core/refer ~@(map q args))
                    :load `(clojure.core/load ~@args)
                    :gen-class nil))
                references)
         nil)))
(defmacro definline [name & decl] `(defn ~name ~@decl))
(defmacro pvalues [& exprs] `(list ~@exprs))
(defn partitionv ([n coll] (partitionv n n coll)) ([n step coll] (map vec (partition n step coll))) ([n step pad coll] (map vec (partition n step pad coll))))
(defn partitionv-all ([n] (comp (partition-all n) (map vec))) ([n coll] (partitionv-all n n coll)) ([n step coll] (map vec (partition-all n step coll))))
(defn pmap [f & colls] (doall (apply map f colls)))
(defn pcalls [& fns] (pmap #(%) fns))
(defn halt-when
  ([pred] (halt-when pred nil))
  ([pred retf]
   (fn [rf]
     (fn ([] (rf))
       ([result] (if (and (map? result) (contains? result ::halt)) (::halt result) (rf result)))
       ([result input] (if (pred input) (reduced {::halt (if retf (retf (rf result) input) input)}) (rf result input)))))))
(defn- array-of* [c size-or-seq init]
  (let [xs (if (number? size-or-seq) (repeat size-or-seq init) size-or-seq)] (into-array c xs)))
(defn long-array ([s] (array-of* Long/TYPE s 0)) ([n v] (array-of* Long/TYPE (repeat n v) 0)))
(defn int-array ([s] (array-of* Integer/TYPE s 0)) ([n v] (array-of* Integer/TYPE (repeat n v) 0)))
(defn double-array ([s] (array-of* Double/TYPE s 0.0)) ([n v] (array-of* Double/TYPE (repeat n v) 0)))
(defn aclone [a] (into-array (.getComponentType (class a)) (seq a)))
(defmacro areduce [a idx ret init expr] `(let [a# ~a n# (alength a#)] (loop [~idx 0 ~ret ~init] (if (< ~idx n#) (recur (inc ~idx) ~expr) ~ret))))
(defmacro amap [a idx ret expr] `(let [a# ~a n# (alength a#) ~ret (aclone a#)] (loop [~idx 0] (if (< ~idx n#) (do (aset ~ret ~idx ~expr) (recur (inc ~idx))) ~ret))))
(defn with-redefs-fn [m f]
  (let [old (into {} (map (fn [[v _]] [v @v])) m)]
    (try (doseq [[v x] m] (alter-var-root v (constantly x)))
         (f)
         (finally (doseq [[v x] old] (alter-var-root v (constantly x)))))))
(defn with-bindings* [m f & args]
  (push-thread-bindings m)
  (try (apply f args) (finally (pop-thread-bindings* m))))
(defmacro with-bindings [m & body] `(with-bindings* ~m (fn [] ~@body)))
(defn infinite? [x] (and (double? x) (Double/isInfinite x)))
(defn NaN? [x] (and (double? x) (Double/isNaN x)))
(defn ref [x & _] (atom x))
(defn alter [r f & args] (apply swap! r f args))
(defn commute [r f & args] (apply swap! r f args))
(defn ref-set [r x] (reset! r x))
(defn agent [x & _] (atom x))
(defn send [a f & args] (apply swap! a f args) a)
(defn send-off [a f & args] (apply swap! a f args) a)
(defn await [& _] nil)
(defn bases [c] (seq (cons (.getSuperclass c) (.getInterfaces c))))
(defn random-sample ([p] (filter (fn [_] (< (rand) p)))) ([p coll] (filter (fn [_] (< (rand) p)) coll)))
(defn clojure-version [] "1.12.0")
(defn unsigned-bit-shift-right [x n] (Long/divideUnsigned x (bit-shift-left 1 n)))
(defn iteration
  [step & {:keys [somef vf kf initk] :or {vf identity kf identity somef some?}}]
  ((fn nxt [ret] (when (somef ret) (cons (vf ret) (when-some [k (kf ret)] (lazy-seq (nxt (step k))))))) (step initk)))
(defn tagged-literal? [_] false)
(defn reader-conditional? [_] false)
