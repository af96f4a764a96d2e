(ns clojure.test)
(def counts (atom {:pass 0 :fail 0 :error 0}))
(def ^:dynamic *testing* [])
(def registered (atom []))
(def results (atom []))
(defn report-result [ok what]
  (swap! results conj [(boolean ok) *testing*])
  (swap! counts update (if ok :pass :fail) inc)
  (when-not ok (binding [*out* *err*] (println "FAIL" *testing* (pr-str what))))
  ok)
(defmacro is
  ([form] `(is ~form nil))
  ([form msg]
   (cond (and (seq? form) (= 'thrown? (first form)))
           `(report-result (try ~@(nnext form) false (catch ~(second form) e# true)) '~form)
         (and (seq? form) (= 'thrown-with-msg? (first form)))
           `(report-result (try ~@(nnext (next form)) false (catch ~(second form) e# (boolean (re-find ~(nth form 2) (.getMessage e#))))) '~form)
         :else `(report-result (try ~form (catch Exception e# (println e#) false)) '~form))))
(defmacro are [argv expr & args]
  `(do ~@(map (fn [vals] `(let [~@(interleave argv vals)] (is ~expr))) (partition (count argv) args))))
(defmacro testing [s & body] `(binding [*testing* (conj *testing* ~s)] ~@body))
(defmacro deftest [name & body]
  `(do (defn ~name [] (binding [*testing* (conj *testing* ~(str name))] ~@body)) (swap! registered conj (var ~name))))
(defn use-fixtures [& _] nil)
(defn run-tests [& _]
  (doseq [v @registered] (try (@v) (catch Exception e (swap! counts update :error inc) (println "ERROR" v e))))
  @counts)
