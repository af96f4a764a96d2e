(ns clojure.pprint)
(def ^:dynamic *print-right-margin* 72)
(defn pprint ([x] (prn x)) ([x w] (binding [*out* w] (prn x))))
(defn pp [] nil)
(defn print-table
  ([rows] (print-table (keys (first rows)) rows))
  ([ks rows] (doseq [r rows] (println (mapv #(get r %) ks)))))
(defn cl-format [w fmt & args] (apply format fmt args))
