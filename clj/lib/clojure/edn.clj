(ns clojure.edn (:refer-clojure :exclude [read read-string]))
(defn read-string
  ([s] (read-string {} s))
  ([opts s] (when s (edn-read* opts s))))
(defn read
  ([r] (read {} r))
  ([opts r] (edn-read* opts r)))
