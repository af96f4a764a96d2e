(ns zprint.core (:require [clojure.walk :as walk]))
;; structures by their parts, whatever :type their metadata says; leaves as pr does; keys in order
(defn- parts [x] (walk/postwalk (fn [x] (let [x (if (instance? clojure.lang.IObj x) (with-meta x nil) x)] (if (and (map? x) (every? keyword? (keys x))) (into (sorted-map) x) x))) x))
(defn zprint [x & _] (prn (parts x)))
