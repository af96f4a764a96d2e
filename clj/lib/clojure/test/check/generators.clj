(ns clojure.test.check.generators)
;; a generator is the list of all its values: the properties are run on every combination
(defn choose [a b] (range a (inc b)))
(defn fmap [f g] (map f g))
(defn elements [xs] (seq xs))
