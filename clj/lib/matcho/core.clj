(ns matcho.core (:refer-clojure :exclude [assert]) (:require [clojure.test :as t]))
;; strictness is that of each part of the pattern by itself
(defn- mm [path x p]
  (let [strict (boolean (:matcho/strict (meta p)))]
    (cond (and (map? p) (map? x))
            (concat (mapcat (fn [[k v]] (mm (conj path k) (get x k) v)) p)
                    (when strict (map (fn [k] [(conj path k) :unexpected]) (remove #(contains? p %) (keys x)))))
          (and (sequential? p) (sequential? x))
            (concat (mapcat (fn [i] (mm (conj path i) (nth x i nil) (nth p i))) (range (count p)))
                    (when (and strict (not= (count x) (count p))) [[path {:count (count x) :expected (count p)}]]))
          (instance? java.util.regex.Pattern p) (when-not (and (string? x) (re-find p x)) [[path {:expected (str p) :but x}]])
          (fn? p) (when-not (p x) [[path {:expected p :but x}]])
          :else (when-not (= p x) [[path {:expected p :but x}]]))))
(defn mismatch [x p] (vec (mm [] x p)))
(defmacro assert [pattern x] `(let [errs# (mismatch ~x ~pattern)] (t/report-result (empty? errs#) errs#)))
