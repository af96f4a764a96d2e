(ns cheshire.core (:require [cheshire.generate :as g] [cheshire.parse :as p]))
(defn generate-string
  ([obj] (json-write* obj @g/encoders))
  ([obj opts] (json-write* obj @g/encoders)))
(def encode generate-string)
(defn- keyfn [k] (cond (fn? k) k (true? k) keyword (keyword? k) k k keyword :else nil))
(defn parse-string
  ([s] (parse-string s nil nil))
  ([s key-fn] (parse-string s key-fn nil))
  ([s key-fn array-coerce-fn] (when s (json-parse* s (keyfn key-fn) array-coerce-fn p/*use-bigdecimals?*))))
(def decode parse-string)
(def parse-string-strict parse-string)
(def generate-stream (fn [obj w & _] (.write w (generate-string obj)) w))
(defn parse-stream [r & args] (apply parse-string (slurp r) args))
