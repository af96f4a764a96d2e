;; Answers requests, one JSON line each: {"f": source of a function, "cases": [...]} -> [result, ...]
(ns user (:require [cheshire.core :as json] [cheshire.generate :as gen] [java-time.api :as jt] [clojure.string :as str]))
(gen/add-encoder java.time.LocalDate (fn [d jg] (.writeString jg (str d))))
(gen/add-encoder java.io.File (fn [d jg] (.writeString jg (str d))))
(defn- special [m]
  (when (= 1 (count m))
    (let [[k v] (first m)]
      (case k
        :$kw (keyword v) :$date (jt/local-date v) :$set (set v) :$re (re-pattern v) :$edn (eval (read-string v)) :$big (bigdec v) nil))))
(defn decode
  "as the pod's answers are read: dates, kinds and booking methods"
  [x]
  (cond (map? x)
          (if (and (= 1 (count x)) (= \$ (first (name (key (first x))))))
            (let [[k v] (first x)]
              (case k
                :$kw (keyword v) :$date (jt/local-date v) :$set (set (map decode v)) :$re (re-pattern v) :$edn (eval (read-string v)) :$list (apply list (map decode v))))
            (reduce (fn [m [k v]]
                      (assoc m k (cond (and (= k :date) (string? v)) (jt/local-date v)
                                       (and (= k :dct) (string? v)) (keyword v)
                                       (and (= k :booking) (string? v)) (keyword v)
                                       :else (decode v))))
                    {} x))
        (set? x) (into #{} (map decode) x)
        (vector? x) (mapv decode x)
        (sequential? x) (mapv decode x)
        :else x))
(defn- arrays [k] (if (contains? #{"currencies" "tags" "links"} k) #{} []))
(def functions (atom {}))
(defn- function [src]
  (or (get @functions src)
      (let [f (binding [*ns* (the-ns 'user)] (load-string src))] (swap! functions assoc src f) f)))
(defn- failure [t]
  (if (instance? clojure.lang.Exit t)
    {:$exit (exit-code* t)}
    {:$ex (.getName (class t)) :message (str (.getMessage t)) :data (try (pr-str (ex-data t)) (catch Throwable _ "?"))
     :cause (when (.getCause t) (str (.getCause t)))
     :root (loop [t t] (if (.getCause t) (recur (.getCause t)) (str (.getMessage t))))}))
(def stdout *out*)
(loop []
  (when-let [line (.readLine *in*)]
    (let [req (binding [cheshire.parse/*use-bigdecimals?* true] (json/parse-string line true arrays))
          answer (try
                   (let [f (function (:f req))]
                     (mapv (fn [c] (try (let [v (f (decode c))] (json/generate-string v)) (catch Throwable t (json/generate-string (failure t))))) (:cases req)))
                   (catch Throwable t (vec (repeat (count (:cases req)) (json/generate-string (assoc (failure t) :$compile true))))))]
      (.write stdout (str "[" (str/join "," answer) "]\n"))
      (.flush stdout))
    (recur)))
