(ns java-time.core (:refer-clojure :exclude [format max min range iterate])
  (:import [java.time LocalDate LocalDateTime ZonedDateTime Instant ZoneId Period Duration YearMonth Year DayOfWeek]
           [java.time.format DateTimeFormatter] [java.time.temporal ChronoUnit]))
(defn local-date? [x] (instance? LocalDate x))
(defn local-date
  ([] (LocalDate/now))
  ([x] (cond (instance? LocalDate x) x
             (string? x) (LocalDate/parse x)
             (number? x) (LocalDate/of (int x) 1 1)
             (instance? LocalDateTime x) (.toLocalDate x)
             (instance? ZonedDateTime x) (.toLocalDate x)
             (instance? YearMonth x) (.atDay x 1)
             (instance? Year x) (.atDay x 1)
             :else (throw (ex-info "Conversion failed" {:arguments (list x) :types (list (class x)) :constructor 'local-date}))))
  ([a b] (cond (and (number? a) (number? b)) (LocalDate/of (int a) (int b) 1)
               (string? b) (LocalDate/parse b (if (string? a) (DateTimeFormatter/ofPattern a) a))
               :else (throw (ex-info "Conversion failed" {:arguments (list a b) :types (list (class a) (class b)) :constructor 'local-date}))))
  ([y m d] (LocalDate/of (int y) (int m) (int d))))
(defn- chain [f] (fn ([a] true) ([a b] (f a b)) ([a b & more] (every? (fn [[x y]] (f x y)) (partition 2 1 (list* a b more))))))
(def before? (chain (fn [a b] (.isBefore a b))))
(def after? (chain (fn [a b] (.isAfter a b))))
(def not-before? (chain (fn [a b] (not (.isBefore a b)))))
(def not-after? (chain (fn [a b] (not (.isAfter a b)))))
(defn days [n] (Period/ofDays (int n)))
(defn weeks [n] (Period/ofWeeks (int n)))
(defn months [n] (Period/ofMonths (int n)))
(defn years [n] (Period/ofYears (int n)))
(defn plus [d & ps] (reduce (fn [d p] (.plus d p)) d ps))
(defn minus [d & ps] (reduce (fn [d p] (.minus d p)) d ps))
(defn max [d & ds] (reduce (fn [a b] (if (.isAfter b a) b a)) d ds))
(defn min [d & ds] (reduce (fn [a b] (if (.isBefore b a) b a)) d ds))
(defn format ([x] (str x)) ([fmt x] (.format x (if (string? fmt) (DateTimeFormatter/ofPattern fmt) fmt))))
(defn as [d p & ps]
  (let [v (fn [p] (long (case p :year (.getYear d) :month-of-year (.getMonthValue d) :day-of-month (.getDayOfMonth d) :day-of-year (.getDayOfYear d) :day-of-week (.getValue (.getDayOfWeek d)))))]
    (if ps (mapv v (cons p ps)) (v p))))
(defn instant ([] (Instant/now)) ([x] (if (string? x) (Instant/parse x) x)))
