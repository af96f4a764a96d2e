(ns clojure.string (:refer-clojure :exclude [reverse replace]))
(defn reverse [s] (.toString (.reverse (StringBuilder. (str s)))))
(defn re-quote-replacement [s] (java.util.regex.Matcher/quoteReplacement (str s)))
(defn- replace-by [s re f]
  (let [m (re-matcher re s) sb (StringBuilder.)]
    (loop [at 0]
      (if (.find m)
        (do (.append sb (subs s at (.start m)))
            (.append sb (str (f (if (zero? (.groupCount m)) (.group m) (mapv (fn [i] (.group m (int i))) (range (inc (.groupCount m))))))))
            (recur (long (.end m))))
        (do (.append sb (subs s at)) (.toString sb))))))
(defn replace [s match replacement]
  (let [s (.toString s)]
    (cond (char? match) (.replace s (str match) (str replacement))
          (string? match) (.replace s match (str replacement))
          (instance? java.util.regex.Pattern match)
            (if (string? replacement) (.replaceAll (re-matcher match s) replacement) (replace-by s match replacement))
          :else (throw (IllegalArgumentException. (str "Invalid match arg: " match))))))
(defn replace-first [s match replacement]
  (let [s (.toString s)]
    (cond (or (char? match) (string? match))
            (let [m (str match) i (.indexOf s m)] (if (neg? i) s (str (subs s 0 i) replacement (subs s (+ i (count m))))))
          (string? replacement) (.replaceFirst (re-matcher match s) replacement)
          :else (let [m (re-matcher match s)]
                  (if (.find m) (str (subs s 0 (.start m)) (replacement (if (zero? (.groupCount m)) (.group m) (mapv (fn [i] (.group m (int i))) (range (inc (.groupCount m)))))) (subs s (.end m))) s)))))
(defn join
  ([coll] (apply str coll))
  ([sep coll] (apply str (interpose (str sep) coll))))
(defn capitalize [s] (let [s (str s)] (if (< (count s) 2) (.toUpperCase s) (str (.toUpperCase (subs s 0 1)) (.toLowerCase (subs s 1))))))
(defn upper-case [s] (.toUpperCase (.toString s)))
(defn lower-case [s] (.toLowerCase (.toString s)))
(defn split
  ([s re] (vec (.split re s)))
  ([s re limit] (vec (.split re s (int limit)))))
(defn split-lines [s] (split s #"\r?\n"))
(defn trim [s] (.strip (.toString s)))
(defn triml [s] (.stripLeading (.toString s)))
(defn trimr [s] (.stripTrailing (.toString s)))
(defn trim-newline [s]
  (loop [i (count s)]
    (if (zero? i) "" (if (contains? #{\newline \return} (nth s (dec i))) (recur (dec i)) (subs s 0 i)))))
(defn blank? [s] (or (nil? s) (.isBlank (.toString s))))
(defn escape [s cmap] (apply str (map (fn [c] (if-let [r (cmap c)] r c)) s)))
(defn index-of
  ([s value] (let [r (.indexOf (.toString s) (str value))] (if (neg? r) nil (long r))))
  ([s value from] (let [r (.indexOf (.toString s) (str value) (int from))] (if (neg? r) nil (long r)))))
(defn last-index-of
  ([s value] (let [r (.lastIndexOf (.toString s) (str value))] (if (neg? r) nil (long r))))
  ([s value from] (let [r (.lastIndexOf (.toString s) (str value) (int from))] (if (neg? r) nil (long r)))))
(defn starts-with? [s sub] (.startsWith (.toString s) sub))
(defn ends-with? [s sub] (.endsWith (.toString s) sub))
(defn includes? [s sub] (.contains (.toString s) (.toString sub)))
