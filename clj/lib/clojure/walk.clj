(ns clojure.walk)
(defn walk [inner outer form]
  (cond (list? form) (outer (with-meta (apply list (map inner form)) (meta form)))
        (map-entry? form) (outer (map-entry (inner (key form)) (inner (val form))))
        (seq? form) (outer (with-meta (doall (map inner form)) (meta form)))
        (coll? form) (outer (into (empty form) (map inner form)))
        :else (outer form)))
(defn postwalk [f form] (walk (fn [x] (postwalk f x)) f form))
(defn prewalk [f form] (walk (fn [x] (prewalk f x)) identity (f form)))
(defn postwalk-replace [smap form] (postwalk (fn [x] (if (contains? smap x) (smap x) x)) form))
(defn prewalk-replace [smap form] (prewalk (fn [x] (if (contains? smap x) (smap x) x)) form))
(defn keywordize-keys [m] (postwalk (fn [x] (if (map? x) (into {} (map (fn [[k v]] [(if (string? k) (keyword k) k) v]) x)) x)) m))
(defn stringify-keys [m] (postwalk (fn [x] (if (map? x) (into {} (map (fn [[k v]] [(if (keyword? k) (name k) k) v]) x)) x)) m))
