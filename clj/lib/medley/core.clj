(ns medley.core)
(defn assoc-some ([m k v] (if (nil? v) m (assoc m k v))) ([m k v & kvs] (reduce (fn [m [k v]] (assoc-some m k v)) (assoc-some m k v) (partition 2 kvs))))
(defn map-vals [f m] (update-vals m f))
(defn map-keys [f m] (update-keys m f))
(defn filter-vals [f m] (into {} (filter (fn [[_ v]] (f v)) m)))
(defn filter-keys [f m] (into {} (filter (fn [[k _]] (f k)) m)))
(defn remove-vals [f m] (into {} (remove (fn [[_ v]] (f v)) m)))
(defn find-first [f xs] (first (filter f xs)))
(defn index-by [f xs] (into {} (map (fn [x] [(f x) x]) xs)))
