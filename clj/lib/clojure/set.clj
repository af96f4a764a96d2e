(ns clojure.set)
(defn union
  ([] #{}) ([a] a)
  ([a b] (if (< (count a) (count b)) (reduce conj b a) (reduce conj a b)))
  ([a b & more] (reduce union (union a b) more)))
(defn intersection
  ([a] a)
  ([a b] (if (< (count b) (count a)) (recur b a) (reduce (fn [r x] (if (contains? b x) r (disj r x))) a a)))
  ([a b & more] (reduce intersection (intersection a b) more)))
(defn difference
  ([a] a)
  ([a b] (if (< (count a) (count b)) (reduce (fn [r x] (if (contains? b x) (disj r x) r)) a a) (reduce disj a b)))
  ([a b & more] (reduce difference (difference a b) more)))
(defn select [pred xset] (reduce (fn [s k] (if (pred k) s (disj s k))) xset xset))
(defn subset? [a b] (and (<= (count a) (count b)) (every? #(contains? b %) a)))
(defn superset? [a b] (and (>= (count a) (count b)) (every? #(contains? a %) b)))
(defn rename-keys [m kmap] (reduce (fn [r [o n]] (if (contains? m o) (assoc r n (get m o)) r)) (apply dissoc m (keys kmap)) kmap))
(defn project [xrel ks] (set (map #(select-keys % ks) xrel)))
(defn index [xrel ks] (reduce (fn [m x] (let [ik (select-keys x ks)] (assoc m ik (conj (get m ik #{}) x)))) {} xrel))
(defn map-invert [m] (reduce (fn [m [k v]] (assoc m v k)) {} m))
(defn rename [xrel kmap] (set (map #(rename-keys % kmap) xrel)))
(defn join
  ([xrel yrel] (if (and (seq xrel) (seq yrel)) (let [ks (intersection (set (keys (first xrel))) (set (keys (first yrel)))) i (index yrel ks)] (set (for [x xrel y (get i (select-keys x ks))] (merge y x)))) #{}))
  ([xrel yrel km] (set (for [x xrel y yrel :when (every? (fn [[a b]] (= (get x a) (get y b))) km)] (merge y x)))))
