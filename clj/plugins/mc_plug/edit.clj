(ns mc-plug.edit "Plugin which edits or inserts one directive: config {:phase :at :how :path :value/:gone}.")
(defn- edit [d {:keys [path value gone]}]
  (cond (not gone) (assoc-in d path value)
        (next path) (update-in d (vec (butlast path)) dissoc (last path))
        :else (dissoc d (first path))))
(defn- xf [{:keys [config]} phase]
  (if (not= phase (:phase config))
    (map identity)
    (comp (map-indexed (fn [i d]
                         (cond (not= i (:at config)) [d]
                               (= :modify (:how config)) [(edit d config)]
                               :else [d (dissoc (edit d config) :span :span-p :provenance :idx)])))
          cat)))
(defn raw-xf [args] (xf args :raw))
(defn booked-xf [args] (xf args :booked))
