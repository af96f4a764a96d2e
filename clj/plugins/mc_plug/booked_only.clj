(ns mc-plug.booked-only)
(defn booked-xf [{:keys [config]}] (map #(if (= :txn (:dct %)) (assoc % :payee (str "booked " (pr-str config))) %)))
