(ns mc-plug.raw-only)
(defn raw-xf [{:keys [config]}] (map #(if (= :txn (:dct %)) (assoc % :payee (str "raw " (pr-str config))) %)))
