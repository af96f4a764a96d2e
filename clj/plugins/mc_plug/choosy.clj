(ns mc-plug.choosy)
(defn raw-xf [{:keys [config]}] (if (:please config) (map identity) (throw (ex-info "say please" {}))))
