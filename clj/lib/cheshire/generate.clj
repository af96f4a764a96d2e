(ns cheshire.generate)
(def encoders (atom {}))
(defn add-encoder [cls f] (swap! encoders assoc cls f) nil)
(defn remove-encoder [cls] (swap! encoders dissoc cls) nil)
