(ns mc-plug.neither)
(defn xf [_] identity)
