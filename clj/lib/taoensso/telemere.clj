(ns taoensso.telemere)
(def signals (atom []))
(def handlers (atom {:default/console true}))
(defn log* [m] (swap! signals conj m) true)
(defmacro log! [& args] `(log* ~(last args)))
(defmacro event! [& args] nil)
(defn pr-signal-fn [opts] opts)
(defn handler:file [opts] opts)
(defn handler:console [opts] opts)
(defn add-handler! [id f & _] (swap! handlers assoc id f) true)
(defn remove-handler! [id] (swap! handlers dissoc id) true)
(defn stop-handlers! [] true)
(defn call-on-shutdown! [f] nil)
(defn set-min-level! [& _] nil)
