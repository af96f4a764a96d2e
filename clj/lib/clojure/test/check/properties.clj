(ns clojure.test.check.properties)
(defmacro for-all [bindings & body]
  `(fn [] (every? identity (for [~@bindings] (do ~@body)))))
