(ns clojure.test.check.clojure-test (:require [clojure.test :as t]))
(defmacro defspec [name & args]
  `(let [p# ~(last args)] (t/deftest ~name (t/is (p#)))))
