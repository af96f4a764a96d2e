(ns cheshire.parse)
(def ^:dynamic *chunk-size* 32)
(def ^:dynamic *use-bigdecimals?* false)
