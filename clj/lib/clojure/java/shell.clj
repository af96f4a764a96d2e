(ns clojure.java.shell (:require [clojure.java.process :as p]))
(defn sh [& args]
  (let [[cmd opts] (split-with string? args)
        {:keys [in out-enc env dir]} (apply hash-map opts)
        proc (apply p/start (cond-> {} env (assoc :env env :clear-env true) dir (assoc :dir dir)) cmd)
        err (future (slurp (.getErrorStream proc)))
        w (future (try (with-open [os (.getOutputStream proc)] (when in (.write os (if (string? in) (.getBytes in "UTF-8") in)))) (catch java.io.IOException e nil)))
        out (slurp (.getInputStream proc))]
    @w
    {:exit (long (.waitFor proc)) :out out :err @err}))
