(ns clojure.java.process (:import [java.lang ProcessBuilder ProcessBuilder$Redirect]))
(defn to-file [f & _] (ProcessBuilder$Redirect/to (java.io.File. (str f))))
(defn start [& opts+args]
  (let [[opts args] (if (map? (first opts+args)) [(first opts+args) (rest opts+args)] [{} opts+args])
        pb (ProcessBuilder. (java.util.ArrayList. (vec args)))
        rd (fn [x] (case x :inherit (ProcessBuilder$Redirect/INHERIT) :pipe (ProcessBuilder$Redirect/PIPE) :discard (ProcessBuilder$Redirect/DISCARD) x))
        env (.environment pb)]
    (.clear env) (.putAll env (env*))
    (when (:clear-env opts) (.clear env))
    (doseq [[k v] (:env opts)] (.put env (name k) (str v)))
    (when (:in opts) (.redirectInput pb (rd (:in opts))))
    (when (:out opts) (.redirectOutput pb (rd (:out opts))))
    (if (= :stdout (:err opts)) (.redirectErrorStream pb true) (when (:err opts) (.redirectError pb (rd (:err opts)))))
    (when (:dir opts) (.directory pb (java.io.File. (str (:dir opts)))))
    (.start pb)))
(defn stdin [p] (.getOutputStream p))
(defn stdout [p] (.getInputStream p))
(defn stderr [p] (.getErrorStream p))
(defn exit-ref [p] (delay (long (.waitFor p))))
(defn exec [& opts+args]
  (let [p (apply start opts+args) out (slurp (stdout p)) x (.waitFor p)]
    (when-not (zero? x) (throw (RuntimeException. (str "Process failed with exit=" x))))
    out))
