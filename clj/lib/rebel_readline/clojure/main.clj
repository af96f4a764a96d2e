(ns rebel-readline.clojure.main)
;; a read-eval-print loop over *in*, as rebel-readline runs it
(defn repl [& {:keys [init caught]}]
  (try (init) (catch Throwable t (caught t)))
  (loop []
    (let [f (try [(read *in* false ::eof)] (catch Throwable t (caught t) nil))]
      (when-not (= f [::eof])
        (when f (try (prn (eval (first f))) (catch Throwable t (caught t))))
        (recur)))))
