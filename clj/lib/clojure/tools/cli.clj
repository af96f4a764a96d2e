(ns clojure.tools.cli (:require [clojure.string :as s]))
(defn- compile-spec [spec]
  (let [[short long desc & kvs] (if (string? (nth spec 2 nil)) spec (list* (nth spec 0) (nth spec 1 nil) nil (drop 2 spec)))
        kv (apply hash-map (if (or (nil? desc) (string? desc)) kvs (cons desc kvs)))
        [_ neg? nm req] (when long (re-matches #"--(\[no-\])?([^ ]+)(?: (.+))?" long))]
    (merge {:id (keyword nm) :short-opt short :long-opt (when nm (str "--" nm)) :required req :desc (when (string? desc) desc) :neg neg?} kv)))
(defn- find-spec [specs k v] (first (filter #(= v (get % k)) specs)))
(defn- summary [specs]
  (let [rows (map (fn [{:keys [short-opt long-opt required desc]}]
                    [(str (if short-opt (str short-opt (if long-opt ", " "")) "    ") long-opt (when required (str " " required))) (or desc "")]) specs)
        w (apply max 0 (map (comp count first) rows))]
    (s/join \newline (map (fn [[a b]] (s/trimr (str "  " a (apply str (repeat (- w (count a)) " ")) "  " b))) rows))))
(defn parse-opts [args option-specs & {:keys [in-order strict]}]
  (let [specs (mapv compile-spec option-specs)]
    (loop [args (seq args) opts {} arguments [] errors []]
      (if (nil? args)
        (let [opts (reduce (fn [o {:keys [id default] :as sp}] (if (and (contains? sp :default) (not (contains? o id))) (assoc o id default) o)) opts specs)
              opts (reduce (fn [o {:keys [id default-fn]}] (if (and default-fn (not (contains? o id))) (assoc o id (default-fn o)) o)) opts specs)]
          {:options opts :arguments arguments :summary (summary specs) :errors (seq errors)})
        (let [[a & more] args
              put (fn [opts sp v errors]
                    (let [v (if-let [p (:parse-fn sp)] (p v) v)
                          bad (when-let [[f msg] (:validate sp)] (when-not (f v) (str "Failed to validate " (pr-str (str (:long-opt sp) " " v)) (when msg (str ": " msg)))))]
                      (cond bad [opts (conj errors bad)]
                            (:assoc-fn sp) [((:assoc-fn sp) opts (:id sp) v) errors]
                            (:update-fn sp) [((fn [o] (update o (:id sp) (:update-fn sp))) opts) errors]
                            :else [(assoc opts (:id sp) v) errors])))]
          (cond (= a "--") (recur nil opts (into arguments more) errors)
                (re-matches #"--\S+=.*" a)
                  (let [[_ o v] (re-matches #"(--[^=]+)=(.*)" a) sp (find-spec specs :long-opt o)]
                    (cond (nil? sp) (recur (seq more) opts arguments (conj errors (str "Unknown option: " (pr-str o))))
                          (:required sp) (let [[opts errors] (put opts sp v errors)] (recur (seq more) opts arguments errors))
                          :else (let [[opts errors] (put opts sp true errors)] (recur (seq more) opts arguments errors))))
                (s/starts-with? a "--")
                  (let [sp (find-spec specs :long-opt a)]
                    (cond (nil? sp) (recur (seq more) opts arguments (conj errors (str "Unknown option: " (pr-str a))))
                          (not (:required sp)) (let [[opts errors] (put opts sp true errors)] (recur (seq more) opts arguments errors))
                          (nil? more) (recur nil opts arguments (conj errors (str "Missing required argument for " (pr-str (str (:long-opt sp) " " (:required sp))))))
                          :else (let [[opts errors] (put opts sp (first more) errors)] (recur (next more) opts arguments errors))))
                (and (s/starts-with? a "-") (> (count a) 1))
                  (let [cs (map #(str "-" %) (rest a))
                        [opts errors] (reduce (fn [[o e] c] (let [sp (find-spec specs :short-opt c)] (if sp (put o sp true e) [o (conj e (str "Unknown option: " (pr-str c)))]))) [opts errors] cs)]
                    (recur (seq more) opts arguments errors))
                in-order (recur nil opts (into arguments args) errors)
                :else (recur (seq more) opts (conj arguments a) errors)))))))
