(ns mc-plug.act
  "Plugin for the exploration of plugins: config {:phase :raw/:booked/:both, :op name, :kind kind of directive, :with value}."
  (:require [limabean.plugin :as plugin]))
(defn- both [rf r a b] (let [r (rf r a)] (if (reduced? r) r (rf r b))))
(defn- xf [{:keys [config options]} phase]
  (let [{:keys [op kind with]} config
        mine? (contains? #{phase :both} (:phase config))]
    (fn [rf]
      (let [seen (volatile! 0), stopped (volatile! false)]
        (fn
          ([] (rf))
          ([r] (if (and mine? (= op "count"))
                 (rf (unreduced (rf r {:date (java-time.api/local-date "2030-01-01"), :dct :note, :acc "Assets:A", :comment (str @seen " " with)})))
                 (rf r)))
          ([r d]
           (vswap! seen inc)
           (if (and mine? (not (and (= op "stop") @stopped)) (or (nil? kind) (= (name kind) (some-> (:dct d) name))))
             (case op
               "drop" r
               "add" (both rf r d {:date (:date d), :dct :note, :acc "Assets:A", :comment (str with)})
               "before" (both rf r {:date (:date d), :dct :event, :type "t", :description (str with)} d)
               "twice" (both rf r d d)
               "copy" (both rf r d (-> d (dissoc :span :span-p :provenance :idx) (assoc :links #{with})
                                       (cond-> (:postings d) (update :postings (fn [ps] (mapv #(dissoc % :span :span-p :idx) ps))))))
               "meta" (rf r (assoc-in d [:metadata :mcKey] {:string (str with)}))
               "links" (rf r (assoc d :links #{with}))
               "narration" (rf r (assoc d :narration (str with)))
               "option" (rf r (assoc d :narration (str "option " (get options (keyword with)))))
               "config" (rf r (assoc d :narration (pr-str config)))
               "err" (rf r (plugin/dct-error! d (str with)))
               "errs" (rf r (plugin/dct-error! (plugin/dct-error! d (str with)) "again"))
               "adderr" (both rf r d (plugin/dct-error! {:date (:date d), :dct :note, :acc "Assets:A", :comment (str with)} "inserted"))
               "moderr" (rf r (plugin/dct-error! (assoc d :links #{with}) "modified"))
               "throw" (throw (ex-info (str with) {}))
               "bad" (rf r (assoc d :date "2020!"))
               "badkind" (rf r (assoc d :dct :nosuch))
               "stop" (if @stopped (ensure-reduced r) (do (vreset! stopped true) (ensure-reduced (rf r d))))
               (rf r d))
             (if @stopped (ensure-reduced r) (rf r d)))))))))
(defn raw-xf [args] (xf args :raw))
(defn booked-xf [args] (xf args :booked))
