(ns clojure.java.io (:import [java.io File FileInputStream FileOutputStream InputStream OutputStream Reader Writer BufferedReader BufferedWriter InputStreamReader OutputStreamWriter BufferedInputStream BufferedOutputStream StringReader]))
(defn as-file [x] (cond (nil? x) nil (instance? File x) x (instance? java.nio.file.Path x) (.toFile x) (instance? java.net.URL x) (File. (.getPath x)) (string? x) (File. x) :else (throw (IllegalArgumentException. (str "No implementation of method: :as-file of protocol: #'clojure.java.io/Coercions found for class: " (.getName (class x)))))))
(defn file
  ([a] (as-file a))
  ([parent child]
   (let [p (as-file parent) c (as-file child)]
     (when (.isAbsolute c) (throw (IllegalArgumentException. (str c " is not a relative path"))))
     (File. p (.getPath c))))
  ([parent child & more] (reduce file (file parent child) more)))
(defn- in* [x] (cond (instance? InputStream x) x (instance? java.net.URL x) (.openStream x) (bytes? x) (java.io.ByteArrayInputStream. x) (nil? x) (throw (IllegalArgumentException. "Cannot open <nil> as an InputStream.")) :else (FileInputStream. (as-file x))))
(defn input-stream [x & opts] (BufferedInputStream. (in* x)))
(defn output-stream [x & {:keys [append]}] (BufferedOutputStream. (if (instance? OutputStream x) x (FileOutputStream. (as-file x) (boolean append)))))
(defn reader [x & opts] (if (instance? BufferedReader x) x (BufferedReader. (if (instance? Reader x) x (InputStreamReader. (in* x) "UTF-8")))))
(defn writer [x & {:keys [append]}] (if (instance? BufferedWriter x) x (BufferedWriter. (if (instance? Writer x) x (OutputStreamWriter. (if (instance? OutputStream x) x (FileOutputStream. (as-file x) (boolean append))) "UTF-8")))))
(defn resource [n & _] (first (keep (fn [d] (let [f (File. d n)] (when (.isFile f) (.toURL (.toURI f))))) (search-path*))))
(defn make-parents [f & more] (when-let [p (.getParentFile (apply file f more))] (.mkdirs p)))
(defn delete-file [f & [silently]] (or (.delete (as-file f)) silently (throw (java.io.IOException. (str "Couldn't delete " f)))))
(defn copy [in out & opts] (let [s (slurp in)] (if (instance? Writer out) (.write out s) (spit out s)) nil))
