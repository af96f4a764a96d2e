package clojure.lang;
import java.io.*;
import java.math.*;
import java.nio.charset.StandardCharsets;
import java.util.*;
import java.util.regex.*;
import static clojure.lang.Lib.*;

/** clojure.core: strings, state, vars, namespaces, printing, reading; and helpers of the libraries */
final class LibMore {
    static String s(Object o) { return RT.cast(CharSequence.class, o).toString(); }
    static void init() {
        f("str", 0, -1, a -> { if (a.length == 1) return RT.str(a[0]); StringBuilder b = new StringBuilder(); for (Object x : a) b.append(RT.str(x)); return b.toString(); });
        f("name", 1, 1, a -> a[0] instanceof String ? a[0] : RT.cast(Named.class, a[0]).getName()); f("namespace", 1, 1, a -> RT.cast(Named.class, a[0]).getNamespace());
        f("keyword", 1, 2, a -> a.length == 2 ? Keyword.intern((String) a[0], (String) a[1]) : a[0] instanceof Keyword ? a[0] : a[0] instanceof Symbol ? Keyword.intern((Symbol) a[0]) : a[0] instanceof String ? Keyword.intern((String) a[0]) : null); f("find-keyword", 1, 1, a -> Keyword.intern(a[0].toString()));
        f("symbol", 1, 2, a -> a.length == 2 ? Symbol.intern((String) a[0], (String) a[1]) : a[0] instanceof Symbol ? a[0] : a[0] instanceof String ? Symbol.intern((String) a[0]) : a[0] instanceof Keyword ? ((Keyword) a[0]).sym : a[0] instanceof Var ? Symbol.intern(((Var) a[0]).ns.name.toString(), ((Var) a[0]).sym.name) : bad("no conversion to symbol")); f("gensym", 0, 1, a -> Symbol.intern(null, (a.length > 0 ? a[0] : "G__") + "" + LispReader.nextId()));
        f("subs", 2, 3, a -> a.length == 2 ? s(a[0]).substring(i(a[1])) : s(a[0]).substring(i(a[1]), i(a[2]))); f("format", 1, -1, a -> String.format(s(a[0]), fmtArgs(tail(a, 1)))); f("printf", 1, -1, a -> { out().write(String.format(s(a[0]), fmtArgs(tail(a, 1)))); return null; });
        f("re-pattern", 1, 1, a -> a[0] instanceof Pattern ? a[0] : Pattern.compile(s(a[0]))); f("re-matcher", 2, 2, a -> RT.cast(Pattern.class, a[0]).matcher(s(a[1]))); f("re-find", 1, 2, a -> { Matcher m = a.length == 1 ? (Matcher) a[0] : RT.cast(Pattern.class, a[0]).matcher(s(a[1])); return m.find() ? groups(m) : null; }); f("re-matches", 2, 2, a -> { Matcher m = RT.cast(Pattern.class, a[0]).matcher(s(a[1])); return m.matches() ? groups(m) : null; }); f("re-seq", 2, 2, a -> RT.seq(reSeq(RT.cast(Pattern.class, a[0]).matcher(s(a[1]))))); f("re-groups", 1, 1, a -> groups((Matcher) a[0]));
        // state
        f("atom", 1, -1, a -> { Atom x = new Atom(a[0]); for (int k = 1; k + 1 < a.length; k += 2) if (a[k] == RT.kw("meta")) x.meta = a[k + 1]; else if (a[k] == RT.kw("validator")) x.validator = fn(a[k + 1]); return x; });
        f("deref", 1, 3, a -> a[0] instanceof IDeref ? ((IDeref) a[0]).deref() : a[0] instanceof java.util.concurrent.Future ? ((java.util.concurrent.Future) a[0]).get() : RT.cast(IDeref.class, a[0])); f("swap!", 2, -1, a -> RT.nth(swap(RT.cast(Atom.class, a[0]), fn(a[1]), tail(a, 2)), 1)); f("swap-vals!", 2, -1, a -> swap(RT.cast(Atom.class, a[0]), fn(a[1]), tail(a, 2))); f("reset!", 2, 2, a -> { Atom x = RT.cast(Atom.class, a[0]); x.check(a[1]); return x.notifyW(x.r.getAndSet(a[1]), a[1]); }); f("reset-vals!", 2, 2, a -> RT.vec(((Atom) a[0]).r.getAndSet(a[1]), a[1])); f("compare-and-set!", 3, 3, a -> ((Atom) a[0]).r.compareAndSet(a[1], a[2]));
        f("add-watch", 3, 3, a -> { Atom x = (Atom) a[0]; x.watches = x.watches.assoc(a[1], a[2]); return x; }); f("remove-watch", 2, 2, a -> { Atom x = (Atom) a[0]; x.watches = x.watches.without(a[1]); return x; });
        f("volatile!", 1, 1, a -> new Volatile(a[0])); f("vreset!", 2, 2, a -> RT.cast(Volatile.class, a[0]).val = a[1]); f("delay*", 1, 1, a -> new Delay(fn(a[0]))); f("force", 1, 1, a -> a[0] instanceof Delay ? ((Delay) a[0]).deref() : a[0]); f("realized?", 1, 1, a -> RT.cast(IPending.class, a[0]).isRealized());
        f("future-call", 1, 1, a -> { Delay d = new Delay(fn(a[0])); Thread t = new Thread(null, () -> { try { d.deref(); } catch (Throwable x) { } }, "future", 64L << 20); t.setDaemon(true); t.start(); while (!d.started) Thread.onSpinWait(); return d; });
        f("promise", 0, 0, a -> new Atom(null)); f("deliver", 2, 2, a -> { ((Atom) a[0]).r.set(a[1]); return a[0]; });
        // meta
        f("meta", 1, 1, a -> RT.meta(a[0])); f("with-meta", 2, 2, a -> RT.cast(IObj.class, a[0]).withMeta(a[1])); f("vary-meta", 2, -1, a -> RT.cast(IObj.class, a[0]).withMeta(fn(a[1]).invoke(prepend(RT.meta(a[0]), tail(a, 2)))));
        f("alter-meta!", 2, -1, a -> { Object m = fn(a[1]).invoke(prepend(RT.meta(a[0]), tail(a, 2))); if (a[0] instanceof Var) ((Var) a[0]).setMeta(m); else if (a[0] instanceof Namespace) ((Namespace) a[0]).meta = m; else ((Atom) a[0]).meta = m; return m; }); f("reset-meta!", 2, 2, a -> { if (a[0] instanceof Var) ((Var) a[0]).setMeta(a[1]); else if (a[0] instanceof Namespace) ((Namespace) a[0]).meta = a[1]; return a[1]; });
        // vars
        f("var-get", 1, 1, a -> ((Var) a[0]).get()); f("var-set", 2, 2, a -> ((Var) a[0]).set(a[1])); f("alter-var-root", 2, -1, a -> { Var v = RT.cast(Var.class, a[0]); synchronized (v) { return v.root = fn(a[1]).invoke(prepend(v.root, tail(a, 2))); } }); f("bound?", 1, -1, a -> { for (Object v : a) if (((Var) v).deref() == Var.UNBOUND) return false; return true; }); f("thread-bound?", 1, -1, a -> { for (Object v : a) if (!((Var) v).isBoundT()) return false; return true; });
        f("find-var", 1, 1, a -> { Symbol q = (Symbol) a[0]; Namespace n = Namespace.find(Symbol.intern(null, q.ns)); if (n == null) throw new IllegalArgumentException("No such namespace: " + q.ns); Object o = n.mappings.get(q.name); return o instanceof Var ? o : null; }); f("intern", 2, 3, a -> { Var v = theNs(a[0]).intern((Symbol) a[1]); if (a.length > 2) v.root = a[2]; if (RT.meta(a[1]) != null) v.setMeta(RT.meta(a[1])); return v; });
        f("push-thread-bindings", 1, 1, a -> { for (Object e : RT.entries((Map) a[0])) { Var v = (Var) ((Map.Entry) e).getKey(); if (!v.dynamic) throw new IllegalStateException("Can't dynamically bind non-dynamic var: " + v.ns.name + "/" + v.sym); } for (Object e : RT.entries((Map) a[0])) ((Var) ((Map.Entry) e).getKey()).push(((Map.Entry) e).getValue()); return null; });
        f("pop-thread-bindings*", 1, 1, a -> { for (Object e : RT.entries((Map) a[0])) ((Var) ((Map.Entry) e).getKey()).pop(); return null; });
        f("bound-fn*", 1, 1, a -> a[0]);
        // namespaces
        f("in-ns", 1, 1, a -> inNs((Symbol) a[0])); f("find-ns", 1, 1, a -> Namespace.find((Symbol) a[0])); f("create-ns", 1, 1, a -> Namespace.findOrCreate((Symbol) a[0])); f("the-ns", 1, 1, a -> theNs(a[0])); f("ns-name", 1, 1, a -> theNs(a[0]).name); f("all-ns", 0, 0, a -> RT.seq(new ArrayList(Namespace.all.values()))); f("remove-ns", 1, 1, a -> { Lib.loaded.remove(a[0].toString()); return Namespace.all.remove(a[0].toString()); });
        f("resolve", 1, 2, a -> resolve(Compiler.ns(), (Symbol) a[a.length - 1])); f("ns-resolve", 2, 3, a -> resolve(theNs(a[0]), (Symbol) a[a.length - 1])); f("requiring-resolve", 1, 1, a -> { Symbol q = (Symbol) a[0]; Object o = resolve(Compiler.ns(), q); if (o != null) return o; loadLib(Symbol.intern(null, q.ns), false); return resolve(Compiler.ns(), q); });
        f("ns-publics", 1, 1, a -> vars(theNs(a[0]), true)); f("ns-interns", 1, 1, a -> vars(theNs(a[0]), false)); f("ns-map", 1, 1, a -> { Object m = PersistentHashMap.EMPTY; for (Map.Entry<String, Object> e : theNs(a[0]).mappings.entrySet()) m = RT.assoc(m, Symbol.intern(null, e.getKey()), e.getValue()); return m; }); f("ns-aliases", 1, 1, a -> { Object m = PersistentHashMap.EMPTY; for (Map.Entry<String, Namespace> e : theNs(a[0]).aliases.entrySet()) m = RT.assoc(m, Symbol.intern(null, e.getKey()), e.getValue()); return m; }); f("ns-unmap", 2, 2, a -> { theNs(a[0]).mappings.remove(a[1].toString()); return null; }); f("ns-unalias", 2, 2, a -> { theNs(a[0]).aliases.remove(a[1].toString()); return null; });
        f("require", 0, -1, a -> { requireAll(a, false); return null; }); f("use", 0, -1, a -> { requireAll(a, true); return null; }); f("alias", 2, 2, a -> { Compiler.ns().aliases.put(a[0].toString(), theNs(a[1])); return null; }); f("refer", 1, -1, a -> { Object o = RT.map(tail(a, 1)); refer(theNs(a[0]), RT.get(o, RT.kw("only")), RT.get(o, RT.kw("exclude")), RT.get(o, RT.kw("rename"))); return null; }); f("import*", 0, -1, a -> { Interop.doImport(Arrays.asList(a)); return null; }); f("loaded-libs", 0, 0, a -> { Object q = PersistentHashSet.EMPTY; for (String n : loaded) q = RT.conj(q, Symbol.intern(null, n)); return q; });
        f("eval", 1, 1, a -> Compiler.eval(a[0])); f("macroexpand-1", 1, 1, a -> Compiler.macroexpand1(a[0], null)); f("macroexpand", 1, 1, a -> Compiler.macroexpand(a[0], null)); f("load-string", 1, 1, a -> Compiler.load(new StringReader(s(a[0])), "NO_SOURCE_PATH")); f("load-reader", 1, 1, a -> Compiler.load((Reader) a[0], "NO_SOURCE_PATH")); f("load-file", 1, 1, a -> { try (Reader r = new InputStreamReader(new FileInputStream(s(a[0])), StandardCharsets.UTF_8)) { return Compiler.load(r, s(a[0])); } });
        f("read-string", 1, 2, a -> { String q = s(a[a.length - 1]); Object o = new LispReader(new StringReader(q), false, null, null).read(); if (o == LispReader.EOF) { if (a.length > 1 && RT.contains(a[0], RT.kw("eof"))) return RT.get(a[0], RT.kw("eof")); throw new RuntimeException("EOF while reading"); } return o; });
        f("read", 0, 4, a -> { Reader r = (Reader) (a.length == 0 ? RT.IN.deref() : a[0]); Object o = new LispReader(r, false, null, null).read(); if (o == LispReader.EOF) { if (a.length > 2 && !t(a[1])) return a[2]; throw new RuntimeException("EOF while reading"); } return o; }); f("read-line", 0, 0, a -> { Reader r = (Reader) RT.IN.deref(); StringBuilder b = new StringBuilder(); int c; while ((c = r.read()) >= 0 && c != '\n') b.append((char) c); return c < 0 && b.length() == 0 ? null : b.toString(); });
        // exceptions
        f("ex-info", 2, 3, a -> { if (a[1] == null) throw new IllegalArgumentException("Additional data must be non-nil."); return new ExceptionInfo((String) a[0], a[1], a.length > 2 ? (Throwable) a[2] : null); }); f("ex-data", 1, 1, a -> exData(a[0])); f("ex-message", 1, 1, a -> a[0] instanceof Throwable ? ((Throwable) a[0]).getMessage() : null); f("ex-cause", 1, 1, a -> a[0] instanceof Throwable ? ((Throwable) a[0]).getCause() : null); f("Throwable->map", 1, 1, a -> throwableMap((Throwable) a[0]));
        // hierarchy, multimethods
        f("make-hierarchy", 0, 0, a -> RT.map(RT.kw("parents"), PersistentArrayMap.EMPTY, RT.kw("descendants"), PersistentArrayMap.EMPTY, RT.kw("ancestors"), PersistentArrayMap.EMPTY));
        f("isa?", 2, 3, a -> a.length == 2 ? RT.isa(a[0], a[1]) : RT.isa(a[0], a[1], a[2])); f("derive", 2, 3, a -> { if (a.length == 3) return Lib.derive(a[0], a[1], a[2]); RT.HIERARCHY.root = Lib.derive(RT.HIERARCHY.root, a[0], a[1]); return null; }); f("parents", 1, 2, a -> RT.get(RT.get(a.length > 1 ? a[0] : RT.HIERARCHY.root, RT.kw("parents")), a[a.length - 1])); f("ancestors", 1, 2, a -> RT.get(RT.get(a.length > 1 ? a[0] : RT.HIERARCHY.root, RT.kw("ancestors")), a[a.length - 1]));
        f("make-multi*", 3, 3, a -> new MultiFn((String) a[0], fn(a[1]), a[2])); f("add-method*", 3, 3, a -> { RT.cast(MultiFn.class, a[0]).add(a[1], a[2]); return a[0]; }); f("remove-method", 2, 2, a -> { ((MultiFn) a[0]).remove(a[1]); return a[0]; }); f("remove-all-methods", 1, 1, a -> { ((MultiFn) a[0]).table.clear(); return a[0]; }); f("get-method", 2, 2, a -> ((MultiFn) a[0]).find(a[1])); f("methods", 1, 1, a -> { Object m = PersistentArrayMap.EMPTY; for (Object[] e : ((MultiFn) a[0]).table.values()) m = RT.assoc(m, e[0], e[1]); return m; }); f("prefer-method", 3, 3, a -> { MultiFn m = (MultiFn) a[0]; m.prefers.put(new Key(a[1]), RT.conj(m.prefers.getOrDefault(new Key(a[1]), PersistentHashSet.EMPTY), a[2])); return m; }); f("multi?*", 1, 1, a -> a[0] instanceof MultiFn);
        // printing and files
        f("pr", 0, -1, a -> { pr(a, true, ""); return null; }); f("prn", 0, -1, a -> { pr(a, true, "\n"); return null; }); f("print", 0, -1, a -> { pr(a, false, ""); return null; }); f("println", 0, -1, a -> { pr(a, false, "\n"); return null; }); f("newline", 0, 0, a -> { out().write("\n"); return null; }); f("flush", 0, 0, a -> { out().flush(); return null; });
        f("pr-str", 0, -1, a -> prs(a, true, "")); f("prn-str", 0, -1, a -> prs(a, true, "\n")); f("print-str", 0, -1, a -> prs(a, false, "")); f("println-str", 0, -1, a -> prs(a, false, "\n")); f("print-simple", 2, 2, a -> { ((Writer) a[1]).write(RT.str(a[0])); return null; });
        f("slurp", 1, -1, a -> { Reader r = reader(a[0]); try { StringWriter w = new StringWriter(); r.transferTo(w); return w.toString(); } finally { r.close(); } }); f("spit", 2, -1, a -> { boolean ap = false; for (int k = 2; k + 1 < a.length; k += 2) if (a[k] == RT.kw("append")) ap = t(a[k + 1]); try (Writer w = writer(a[0], ap)) { w.write(RT.str(a[1])); } return null; }); f("file-seq", 1, 1, a -> { ArrayList l = new ArrayList(); walk((File) a[0], l); return RT.seq(l); }); f("line-seq", 1, 1, a -> { ArrayList l = new ArrayList(); String x; while ((x = ((BufferedReader) a[0]).readLine()) != null) l.add(x); return RT.seq(l); });
        f("string-writer*", 0, 0, a -> new StringWriter());
        f("random-uuid", 0, 0, a -> UUID.randomUUID()); f("system-time*", 0, 0, a -> System.nanoTime()); f("bean", 1, 1, a -> PersistentArrayMap.EMPTY); f("enumeration-seq iterator-seq", 1, 1, a -> IterSeq.of(a[0] instanceof Iterator ? (Iterator) a[0] : ((Enumeration) a[0]).asIterator())); f("supers", 1, 1, a -> PersistentHashSet.EMPTY);
        f("special?*", 1, 1, a -> Compiler.specials.containsKey(a[0].toString())); f("special-symbol?", 1, 1, a -> a[0] instanceof Symbol && LispReader.SPECIAL.contains(a[0].toString())); f("tap>", 1, 1, a -> true); f("shutdown-agents", 0, 0, a -> null);
        f("map-of-bindings*", 0, -1, a -> RT.map(a)); f("reader-for*", 1, 1, a -> reader(a[0]));
        f("env*", 0, 0, a -> Lib.env()); f("getenv-overlay*", 1, 1, a -> { if (a[0] == null) Lib.envOverlay = null; else { HashMap<String, String> m = new HashMap<>(); for (Object e : RT.entries((Map) a[0])) m.put((String) ((Map.Entry) e).getKey(), (String) ((Map.Entry) e).getValue()); Lib.envOverlay = m; } return null; });
        f("exit-code*", 1, 1, a -> a[0] instanceof Exit ? (Object) (long) ((Exit) a[0]).code : null);
        f("edn-read*", 2, 2, a -> { Object o = new LispReader((Reader) readerOf(a[1]), true, RT.get(a[0], RT.kw("readers")), RT.get(a[0], RT.kw("default")) == null ? null : fn(RT.get(a[0], RT.kw("default")))).read(); if (o == LispReader.EOF) { if (RT.contains(a[0], RT.kw("eof"))) return RT.get(a[0], RT.kw("eof")); throw new RuntimeException("EOF while reading"); } return o; });
        f("json-parse*", 4, 4, a -> new Json(s(a[0]), a[1] == null || a[1] == Boolean.FALSE ? null : a[1], a[2] == null ? null : fn(a[2]), t(a[3])).parse()); f("json-write*", 2, 3, a -> { StringBuilder b = new StringBuilder(); Json.write(a[0], b, (Map) a[1]); return b.toString(); });
        f("set-search-path*", 1, 1, a -> { Lib.path = ((String) a[0]).split(File.pathSeparator); return null; }); f("search-path*", 0, 0, a -> String.join(File.pathSeparator, Lib.path));
    }
    static Object bad(String m) { throw new IllegalArgumentException(m); }
    static Object[] fmtArgs(Object[] a) { Object[] r = a.clone(); for (int k = 0; k < r.length; k++) if (r[k] instanceof BigInt) r[k] = ((BigInt) r[k]).v; return r; }
    static Object resolve(Namespace n, Symbol s) { if (s.ns == null && s.name.indexOf('.') > 0) { Class c = Interop.forName(s.name); if (c == null) throw RT.sneaky(new ClassNotFoundException(s.name)); return c; } return Compiler.resolveIn(n, s, false); }
    static Object vars(Namespace n, boolean pub) { Object m = PersistentHashMap.EMPTY; for (Map.Entry<String, Object> e : n.mappings.entrySet()) if (e.getValue() instanceof Var && ((Var) e.getValue()).ns == n && !(pub && ((Var) e.getValue()).priv)) m = RT.assoc(m, Symbol.intern(null, e.getKey()), e.getValue()); return m; }
    static Reader reader(Object o) throws IOException {
        if (o instanceof BufferedReader) return (Reader) o;
        if (o instanceof Reader) return new BufferedReader((Reader) o);
        InputStream in = o instanceof InputStream ? (InputStream) o : o instanceof java.net.URL ? ((java.net.URL) o).openStream() : o instanceof byte[] ? new ByteArrayInputStream((byte[]) o) : o instanceof File ? new FileInputStream((File) o) : o instanceof String ? new FileInputStream((String) o) : null;
        if (in == null) throw new IllegalArgumentException("Cannot open <" + RT.prStr(o) + "> as a Reader.");
        return new BufferedReader(new InputStreamReader(in, StandardCharsets.UTF_8));
    }
    static Writer writer(Object o, boolean append) throws IOException {
        if (o instanceof BufferedWriter) return (Writer) o;
        if (o instanceof Writer) return new BufferedWriter((Writer) o);
        OutputStream out = o instanceof OutputStream ? (OutputStream) o : o instanceof File ? new FileOutputStream((File) o, append) : new FileOutputStream((String) o, append);
        return new BufferedWriter(new OutputStreamWriter(out, StandardCharsets.UTF_8));
    }
    static void walk(File f, ArrayList l) { l.add(f); File[] k = f.listFiles(); if (k != null) { Arrays.sort(k); for (File x : k) walk(x, l); } }
}
/** JSON as read and written by cheshire */
final class Json {
    final String s; int i; final Object keyFn; final IFn arrayFn; final boolean bigdec;
    Json(String s, Object keyFn, IFn arrayFn, boolean bd) { this.s = s; this.keyFn = keyFn; this.arrayFn = arrayFn; bigdec = bd; }
    RuntimeException bad() { return new RuntimeException("JSON error at " + i + " of " + (s.length() > 200 ? s.substring(0, 200) : s)); }
    void ws() { while (i < s.length() && " \t\r\n".indexOf(s.charAt(i)) >= 0) i++; }
    Object parse() { ws(); if (i >= s.length()) return null; return value(null); }
    Object value(String key) {
        ws();
        if (i >= s.length()) throw bad();
        char c = s.charAt(i);
        switch (c) {
            case '{': {
                i++; ATransient m = new TransientMap(PersistentArrayMap.EMPTY);
                ws(); if (s.charAt(i) == '}') { i++; return m.persistent(); }
                for (;;) {
                    ws(); String k = string(); ws(); if (s.charAt(i++) != ':') throw bad();
                    Object v = value(k);
                    Object kk = keyFn == null ? k : keyFn instanceof Boolean ? Keyword.intern(k) : ((IFn) keyFn).invoke(k);
                    m = (ATransient) ((TransientMap) m).assoc(kk, v);
                    ws(); char d = s.charAt(i++);
                    if (d == '}') return m.persistent();
                    if (d != ',') throw bad();
                }
            }
            case '[': {
                i++; Object to = arrayFn == null || key == null ? PersistentVector.EMPTY : arrayFn.invoke(key);
                ATransient t = (ATransient) Lib.transientOf(to);
                ws(); if (s.charAt(i) == ']') { i++; return t.persistent(); }
                for (;;) {
                    t = (ATransient) t.conj(value(key)); ws(); char d = s.charAt(i++);
                    if (d == ']') return t.persistent();
                    if (d != ',') throw bad();
                }
            }
            case '"': return string();
            case 't': return lit("true", true);
            case 'f': return lit("false", false);
            case 'n': return lit("null", null);
        }
        int j = i;
        while (j < s.length() && "+-0123456789.eE".indexOf(s.charAt(j)) >= 0) j++;
        if (j == i) throw bad();
        String n = s.substring(i, j); i = j;
        if (n.indexOf('.') < 0 && n.indexOf('e') < 0 && n.indexOf('E') < 0) {
            BigInteger v = new BigInteger(n);
            return v.bitLength() < 32 ? (Object) v.intValue() : v.bitLength() < 64 ? (Object) v.longValue() : v;
        }
        return bigdec ? (Object) new BigDecimal(n) : (Object) Double.parseDouble(n);
    }
    Object lit(String w, Object v) { if (!s.startsWith(w, i)) throw bad(); i += w.length(); return v; }
    String string() {
        if (s.charAt(i) != '"') throw bad();
        StringBuilder b = new StringBuilder(); i++;
        for (;;) {
            if (i >= s.length()) throw bad();
            char c = s.charAt(i++);
            if (c == '"') return b.toString();
            if (c == '\\') {
                c = s.charAt(i++);
                switch (c) { case 'n': c = '\n'; break; case 't': c = '\t'; break; case 'r': c = '\r'; break; case 'b': c = '\b'; break; case 'f': c = '\f'; break; case 'u': c = (char) Integer.parseInt(s.substring(i, i + 4), 16); i += 4; break; }
            }
            b.append(c);
        }
    }
    static void quote(String x, StringBuilder b) {
        b.append('"');
        for (int k = 0; k < x.length(); k++) {
            char c = x.charAt(k);
            switch (c) {
                case '"': b.append("\\\""); break; case '\\': b.append("\\\\"); break; case '\n': b.append("\\n"); break; case '\r': b.append("\\r"); break; case '\t': b.append("\\t"); break; case '\b': b.append("\\b"); break; case '\f': b.append("\\f"); break;
                default: if (c < 32) b.append(String.format("\\u%04X", (int) c)); else b.append(c);
            }
        }
        b.append('"');
    }
    static String key(Object k) { return k instanceof Keyword ? k.toString().substring(1) : k == null ? "null" : k.toString(); }
    /** encoders: class -> function of the value and a generator; the generator offers writeString and writeNumber */
    static void write(Object o, StringBuilder b, Map encoders) {
        if (encoders != null && o != null) for (Object e : encoders.entrySet()) if (((Class) ((Map.Entry) e).getKey()).isInstance(o)) { ((IFn) ((Map.Entry) e).getValue()).invoke(o, new JsonGen(b)); return; }
        if (o == null) b.append("null");
        else if (o instanceof String) quote((String) o, b);
        else if (o instanceof Keyword) quote(key(o), b);
        else if (o instanceof Symbol || o instanceof Character || o instanceof UUID) quote(o.toString(), b);
        else if (o instanceof Ratio) b.append(((Ratio) o).doubleValue());
        else if (o instanceof Number || o instanceof Boolean) b.append(o);
        else if (o instanceof Map) {
            b.append('{'); boolean first = true;
            for (Object e : ((Map) o).entrySet()) { if (!first) b.append(','); first = false; quote(key(((Map.Entry) e).getKey()), b); b.append(':'); write(((Map.Entry) e).getValue(), b, encoders); }
            b.append('}');
        } else if (o instanceof Collection || o instanceof Iterable || o instanceof ISeq) {
            b.append('['); boolean first = true;
            for (ISeq q = RT.seq(o); q != null; q = q.next()) { if (!first) b.append(','); first = false; write(q.first(), b, encoders); }
            b.append(']');
        } else if (o instanceof Date) quote(((Date) o).toInstant().toString(), b);
        else throw new RuntimeException("Cannot JSON encode object of class: " + o.getClass() + ": " + o);
    }
}
final class JsonGen {
    final StringBuilder b;
    JsonGen(StringBuilder b) { this.b = b; }
    public void writeString(String s) { Json.quote(s, b); }
    public void writeNumber(Object n) { b.append(n); }
    public void writeNull() { b.append("null"); }
    public void writeRawValue(String s) { b.append(s); }
    public void writeBoolean(boolean x) { b.append(x); }
}
/** starts the interpreter: a script, or an expression per line of input */
final class Main {
    public static void main(String[] args) throws Exception {
        Throwable[] fail = {null}; int[] code = {0};
        Thread t = new Thread(null, () -> {
            try {
                RT.OUT.root = new BufferedWriter(new OutputStreamWriter(System.out, StandardCharsets.UTF_8), 1 << 16);
                RT.ERR.root = new PrintWriter(new OutputStreamWriter(System.err, StandardCharsets.UTF_8), true);
                RT.IN.root = new BufferedReader(new InputStreamReader(System.in, StandardCharsets.UTF_8));
                Lib.init();
                Lib.loadLib(Symbol.intern(null, "clojure.core"), false);
                RT.NS.root = Namespace.findOrCreate(Symbol.intern(null, "user"));
                RT.CMDLINE.root = RT.seq(Arrays.asList(args).subList(Math.min(1, args.length), args.length));
                if (args.length > 0) Compiler.load(new BufferedReader(new InputStreamReader(new FileInputStream(args[0]), StandardCharsets.UTF_8)), args[0]);
            } catch (Exit e) { code[0] = e.code; }
            catch (Throwable e) { fail[0] = e; }
            try { ((Writer) RT.OUT.root).flush(); } catch (IOException e) { }
        }, "main", 1L << 29);
        t.start(); t.join();
        if (fail[0] != null) { for (Throwable e = fail[0]; e != null; e = e.getCause()) System.err.println(e); if (System.getProperty("clj.trace") != null) fail[0].printStackTrace(); System.exit(70); }
        System.exit(code[0]);
    }
}
