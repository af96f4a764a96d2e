package clojure.lang;
import java.io.*;
import java.math.*;
import java.nio.charset.StandardCharsets;
import java.util.*;
import java.util.function.Supplier;
import java.util.regex.*;

interface F { Object call(Object[] a) throws Throwable; }
final class Builtin extends AFunction {
    final int min, max; final F f;
    Builtin(String n, int min, int max, F f) { name = n; this.min = min; this.max = max; this.f = f; }
    public Object invoke(Object... a) {
        if (a.length < min || max >= 0 && a.length > max) throw new ArityException(a.length, name);
        try { return f.call(a); } catch (Throwable t) { throw RT.sneaky(t); }
    }
}
/** a reducing function made of another */
final class Rf extends AFunction {
    interface Step { Object step(Object acc, Object x); }
    interface Done { Object done(Object acc); }
    final IFn rf; final Step s; final Done d;
    Rf(IFn rf, Step s, Done d) { this.rf = rf; this.s = s; this.d = d; }
    public Object invoke(Object... a) {
        switch (a.length) {
            case 0: return rf.invoke();
            case 1: return d == null ? rf.invoke(a[0]) : d.done(a[0]);
            case 2: return s.step(a[0], a[1]);
            default: { Object[] xs = Arrays.copyOfRange(a, 1, a.length); return s.step(a[0], new Many(xs)); }
        }
    }
    static final class Many { final Object[] xs; Many(Object[] x) { xs = x; } }
}
final class Eduction implements IReduceInit, Sequential, Seqable, Iterable {
    final IFn xf; final Object coll;
    Eduction(IFn x, Object c) { xf = x; coll = c; }
    public Object reduce(IFn f, Object init) { return Lib.transduce(xf, Lib.completing(f), init, coll); }
    public ISeq seq() { return RT.seq(Lib.sequence(xf, coll)); }
    public Iterator iterator() { ISeq s = seq(); return s == null ? Collections.emptyIterator() : new SeqIterator(s); }
    public String toString() { return RT.prStr(RT.orEmpty(seq())); }
}
final class Lib {
    static Map<String, String> envOverlay;
    static Map env() { if (envOverlay == null) return System.getenv(); HashMap<String, String> m = new HashMap<>(System.getenv()); for (Map.Entry<String, String> e : envOverlay.entrySet()) if (e.getValue() == null) m.remove(e.getKey()); else m.put(e.getKey(), e.getValue()); return m; }
    static Namespace cur = RT.CORE;
    static void f(String names, int min, int max, F f) { for (String n : names.split(" ")) { Builtin b = new Builtin(cur.name + "/" + n, min, max, f); cur.intern(Symbol.intern(null, n)).root = b; } }
    static void p(String names, java.util.function.Predicate<Object> q) { f(names, 1, 1, a -> q.test(a[0])); }
    static IFn fn(Object o) { return RT.fn(o); }
    static boolean t(Object o) { return RT.truth(o); }
    static long lng(Object o) { return RT.cast(Number.class, o).longValue(); }
    static int i(Object o) { return RT.cast(Number.class, o).intValue(); }
    static LazySeq lazy(Supplier<Object> s) { return new LazySeq(new AFunction() { public Object invoke(Object... a) { return s.get(); } }); }
    static IFn af(F f) { return new Builtin("fn", 0, -1, f); }
    static Object[] tail(Object[] a, int n) { return Arrays.copyOfRange(a, n, a.length); }
    interface Xf { IFn of(IFn rf); }
    static IFn xf(Xf x) { return af(a -> x.of(fn(a[0]))); }
    static Object unreduced(Object o) { return o instanceof Reduced ? ((Reduced) o).val : o; }

    static IFn completing(IFn f) { return new AFunction() { public Object invoke(Object... a) { return a.length == 1 ? a[0] : f.invoke(a); } }; }
    static Object transduce(IFn xf, IFn f, Object init, Object coll) { IFn g = fn(xf.invoke(f)); return g.invoke(RT.reduce(g, init, coll)); }
    /** a lazy application of a transducer */
    static Object sequence(IFn xf, Object coll) {
        ArrayDeque<Object[]> buf = new ArrayDeque<>();
        IFn rf = fn(xf.invoke(af(a -> { if (a.length == 2) buf.add(new Object[]{a[1]}); return a.length == 0 ? null : a[0]; })));
        return RT.orEmpty(RT.seq(pull(rf, buf, new Object[]{RT.seq(coll), false})));
    }
    static Object pull(IFn rf, ArrayDeque<Object[]> buf, Object[] st) {
        return lazy(() -> {
            while (buf.isEmpty() && st[1] == (Object) false) {
                ISeq s = (ISeq) st[0];
                if (s == null) { rf.invoke((Object) null); st[1] = true; break; }
                Object r = rf.invoke(null, s.first());
                st[0] = s.next();
                if (r instanceof Reduced) { rf.invoke((Object) null); st[1] = true; }
            }
            if (buf.isEmpty()) return null;
            return new Cons(buf.poll()[0], pull(rf, buf, st));
        });
    }
    static Object concat(Object a, Object b) {
        return lazy(() -> { ISeq s = RT.seq(a); return s == null ? RT.seq(b) : new Cons(s.first(), concat(RT.rest(s), b)); });
    }
    static Object concatAll(ISeq colls) {
        return lazy(() -> {
            ISeq cs = colls;
            for (; cs != null; cs = cs.next()) { ISeq s = RT.seq(cs.first()); if (s != null) { ISeq more = cs.next(); return cat1(s, more); } }
            return null;
        });
    }
    static Object cat1(ISeq s, ISeq more) { return new Cons(s.first(), lazy(() -> { ISeq n = s.next(); return n != null ? cat1(n, more) : RT.seq(concatAll(more)); })); }
    /** concat of lazily made collections */
    static Object concatLazy(Object colls) {
        return lazy(() -> {
            for (ISeq cs = RT.seq(colls); cs != null; cs = cs.next()) { ISeq s = RT.seq(cs.first()); if (s != null) return cat2(s, cs); }
            return null;
        });
    }
    static Object cat2(ISeq s, ISeq cs) { return new Cons(s.first(), lazy(() -> { ISeq n = s.next(); return n != null ? cat2(n, cs) : RT.seq(concatLazy(RT.rest(cs))); })); }
    static Object map(IFn f, Object c) { return lazy(() -> { ISeq s = RT.seq(c); return s == null ? null : new Cons(f.invoke(s.first()), map(f, RT.rest(s))); }); }
    static Object mapN(IFn f, Object[] cs) {
        return lazy(() -> {
            Object[] v = new Object[cs.length], r = new Object[cs.length];
            for (int i = 0; i < cs.length; i++) { ISeq s = RT.seq(cs[i]); if (s == null) return null; v[i] = s.first(); r[i] = RT.rest(s); }
            return new Cons(f.invoke(v), mapN(f, r));
        });
    }
    static Object filter(IFn f, Object c) { return lazy(() -> { for (ISeq s = RT.seq(c); s != null; s = s.next()) { Object x = s.first(); if (t(f.invoke(x))) { ISeq z = s; return new Cons(x, filter(f, lazy(() -> z.next()))); } } return null; }); }
    static Object keep(IFn f, Object c) { return lazy(() -> { for (ISeq s = RT.seq(c); s != null; s = s.next()) { Object x = f.invoke(s.first()); if (x != null) { ISeq z = s; return new Cons(x, keep(f, lazy(() -> z.next()))); } } return null; }); }
    static Object mapIndexed(IFn f, long i, Object c, boolean keep) { return lazy(() -> { long k = i; for (ISeq s = RT.seq(c); s != null; s = s.next(), k++) { Object x = f.invoke(k, s.first()); if (!keep || x != null) { long n = k + 1; ISeq z = s; return new Cons(x, mapIndexed(f, n, lazy(() -> z.next()), keep)); } } return null; }); }
    static Object take(long n, Object c) { return lazy(() -> { if (n <= 0) return null; ISeq s = RT.seq(c); return s == null ? null : new Cons(s.first(), take(n - 1, n == 1 ? null : RT.rest(s))); }); }
    static Object drop(long n, Object c) { return lazy(() -> RT.nthnext(c, n)); }
    static Object takeWhile(IFn f, Object c) { return lazy(() -> { ISeq s = RT.seq(c); return s == null || !t(f.invoke(s.first())) ? null : new Cons(s.first(), takeWhile(f, RT.rest(s))); }); }
    static Object dropWhile(IFn f, Object c) { return lazy(() -> { ISeq s = RT.seq(c); while (s != null && t(f.invoke(s.first()))) s = s.next(); return s; }); }
    static Object takeNth(long n, Object c) { return lazy(() -> { ISeq s = RT.seq(c); return s == null ? null : new Cons(s.first(), takeNth(n, drop(n, s))); }); }
    static Object repeat(Object x) { return lazy(() -> new Cons(x, repeat(x))); }
    static Object repeatedly(IFn f) { return lazy(() -> new Cons(f.invoke(), repeatedly(f))); }
    static Object iterate(IFn f, Object x) { return new Cons(x, lazy(() -> iterate(f, f.invoke(x)))); }
    static Object cycle(Object c, Object all) { return lazy(() -> { ISeq s = RT.seq(c); if (s == null) s = RT.seq(all); return s == null ? null : new Cons(s.first(), cycle(RT.rest(s), all)); }); }
    static Object range(Object a, Object end, Object step) {
        return lazy(() -> (end == null || (Num.signum(step) > 0 ? Num.lt(a, end) : Num.lt(end, a))) ? new Cons(a, range(Num.add(a, step), end, step)) : null);
    }
    static Object interpose(Object sep, Object c) { return lazy(() -> { ISeq s = RT.seq(c); return s == null ? null : new Cons(s.first(), interpose2(sep, RT.rest(s))); }); }
    static Object interpose2(Object sep, Object c) { return lazy(() -> { ISeq s = RT.seq(c); return s == null ? null : new Cons(sep, new Cons(s.first(), interpose2(sep, RT.rest(s)))); }); }
    static Object partition(long n, long step, Object pad, boolean all, boolean hasPad, Object c) {
        return lazy(() -> {
            ISeq s = RT.seq(c);
            if (s == null) return null;
            ArrayList p = new ArrayList(); ISeq x = s;
            for (long k = 0; k < n && x != null; k++, x = x.next()) p.add(x.first());
            if (p.size() == n || all) return new Cons(PersistentList.create(p), partition(n, step, pad, all, hasPad, RT.orEmpty(RT.nthnext(s, step))));
            if (!hasPad) return null;
            for (ISeq y = RT.seq(pad); y != null && p.size() < n; y = y.next()) p.add(y.first());
            return RT.list(PersistentList.create(p));
        });
    }
    static Object distinct(Object c, HashSet<Key> seen) { return lazy(() -> { for (ISeq s = RT.seq(c); s != null; s = s.next()) { Object x = s.first(); if (!seen.contains(new Key(x))) { HashSet<Key> n = new HashSet<>(seen); n.add(new Key(x)); return new Cons(x, distinct(RT.rest(s), n)); } } return null; }); }

    static Object transientOf(Object c) {
        if (c instanceof PersistentVector) return new TransientVector((Collection) c);
        if (c instanceof PersistentArrayMap || c instanceof PersistentHashMap) return new TransientMap((IPersistentMap) c);
        if (c instanceof PersistentHashSet) return new TransientSet((PersistentHashSet) c);
        throw new ClassCastException("class " + (c == null ? "null" : c.getClass().getName()) + " cannot be cast to class clojure.lang.IEditableCollection");
    }
    static Object withMeta(Object o, Object m) { return o instanceof IObj ? ((IObj) o).withMeta(m) : o; }
    static boolean editable(Object c) { return c instanceof PersistentVector || c instanceof PersistentArrayMap || c instanceof PersistentHashMap || c instanceof PersistentHashSet; }
    static final IFn CONJT = af(a -> a.length == 0 ? new TransientVector(new ArrayList()) : a.length == 1 ? a[0] : RT.cast(ATransient.class, a[0]).conj(a[1]));
    static final IFn CONJ = af(a -> { if (a.length == 0) return PersistentVector.EMPTY; Object c = a[0]; for (int k = 1; k < a.length; k++) c = RT.conj(c, a[k]); return c; });
    static Object into(Object to, IFn xf, Object from) {
        if (editable(to)) {
            Object m = RT.meta(to); Object tr = transientOf(to);
            Object r = xf == null ? RT.reduce(CONJT, tr, from) : transduce(xf, CONJT, tr, from);
            return withMeta(((ATransient) r).persistent(), m);
        }
        return xf == null ? RT.reduce(CONJ, to, from) : transduce(xf, CONJ, to, from);
    }
    static Object getIn(Object m, Object ks, Object nf) { for (ISeq s = RT.seq(ks); s != null; s = s.next()) { m = RT.get(m, s.first(), RT.NF); if (m == RT.NF) return nf; } return m; }
    static Object assocIn(Object m, ISeq ks, Object v) { Object k = ks.first(); return ks.next() == null ? RT.assoc(m, k, v) : RT.assoc(m, k, assocIn(RT.get(m, k), ks.next(), v)); }
    static Object updateIn(Object m, ISeq ks, IFn f, Object[] args) {
        Object k = ks.first();
        if (ks.next() != null) return RT.assoc(m, k, updateIn(RT.get(m, k), ks.next(), f, args));
        return RT.assoc(m, k, f.invoke(prepend(RT.get(m, k), args)));
    }
    static Object[] prepend(Object x, Object[] a) { Object[] r = new Object[a.length + 1]; r[0] = x; System.arraycopy(a, 0, r, 1, a.length); return r; }
    static Object comp(Object[] fs) {
        if (fs.length == 0) return RT.core("identity").get();
        if (fs.length == 1) return fs[0];
        IFn[] gs = new IFn[fs.length]; for (int k = 0; k < fs.length; k++) gs[k] = fs[k] instanceof IFn ? (IFn) fs[k] : null;
        return af(a -> { Object r = fn(fs[fs.length - 1]).invoke(a); for (int k = fs.length - 2; k >= 0; k--) r = fn(fs[k]).invoke(r); return r; });
    }
    static Object sort(Comparator c, Object coll) { if (RT.seq(coll) == null) return PersistentList.EMPTY; Object[] a = RT.toArray(coll).clone(); Arrays.sort(a, c); return withMeta(ArraySeq.of(a, 0), RT.meta(coll)); }
    static Object num1(Object o) { return RT.cast(Number.class, o); }
    interface Op { Object op(Object a, Object b); }
    /** whole numbers become big ones rather than overflow */
    static Op promoting(Op op) {
        return (x, y) -> { try { return op.op(x, y); } catch (ArithmeticException e) { if (!RT.isInteger(x) || !RT.isInteger(y)) throw e; return op.op(new BigInt(Num.big(x)), new BigInt(Num.big(y))); } };
    }
    static void arith(String n, Object zero, boolean unaryZero, Op op) {
        f(n, zero == null ? 1 : 0, -1, a -> {
            if (a.length == 0) return zero;
            if (a.length == 1) return unaryZero ? op.op(n.startsWith("/") ? (Object) 1L : 0L, num1(a[0])) : num1(a[0]);
            Object r = a[0]; for (int k = 1; k < a.length; k++) r = op.op(r, a[k]); return r;
        });
    }
    interface Rel { boolean rel(Object a, Object b); }
    static void rel(String n, Rel r) { f(n, 1, -1, a -> { for (int k = 0; k + 1 < a.length; k++) if (!r.rel(a[k], a[k + 1])) return false; return true; }); }
    static BigInteger toBigInteger(Object o) { return o instanceof BigDecimal ? ((BigDecimal) o).toBigInteger() : o instanceof Double || o instanceof Float ? new BigDecimal(((Number) o).doubleValue()).toBigInteger() : o instanceof Ratio ? ((Ratio) o).numerator.divide(((Ratio) o).denominator) : Num.big(RT.cast(Number.class, o)); }
    static Writer out() { return (Writer) RT.OUT.deref(); }
    static void pr(Object[] a, boolean readably, String end) throws IOException {
        Writer w = out();
        if (!readably) RT.PRINT_READABLY.push(null);
        try {
            for (int k = 0; k < a.length; k++) { if (k > 0) w.write(' '); RT.print(a[k], w); }
            w.write(end);
            if (!end.isEmpty() && t(RT.FLUSH_ON_NL.deref())) w.flush();
        } finally { if (!readably) RT.PRINT_READABLY.pop(); }
    }
    static String prs(Object[] a, boolean readably, String end) throws IOException {
        StringWriter w = new StringWriter(); RT.OUT.push(w);
        try { pr(a, readably, end); } finally { RT.OUT.pop(); }
        return w.toString();
    }
    static Object groups(Matcher m) { if (m.groupCount() == 0) return m.group(); Object[] g = new Object[m.groupCount() + 1]; for (int k = 0; k < g.length; k++) g[k] = m.group(k); return PersistentVector.of(g); }
    static Object reSeq(Matcher m) { return lazy(() -> m.find() ? new Cons(groups(m), reSeq(m)) : null); }
    static Object exData(Object t) { return t instanceof ExceptionInfo ? ((ExceptionInfo) t).data : t instanceof CompilerException ? ((CompilerException) t).data : null; }
    static Object frame(StackTraceElement e) { return RT.vec(Symbol.intern(null, e.getClassName()), Symbol.intern(null, e.getMethodName()), e.getFileName(), (long) e.getLineNumber()); }
    static Object throwableMap(Throwable t) {
        ArrayList via = new ArrayList(); Throwable root = t;
        for (Throwable x = t; x != null; x = x.getCause()) {
            Object m = RT.map(RT.kw("type"), Symbol.intern(null, x.getClass().getName()));
            if (x.getMessage() != null) m = RT.assoc(m, RT.kw("message"), x.getMessage());
            if (exData(x) != null) m = RT.assoc(m, RT.kw("data"), exData(x));
            via.add(m); root = x;
        }
        ArrayList tr = new ArrayList(); for (StackTraceElement e : root.getStackTrace()) { tr.add(frame(e)); if (tr.size() > 8) break; }
        Object m = RT.map(RT.kw("via"), PersistentVector.create(via), RT.kw("trace"), PersistentVector.create(tr));
        if (root.getMessage() != null) m = RT.assoc(m, RT.kw("cause"), root.getMessage());
        if (exData(root) != null) m = RT.assoc(m, RT.kw("data"), exData(root));
        return m;
    }
    // ---- namespaces
    static String[] path = System.getProperty("clj.path", "").split(File.pathSeparator);
    static final Set<String> loaded = Collections.synchronizedSet(new LinkedHashSet<>());
    static String munge(String n) { return n.replace('-', '_').replace('.', '/'); }
    static void loadLib(Symbol lib, boolean reload) {
        String n = lib.toString();
        if (!reload && loaded.contains(n)) return;
        String rel = munge(n);
        for (String d : path) for (String ext : new String[]{".clj", ".cljc"}) {
            File file = new File(d, rel + ext);
            if (file.isFile()) {
                try (Reader r = new BufferedReader(new InputStreamReader(new FileInputStream(file), StandardCharsets.UTF_8))) { Compiler.load(r, rel + ext); }
                catch (IOException e) { throw RT.sneaky(e); }
                if (Namespace.find(lib) == null) throw RT.sneaky(new Exception("namespace '" + n + "' not found after loading '/" + rel + "'"));
                loaded.add(n);
                return;
            }
        }
        throw RT.sneaky(new FileNotFoundException("Could not locate " + rel + "__init.class, " + rel + ".clj or " + rel + ".cljc on classpath."));
    }
    static Namespace theNs(Object o) { if (o instanceof Namespace) return (Namespace) o; Namespace n = Namespace.find((Symbol) o); if (n == null) throw RT.sneaky(new Exception("No namespace: " + o + " found")); return n; }
    static void refer(Namespace from, Object only, Object exclude, Object rename) {
        Namespace me = Compiler.ns();
        Set<String> ex = new HashSet<>(); for (ISeq s = RT.seq(exclude); s != null; s = s.next()) ex.add(s.first().toString());
        if (only != null) {
            for (ISeq s = RT.seq(only); s != null; s = s.next()) {
                Object v = from.mappings.get(s.first().toString());
                if (!(v instanceof Var) || ((Var) v).ns != from) { if (from == RT.CORE && Compiler.specials.containsKey(s.first().toString())) continue; throw new IllegalAccessError(s.first() + " does not exist"); }
                if (((Var) v).priv) throw new IllegalAccessError(s.first() + " is not public");
                Object r = RT.get(rename, s.first());
                me.mappings.put((r == null ? s.first() : r).toString(), v);
            }
        } else for (Map.Entry<String, Object> e : from.mappings.entrySet()) {
            Object v = e.getValue();
            if (v instanceof Var && ((Var) v).ns == from && !((Var) v).priv && !ex.contains(e.getKey())) { Object r = RT.get(rename, Symbol.intern(null, e.getKey())); me.mappings.put(r == null ? e.getKey() : r.toString(), v); }
        }
    }
    static void require(Object spec, boolean use, boolean reload, String prefix) {
        if (spec instanceof Symbol) { Symbol s = prefix == null ? (Symbol) spec : Symbol.intern(null, prefix + "." + spec); loadLib(s, reload); if (use) refer(theNs(s), null, null, null); return; }
        if (spec instanceof ISeq || spec instanceof IPersistentVector && RT.count(spec) > 1 && !(RT.second(spec) instanceof Keyword)) {
            for (ISeq s = RT.next(spec); s != null; s = s.next()) require(s.first(), use, reload, RT.first(spec).toString());
            return;
        }
        Symbol lib = (Symbol) RT.first(spec); if (prefix != null) lib = Symbol.intern(null, prefix + "." + lib);
        Object opts = RT.map(RT.toArray(RT.next(spec)));
        Object aa = RT.get(opts, RT.kw("as-alias"));
        if (aa != null) { Namespace.findOrCreate(lib); Compiler.ns().aliases.put(aa.toString(), theNs(lib)); return; }
        loadLib(lib, reload);
        Object as = RT.get(opts, RT.kw("as"));
        if (as != null) Compiler.ns().aliases.put(as.toString(), theNs(lib));
        Object rf = RT.get(opts, RT.kw("refer")), only = RT.get(opts, RT.kw("only")), ex = RT.get(opts, RT.kw("exclude")), rn = RT.get(opts, RT.kw("rename"));
        if (use) refer(theNs(lib), only, ex, rn);
        else if (rf == RT.kw("all")) refer(theNs(lib), null, ex, rn);
        else if (rf != null) refer(theNs(lib), rf, null, rn);
    }
    static void requireAll(Object[] specs, boolean use) {
        boolean reload = false; for (Object o : specs) reload |= o == RT.kw("reload") || o == RT.kw("reload-all");
        for (Object o : specs) if (!(o instanceof Keyword)) require(o, use, reload, null);
    }
    static Object inNs(Symbol s) { Namespace n = Namespace.findOrCreate(s); if (RT.NS.isBoundT()) RT.NS.set(n); else RT.NS.root = n; return n; }
    static Object readerOf(Object o) { return o instanceof Reader ? o : new StringReader((String) o); }

    static Object reductions(IFn f, Object acc, Object c) { return new Cons(unreduced(acc), lazy(() -> { if (acc instanceof Reduced) return null; ISeq s = RT.seq(c); return s == null ? null : reductions(f, f.invoke(acc, s.first()), RT.rest(s)); })); }
    static Object derive(Object h, Object c, Object p) {
        Object par = RT.get(h, RT.kw("parents")), anc = RT.get(h, RT.kw("ancestors"));
        par = RT.assoc(par, c, RT.conj(RT.get(par, c, PersistentHashSet.EMPTY), p));
        LinkedHashSet<Object> ks = new LinkedHashSet<>(); for (Object e : ((Map) anc).keySet()) ks.add(e); ks.add(c);
        Object up = RT.conj(RT.get(anc, p, PersistentHashSet.EMPTY), p), old = anc;
        for (Object k : ks) if (RT.equiv(k, c) || RT.contains(RT.get(old, k, PersistentHashSet.EMPTY), c)) { Object s = RT.get(anc, k, PersistentHashSet.EMPTY); for (Object x : (Set) up) s = RT.conj(s, x); anc = RT.assoc(anc, k, s); }
        return RT.assoc(RT.assoc(h, RT.kw("parents"), par), RT.kw("ancestors"), anc);
    }
    static Object swap(Atom at, IFn f, Object[] args) { for (;;) { Object o = at.r.get(), n = f.invoke(prepend(o, args)); at.check(n); if (at.r.compareAndSet(o, n)) { at.notifyW(o, n); return RT.vec(o, n); } } }

    static void init() {
        LibCore.init();
        LibMore.init();
    }
}
