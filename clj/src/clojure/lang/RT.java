package clojure.lang;
import java.io.*;
import java.lang.reflect.Array;
import java.math.*;
import java.util.*;

/** the functions everything else is made of */
final class RT {
    static final Object[] NOARGS = new Object[0];
    static final Namespace CORE = Namespace.findOrCreate(Symbol.intern(null, "clojure.core"));
    static Var core(String n) { return CORE.intern(Symbol.intern(null, n)); }
    static Var dyn(String n, Object v) { Var x = core(n); x.dynamic = true; x.root = v; return x; }
    static final Var NS = dyn("*ns*", CORE), OUT = dyn("*out*", new OutputStreamWriter(System.out)), ERR = dyn("*err*", new PrintWriter(new OutputStreamWriter(System.err), true)),
        IN = dyn("*in*", new PushbackReader(new InputStreamReader(System.in))), MATH_CONTEXT = dyn("*math-context*", null), PRINT_READABLY = dyn("*print-readably*", true),
        PRINT_LENGTH = dyn("*print-length*", null), PRINT_LEVEL = dyn("*print-level*", null), PRINT_META = dyn("*print-meta*", false), FILE = dyn("*file*", "NO_SOURCE_PATH"),
        FLUSH_ON_NL = dyn("*flush-on-newline*", true), ASSERT = dyn("*assert*", true), CMDLINE = dyn("*command-line-args*", null), PRINT_NS_MAPS = dyn("*print-namespace-maps*", false),
        WARN = dyn("*warn-on-reflection*", false), UNCHECKED = dyn("*unchecked-math*", false), READERS = dyn("*data-readers*", PersistentArrayMap.EMPTY), E1 = dyn("*e", null),
        DEFAULT_READER = dyn("*default-data-reader-fn*", null), PRINT_DUP = dyn("*print-dup*", false), COMPILE_FILES = dyn("*compile-files*", false);
    static final Var CLJVERSION = dyn("*clojure-version*", null);
    static final MultiFn PRINT_METHOD = new MultiFn("print-method", new AFunction() { public Object invoke(Object... a) { return printDispatch(a[0]); } }, kw("default"));
    static { core("print-method").root = PRINT_METHOD; PRINT_METHOD.add(kw("default"), new AFunction() { public Object invoke(Object... a) { try { printBase(a[0], (Writer) a[1]); } catch (IOException e) { throw sneaky(e); } return null; } }); }

    static Keyword kw(String s) { return Keyword.intern(null, s); }
    static boolean truth(Object o) { return o != null && o != Boolean.FALSE && !(o instanceof Boolean && !((Boolean) o)); }
    @SuppressWarnings("unchecked") static <T extends Throwable> RuntimeException sneaky(Throwable t) throws T { throw (T) t; }
    static IFn fn(Object o) {
        if (o instanceof IFn) return (IFn) o;
        if (o == null) throw new NullPointerException("Cannot invoke \"clojure.lang.IFn.invoke()\" because value is null");
        throw new ClassCastException("class " + o.getClass().getName() + " cannot be cast to class clojure.lang.IFn");
    }
    static boolean isInteger(Object o) { return o instanceof Long || o instanceof Integer || o instanceof BigInt || o instanceof BigInteger || o instanceof Short || o instanceof Byte; }

    // ---- sequences
    static ISeq seq(Object o) {
        if (o == null) return null;
        if (o instanceof Seqable) return ((Seqable) o).seq();
        if (o instanceof List && o instanceof RandomAccess) return ((List) o).isEmpty() ? null : new IndexedSeq((List) o, 0);
        if (o instanceof Iterable) return IterSeq.of(((Iterable) o).iterator());
        if (o instanceof CharSequence) return ((CharSequence) o).length() == 0 ? null : new StringSeq((CharSequence) o, 0);
        if (o instanceof Map) return IterSeq.of(entries((Map) o).iterator());
        if (o.getClass().isArray()) {
            if (o instanceof Object[]) return ArraySeq.of((Object[]) o, 0);
            int n = Array.getLength(o); Object[] a = new Object[n];
            for (int i = 0; i < n; i++) a[i] = box(Array.get(o, i));
            return ArraySeq.of(a, 0);
        }
        throw new IllegalArgumentException("Don't know how to create ISeq from: " + o.getClass().getName());
    }
    static List entries(Map m) { ArrayList l = new ArrayList(); for (Object e : m.entrySet()) l.add(e instanceof MapEntry ? e : new MapEntry(((Map.Entry) e).getKey(), ((Map.Entry) e).getValue())); return l; }
    static Object box(Object o) {
        if (o instanceof Integer || o instanceof Short || o instanceof Byte) return ((Number) o).longValue();
        if (o instanceof Float) return ((Float) o).doubleValue();
        return o;
    }
    /** values of primitive type arrive as long and double */
    static Object box2(Object o, Class t) { return t.isPrimitive() ? box(o) : o; }
    static Object[] toArray(Object o) {
        if (o == null) return NOARGS;
        if (o instanceof Object[]) return (Object[]) o;
        if (o instanceof Collection && !(o instanceof ISeq)) return ((Collection) o).toArray();
        ArrayList l = new ArrayList();
        for (ISeq s = seq(o); s != null; s = s.next()) l.add(s.first());
        return l.toArray();
    }
    static Object first(Object o) { ISeq s = o instanceof ISeq ? (ISeq) o : seq(o); return s == null ? null : s.first(); }
    static ISeq next(Object o) { ISeq s = o instanceof ISeq ? (ISeq) o : seq(o); return s == null ? null : s.next(); }
    static Object rest(Object o) {
        ISeq s = o instanceof LazySeq ? ((LazySeq) o).seq() : o instanceof ISeq ? (ISeq) o : seq(o);
        if (s == null) return PersistentList.EMPTY;
        if (s instanceof Cons) return ((Cons) s).more() instanceof ISeq ? ((Cons) s).more() : orEmpty(seq(((Cons) s).more()));
        return orEmpty(s.next());
    }
    static ISeq orNil(Object ks) { ISeq s = seq(ks); return s == null ? new PersistentList(null, null, 1) : s; }
    static Object orEmpty(Object s) { return s == null ? PersistentList.EMPTY : s; }
    static Object second(Object o) { return first(next(o)); }
    static ISeq cons(Object x, Object coll) {
        if (coll == null) return new PersistentList(x, null, 1);
        if (coll instanceof ISeq) return new Cons(x, coll);
        return new Cons(x, seq(coll));
    }
    static Object conj(Object c, Object x) {
        if (c == null) return new PersistentList(x, null, 1);
        if (c instanceof IPersistentCollection) return ((IPersistentCollection) c).cons(x);
        throw new ClassCastException("class " + c.getClass().getName() + " cannot be cast to class clojure.lang.IPersistentCollection");
    }
    static int count(Object o) {
        if (o == null) return 0;
        if (o instanceof Counted) return ((Counted) o).count();
        if (o instanceof IPersistentCollection) return ((IPersistentCollection) o).count();
        if (o instanceof CharSequence) return ((CharSequence) o).length();
        if (o instanceof Collection) return ((Collection) o).size();
        if (o instanceof Map) return ((Map) o).size();
        if (o.getClass().isArray()) return Array.getLength(o);
        if (o instanceof Iterable) { int n = 0; for (Object x : (Iterable) o) n++; return n; }
        throw new UnsupportedOperationException("count not supported on this type: " + o.getClass().getSimpleName());
    }
    static final Object NF = new Object();
    static Object nth(Object c, int i) {
        if (c == null) return null;
        Object r = nth(c, i, NF);
        if (r == NF) throw new IndexOutOfBoundsException();
        return r;
    }
    static Object nth(Object c, int i, Object nf) {
        if (c == null) return nf;
        if (c instanceof Indexed) return ((Indexed) c).nth(i, nf);
        if (c instanceof CharSequence) return i >= 0 && i < ((CharSequence) c).length() ? (Object) ((CharSequence) c).charAt(i) : nf;
        if (c.getClass().isArray()) return i >= 0 && i < Array.getLength(c) ? box(Array.get(c, i)) : nf;
        if (c instanceof RandomAccess) return i >= 0 && i < ((List) c).size() ? ((List) c).get(i) : nf;
        if (c instanceof java.util.regex.Matcher) return i <= ((java.util.regex.Matcher) c).groupCount() ? ((java.util.regex.Matcher) c).group(i) : nf;
        if (c instanceof Map.Entry) return i == 0 ? ((Map.Entry) c).getKey() : i == 1 ? ((Map.Entry) c).getValue() : nf;
        if (c instanceof Sequential || c instanceof List) {
            if (i < 0) return nf;
            ISeq s = seq(c);
            for (int k = 0; s != null; s = s.next(), k++) if (k == i) return s.first();
            return nf;
        }
        throw new UnsupportedOperationException("nth not supported on this type: " + c.getClass().getSimpleName());
    }
    static ISeq nthnext(Object c, long n) { ISeq s = seq(c); while (s != null && n-- > 0) s = s.next(); return s; }
    static Object get(Object m, Object k) { return get(m, k, null); }
    static Object get(Object m, Object k, Object nf) {
        if (m == null) return nf;
        if (m instanceof ILookup) return ((ILookup) m).valAt(k, nf);
        if (m instanceof IPersistentSet) return ((IPersistentSet) m).get(k, nf);
        if (m instanceof Map) return ((Map) m).containsKey(k) ? ((Map) m).get(k) : nf;
        if (k instanceof Number && (m instanceof CharSequence || m.getClass().isArray())) return nth(m, ((Number) k).intValue(), nf);
        return nf;
    }
    static Object assoc(Object m, Object k, Object v) {
        if (m == null) return PersistentArrayMap.EMPTY.assoc(k, v);
        if (!(m instanceof Associative)) throw new ClassCastException("class " + m.getClass().getName() + " cannot be cast to class clojure.lang.Associative");
        return ((Associative) m).assoc(k, v);
    }
    static Object dissoc(Object m, Object k) { return m == null ? null : cast(IPersistentMap.class, m).without(k); }
    static <T> T cast(Class<T> c, Object o) {
        if (o == null) throw new NullPointerException();
        if (!c.isInstance(o)) throw new ClassCastException("class " + o.getClass().getName() + " cannot be cast to class " + c.getName());
        return c.cast(o);
    }
    static boolean contains(Object c, Object k) {
        if (c == null) return false;
        if (c instanceof Associative) return ((Associative) c).containsKey(k);
        if (c instanceof IPersistentSet) return ((IPersistentSet) c).contains(k);
        if (c instanceof Map) return ((Map) c).containsKey(k);
        if (c instanceof Set) return ((Set) c).contains(k);
        if (k instanceof Number && (c instanceof CharSequence || c.getClass().isArray())) { int i = ((Number) k).intValue(); return i >= 0 && i < count(c); }
        if (c instanceof TransientSet) return ((TransientSet) c).valAt(k, NF) != NF;
        if (c instanceof ILookup && c instanceof ATransient) return ((ILookup) c).valAt(k, NF) != NF;
        throw new IllegalArgumentException("contains? not supported on type: " + c.getClass().getName());
    }
    static Object find(Object m, Object k) {
        if (m == null) return null;
        if (m instanceof Associative) return ((Associative) m).entryAt(k);
        if (m instanceof Map) return ((Map) m).containsKey(k) ? new MapEntry(k, ((Map) m).get(k)) : null;
        throw new IllegalArgumentException("find not supported on type: " + m.getClass().getName());
    }
    static Object meta(Object o) { return o instanceof IMeta ? ((IMeta) o).meta() : null; }
    static Object peek(Object o) { return o == null ? null : cast(IPersistentStack.class, o).peek(); }
    static Object pop(Object o) { return o == null ? null : cast(IPersistentStack.class, o).pop(); }
    static Object list(Object... a) { return PersistentList.of(a); }
    static PersistentVector vec(Object... a) { return PersistentVector.of(a); }
    static IPersistentMap map(Object... a) { return PersistentArrayMap.of(a); }
    static Object set(Object coll) { Object s = PersistentHashSet.EMPTY; for (ISeq x = seq(coll); x != null; x = x.next()) s = ((PersistentHashSet) s).cons(x.first()); return s; }
    static Object mapFrom(Object coll) { Object m = PersistentArrayMap.EMPTY; for (ISeq x = seq(coll); x != null; x = x.next()) m = conj(m, x.first()); return m; }

    // ---- reduce
    static Object reduce(IFn f, Object init, Object coll) {
        if (coll == null) return init;
        if (coll instanceof IReduceInit) return ((IReduceInit) coll).reduce(f, init);
        Object acc = init;
        if (coll instanceof LazySeq || coll instanceof ISeq || coll instanceof CharSequence || coll.getClass().isArray()) {
            for (ISeq s = seq(coll); s != null; s = s.next()) { acc = f.invoke(acc, s.first()); if (acc instanceof Reduced) return ((Reduced) acc).val; }
            return acc;
        }
        if (coll instanceof Iterable) {
            for (Object x : (Iterable) coll) { acc = f.invoke(acc, x); if (acc instanceof Reduced) return ((Reduced) acc).val; }
            return acc;
        }
        for (ISeq s = seq(coll); s != null; s = s.next()) { acc = f.invoke(acc, s.first()); if (acc instanceof Reduced) return ((Reduced) acc).val; }
        return acc;
    }

    // ---- equality
    static boolean equiv(Object a, Object b) {
        if (a == b) return true;
        if (a == null || b == null) return false;
        if (a instanceof Number && b instanceof Number) return Num.equal(a, b);
        if (a instanceof IPersistentCollection || b instanceof IPersistentCollection) return collEquiv(a, b);
        return a.equals(b);
    }
    static boolean collEquiv(Object a, Object b) {
        if (a instanceof Sequential || b instanceof Sequential) {
            if (!((a instanceof Sequential || a instanceof List) && (b instanceof Sequential || b instanceof List))) return false;
            if (a instanceof Counted && b instanceof Counted && count(a) != count(b)) return false;
            ISeq x = seq(a), y = seq(b);
            for (; x != null; x = x.next(), y = y.next()) if (y == null || !equiv(x.first(), y.first())) return false;
            return y == null;
        }
        if (a instanceof Set && b instanceof Set) {
            if (((Set) a).size() != ((Set) b).size()) return false;
            if (!(a instanceof IPersistentSet)) { Object t = a; a = b; b = t; }
            for (Object x : (Set) b) if (!((IPersistentSet) a).contains(x)) return false;
            return true;
        }
        if (a instanceof Map && b instanceof Map) {
            if (((Map) a).size() != ((Map) b).size()) return false;
            if (!(a instanceof IPersistentMap)) { Object t = a; a = b; b = t; }
            for (Object e : ((Map) b).entrySet()) {
                Object v = ((IPersistentMap) a).valAt(((Map.Entry) e).getKey(), NF);
                if (v == NF || !equiv(v, ((Map.Entry) e).getValue())) return false;
            }
            return true;
        }
        return false;
    }
    static int hasheq(Object o) {
        if (o == null) return 0;
        if (o instanceof String) return Murmur.hashInt(o.hashCode());
        if (o instanceof Keyword) return ((Keyword) o).hasheq;
        if (o instanceof Symbol) return ((Symbol) o).hasheq();
        if (o instanceof Number) return Num.hasheq(o);
        if (o instanceof IPersistentMap) return Murmur.hashUnordered((Iterable) o);
        if (o instanceof IPersistentSet) return Murmur.hashUnordered((Iterable) o);
        if (o instanceof Sequential && o instanceof Iterable) return Murmur.hashOrdered((Iterable) o);
        return o.hashCode();
    }
    static int compare(Object a, Object b) {
        if (a == b) return 0;
        if (a == null) return -1;
        if (b == null) return 1;
        if (a instanceof Number) {
            if (!(b instanceof Number)) throw new ClassCastException("class " + b.getClass().getName() + " cannot be cast to class java.lang.Number");
            return Num.compare(a, b);
        }
        if (!(a instanceof Comparable)) throw new ClassCastException("class " + a.getClass().getName() + " cannot be cast to class java.lang.Comparable");
        return ((Comparable) a).compareTo(b);
    }
    static final Comparator COMPARE = (a, b) -> compare(a, b);
    static Comparator comparator(Object f) { return f == null ? COMPARE : f instanceof Comparator ? (Comparator) f : (a, b) -> { throw new ClassCastException("not a Comparator"); }; }

    // ---- hierarchy
    static final Var HIERARCHY = core("global-hierarchy");
    static { HIERARCHY.root = map(kw("parents"), PersistentArrayMap.EMPTY, kw("descendants"), PersistentArrayMap.EMPTY, kw("ancestors"), PersistentArrayMap.EMPTY); }
    static boolean isa(Object c, Object p) { return isa(HIERARCHY.deref(), c, p); }
    static boolean isa(Object h, Object c, Object p) {
        if (equiv(c, p)) return true;
        if (c instanceof Class && p instanceof Class && ((Class) p).isAssignableFrom((Class) c)) return true;
        Object an = get(get(h, kw("ancestors")), c);
        if (an != null && contains(an, p)) return true;
        if (c instanceof Class) for (Object e : (Iterable) get(h, kw("ancestors"))) { Map.Entry x = (Map.Entry) e; if (x.getKey() instanceof Class && ((Class) x.getKey()).isAssignableFrom((Class) c) && contains(x.getValue(), p)) return true; }
        if (c instanceof IPersistentVector && p instanceof IPersistentVector && count(c) == count(p)) {
            for (int i = 0; i < count(c); i++) if (!isa(h, nth(c, i), nth(p, i))) return false;
            return true;
        }
        return false;
    }

    // ---- printing
    static Object printDispatch(Object x) { Object t = get(meta(x), kw("type")); return t instanceof Keyword ? t : x == null ? null : x.getClass(); }
    static void print(Object x, Writer w) throws IOException { PRINT_METHOD.invoke(x, w); }
    static String str(Object o) { return o == null ? "" : o.toString(); }
    static String prStr(Object o) {
        StringWriter w = new StringWriter();
        try { print(o, w); } catch (IOException e) { throw sneaky(e); }
        return w.toString();
    }
    static final Map<Character, String> CHARNAMES = Map.of('\n', "newline", '\t', "tab", ' ', "space", '\b', "backspace", '\f', "formfeed", '\r', "return");
    static final Object ELLIPSIS = new Object();
    static void printSeq(String open, ISeq s, String close, Writer w, boolean isMap) throws IOException {
        Object len = PRINT_LENGTH.deref(), level = PRINT_LEVEL.deref();
        if (level != null) { if (Num.signum(level) <= 0) { w.write("#"); return; } PRINT_LEVEL.push(Num.sub(level, 1L)); }
        try {
            w.write(open);
            long n = 0;
            for (; s != null; s = s.next(), n++) {
                if (n > 0) w.write(isMap ? ", " : " ");
                if (len != null && n >= ((Number) len).longValue()) { w.write("..."); break; }
                Object o = s.first();
                if (isMap) { print(((Map.Entry) o).getKey(), w); w.write(' '); print(((Map.Entry) o).getValue(), w); }
                else print(o, w);
            }
            w.write(close);
        } finally { if (level != null) PRINT_LEVEL.pop(); }
    }
    static void printBase(Object x, Writer w) throws IOException {
        boolean readably = truth(PRINT_READABLY.deref());
        if (x == null) w.write("nil");
        else if (x instanceof String) {
            String s = (String) x;
            if (!readably) { w.write(s); return; }
            w.write('"');
            for (int i = 0; i < s.length(); i++) {
                char c = s.charAt(i);
                switch (c) { case '\n': w.write("\\n"); break; case '\t': w.write("\\t"); break; case '\r': w.write("\\r"); break; case '"': w.write("\\\""); break; case '\\': w.write("\\\\"); break; case '\f': w.write("\\f"); break; case '\b': w.write("\\b"); break; default: w.write(c); }
            }
            w.write('"');
        } else if (x instanceof Character) {
            if (!readably) w.write((char) (Character) x);
            else { w.write("\\"); String n = CHARNAMES.get(x); if (n != null) w.write(n); else w.write((char) (Character) x); }
        } else if (x instanceof BigDecimal) w.write(x + "M");
        else if (x instanceof BigInt) w.write(x + "N");
        else if (x instanceof BigInteger) w.write(x + "N");
        else if (x instanceof Double) { double d = (Double) x; w.write(Double.isNaN(d) ? "##NaN" : Double.isInfinite(d) ? d > 0 ? "##Inf" : "##-Inf" : x.toString()); }
        else if (x instanceof Number || x instanceof Boolean || x instanceof Symbol || x instanceof Keyword) w.write(x.toString());
        else if (x instanceof java.util.regex.Pattern) { w.write("#\""); w.write(x.toString().replace("\"", "\\\"")); w.write('"'); }
        else if (x instanceof Class) w.write(((Class) x).getName());
        else if (x instanceof IPersistentMap || x instanceof Map) printSeq("{", seq(x), "}", w, true);
        else if (x instanceof IPersistentVector || x instanceof RandomAccess) printSeq("[", seq(x), "]", w, false);
        else if (x instanceof Set) printSeq("#{", seq(x), "}", w, false);
        else if (x instanceof ISeq || x instanceof Sequential || x instanceof Collection) printSeq("(", seq(x), ")", w, false);
        else if (x instanceof Var) w.write(x.toString());
        else if (x instanceof Namespace) w.write("#object[clojure.lang.Namespace 0x" + Integer.toHexString(System.identityHashCode(x)) + " \"" + x + "\"]");
        else if (x instanceof Throwable) { w.write("#error "); print(Lib.throwableMap((Throwable) x), w); }
        else if (x instanceof UUID) w.write("#uuid \"" + x + "\"");
        else if (x instanceof IDeref) { w.write("#object[" + x.getClass().getName() + " 0x" + Integer.toHexString(System.identityHashCode(x)) + " "); print(map(kw("status"), kw("ready"), kw("val"), x instanceof Delay ? null : ((IDeref) x).deref()), w); w.write("]"); }
        else w.write("#object[" + x.getClass().getName() + " 0x" + Integer.toHexString(System.identityHashCode(x)) + " \"" + x + "\"]");
    }
}
