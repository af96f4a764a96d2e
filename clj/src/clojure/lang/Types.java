package clojure.lang;
import java.math.*;
import java.util.*;
import java.util.concurrent.Callable;
import java.util.concurrent.ConcurrentHashMap;

interface IMeta { Object meta(); }
interface IObj extends IMeta { Object withMeta(Object m); }
interface Named { String getName(); String getNamespace(); }
interface Sequential {}
interface Counted { int count(); }
interface IDeref { Object deref(); }
interface IPending { boolean isRealized(); }
interface Seqable { ISeq seq(); }
interface IPersistentCollection extends Seqable { int count(); Object cons(Object o); Object empty(); }
interface ISeq extends IPersistentCollection, Sequential { Object first(); ISeq next(); }
interface ILookup { Object valAt(Object k, Object nf); }
interface Associative extends IPersistentCollection, ILookup { Associative assoc(Object k, Object v); boolean containsKey(Object k); Object entryAt(Object k); }
interface Indexed extends Counted { Object nth(int i, Object nf); }
interface IPersistentStack extends IPersistentCollection { Object peek(); Object pop(); }
interface IPersistentList extends IPersistentStack, Sequential {}
interface IPersistentVector extends Associative, IPersistentStack, Sequential, Indexed, Reversible {}
interface IPersistentMap extends Associative, Counted, Iterable { IPersistentMap without(Object k); IPersistentMap assoc(Object k, Object v); }
interface IPersistentSet extends IPersistentCollection, Counted { IPersistentSet disjoin(Object k); boolean contains(Object k); Object get(Object k, Object nf); }
interface Reversible { ISeq rseq(); }
interface IReduceInit { Object reduce(IFn f, Object init); }
interface IMapEntry {}
interface IRecord {}
interface IFn extends Callable, Runnable {
    Object invoke(Object... args);
    default Object applyTo(Object args) { return invoke(RT.toArray(args)); }
    default Object call() { return invoke(); }
    default void run() { invoke(); }
}
interface Fn {}
abstract class AFn implements IFn, Comparator, java.util.function.Function, java.util.function.Supplier, java.util.function.Predicate, java.util.function.Consumer, java.util.function.BiFunction {
    public int compare(Object a, Object b) {
        Object r = invoke(a, b);
        if (r instanceof Boolean) { if ((Boolean) r) return -1; return RT.truth(invoke(b, a)) ? 1 : 0; }
        return ((Number) r).intValue();
    }
    public Object apply(Object a) { return invoke(a); }
    public Object get() { return invoke(); }
    public boolean test(Object a) { return RT.truth(invoke(a)); }
    public void accept(Object a) { invoke(a); }
    public Object apply(Object a, Object b) { return invoke(a, b); }
    public Comparator reversed() { return Collections.reverseOrder(this); }
    public AFn andThen(java.util.function.Function f) { throw new UnsupportedOperationException(); }
    public java.util.function.Predicate negate() { throw new UnsupportedOperationException(); }
}
abstract class AFunction extends AFn implements Fn, IObj {
    Object meta;
    String name = "fn";
    public Object meta() { return meta; }
    public Object withMeta(Object m) { AFunction me = this; AFunction f = new AFunction() { public Object invoke(Object... a) { return me.invoke(a); } }; f.meta = m; f.name = name; return f; }
    public String toString() { return "#function[" + name + "]"; }
}
class ArityException extends IllegalArgumentException {
    ArityException(int n, String name) { super("Wrong number of args (" + n + ") passed to: " + name); }
}
class ExceptionInfo extends RuntimeException {
    final Object data;
    ExceptionInfo(String m, Object data, Throwable cause) { super(m, cause); this.data = data; }
    public Object getData() { return data; }
    public String toString() { return "clojure.lang.ExceptionInfo: " + getMessage() + " " + data; }
}
final class Symbol extends AFn implements IObj, Named, Comparable {
    final String ns, name; final Object meta;
    Symbol(String ns, String name, Object meta) { this.ns = ns; this.name = name; this.meta = meta; }
    static Symbol intern(String ns, String name) { return new Symbol(ns, name, null); }
    static Symbol intern(String s) {
        int i = s.indexOf('/');
        return i <= 0 || s.equals("/") ? new Symbol(null, s, null) : new Symbol(s.substring(0, i), s.substring(i + 1), null);
    }
    public String getName() { return name; }
    public String getNamespace() { return ns; }
    public Object meta() { return meta; }
    public Object withMeta(Object m) { return new Symbol(ns, name, m); }
    public boolean equals(Object o) { return o instanceof Symbol && Objects.equals(ns, ((Symbol) o).ns) && name.equals(((Symbol) o).name); }
    public int hashCode() { return name.hashCode() * 31 + Objects.hashCode(ns); }
    int hasheq() { return Murmur.hashCombine(Murmur.hashUnencodedChars(name), ns == null ? 0 : ns.hashCode()); }
    public String toString() { return ns == null ? name : ns + "/" + name; }
    public int compareTo(Object o) {
        Symbol s = (Symbol) o;
        if (equals(s)) return 0;
        if (ns == null && s.ns != null) return -1;
        if (ns != null) { if (s.ns == null) return 1; int c = ns.compareTo(s.ns); if (c != 0) return c; }
        return name.compareTo(s.name);
    }
    public Object invoke(Object... a) { if (a.length < 1 || a.length > 2) throw new ArityException(a.length, toString()); return RT.get(a[0], this, a.length > 1 ? a[1] : null); }
}
final class Keyword extends AFn implements Named, Comparable {
    static final ConcurrentHashMap<String, Keyword> table = new ConcurrentHashMap<>();
    final Symbol sym; final int hasheq;
    private Keyword(Symbol s) { sym = s; hasheq = s.hasheq() + 0x9e3779b9; }
    static Keyword intern(Symbol s) { return table.computeIfAbsent(s.toString(), k -> new Keyword(new Symbol(s.ns, s.name, null))); }
    static Keyword intern(String ns, String name) { return intern(Symbol.intern(ns, name)); }
    static Keyword intern(String s) { return intern(Symbol.intern(s)); }
    public String getName() { return sym.name; }
    public String getNamespace() { return sym.ns; }
    public String toString() { return ":" + sym; }
    public int hashCode() { return sym.hashCode() + 0x9e3779b9; }
    public int compareTo(Object o) { return sym.compareTo(((Keyword) o).sym); }
    public Object invoke(Object... a) { if (a.length < 1 || a.length > 2) throw new ArityException(a.length, toString()); return RT.get(a[0], this, a.length > 1 ? a[1] : null); }
}
final class Murmur {
    static int mixK1(int k) { k *= 0xcc9e2d51; k = Integer.rotateLeft(k, 15); return k * 0x1b873593; }
    static int mixH1(int h, int k) { h ^= k; h = Integer.rotateLeft(h, 13); return h * 5 + 0xe6546b64; }
    static int fmix(int h, int len) { h ^= len; h ^= h >>> 16; h *= 0x85ebca6b; h ^= h >>> 13; h *= 0xc2b2ae35; h ^= h >>> 16; return h; }
    static int hashInt(int i) { return i == 0 ? 0 : fmix(mixH1(0, mixK1(i)), 4); }
    static int hashLong(long l) {
        if (l == 0) return 0;
        int h = mixH1(0, mixK1((int) l));
        return fmix(mixH1(h, mixK1((int) (l >>> 32))), 8);
    }
    static int hashUnencodedChars(CharSequence s) {
        int h = 0;
        for (int i = 1; i < s.length(); i += 2) h = mixH1(h, mixK1(s.charAt(i - 1) | (s.charAt(i) << 16)));
        if ((s.length() & 1) == 1) h ^= mixK1(s.charAt(s.length() - 1));
        return fmix(h, 2 * s.length());
    }
    static int hashCombine(int seed, int hash) { return seed ^ (hash + 0x9e3779b9 + (seed << 6) + (seed >> 2)); }
    static int mixCollHash(int h, int n) { return fmix(mixH1(0, mixK1(h)), n); }
    static int hashOrdered(Iterable xs) { int n = 0, h = 1; for (Object x : xs) { h = 31 * h + RT.hasheq(x); n++; } return mixCollHash(h, n); }
    static int hashUnordered(Iterable xs) { int n = 0, h = 0; for (Object x : xs) { h += RT.hasheq(x); n++; } return mixCollHash(h, n); }
}
final class Ratio extends Number implements Comparable {
    final BigInteger numerator, denominator;
    Ratio(BigInteger n, BigInteger d) { numerator = n; denominator = d; }
    static Object of(BigInteger n, BigInteger d) {
        if (d.signum() == 0) throw new ArithmeticException("Divide by zero");
        BigInteger g = n.gcd(d);
        if (g.signum() != 0) { n = n.divide(g); d = d.divide(g); }
        if (d.signum() < 0) { n = n.negate(); d = d.negate(); }
        return d.equals(BigInteger.ONE) ? Num.reduce(n) : new Ratio(n, d);
    }
    public int intValue() { return (int) doubleValue(); }
    public long longValue() { return numerator.divide(denominator).longValue(); }
    public float floatValue() { return (float) doubleValue(); }
    public double doubleValue() { return new BigDecimal(numerator).divide(new BigDecimal(denominator), MathContext.DECIMAL64).doubleValue(); }
    BigDecimal decimal(MathContext mc) { return mc == null ? new BigDecimal(numerator).divide(new BigDecimal(denominator)) : new BigDecimal(numerator).divide(new BigDecimal(denominator), mc); }
    public boolean equals(Object o) { return o instanceof Ratio && ((Ratio) o).numerator.equals(numerator) && ((Ratio) o).denominator.equals(denominator); }
    public int hashCode() { return numerator.hashCode() ^ denominator.hashCode(); }
    public String toString() { return numerator + "/" + denominator; }
    public int compareTo(Object o) { return Num.compare(this, (Number) o); }
}
final class BigInt extends Number {
    final BigInteger v;
    BigInt(BigInteger v) { this.v = v; }
    public int intValue() { return v.intValue(); }
    public long longValue() { return v.longValue(); }
    public float floatValue() { return v.floatValue(); }
    public double doubleValue() { return v.doubleValue(); }
    public boolean equals(Object o) { return o instanceof BigInt && v.equals(((BigInt) o).v); }
    public int hashCode() { return v.bitLength() < 64 ? Long.hashCode(v.longValue()) : v.hashCode(); }
    public String toString() { return v.toString(); }
}
final class Reduced implements IDeref { final Object val; Reduced(Object v) { val = v; } public Object deref() { return val; } }
final class Volatile implements IDeref { volatile Object val; Volatile(Object v) { val = v; } public Object deref() { return val; } }
final class Atom implements IDeref, IObj {
    final java.util.concurrent.atomic.AtomicReference<Object> r = new java.util.concurrent.atomic.AtomicReference<>(); Object meta; IFn validator; IPersistentMap watches = PersistentArrayMap.EMPTY;
    Atom(Object v) { r.set(v); }
    public Object deref() { return r.get(); }
    public Object meta() { return meta; }
    public Object withMeta(Object m) { throw new UnsupportedOperationException(); }
    void check(Object v) { if (validator != null && !RT.truth(validator.invoke(v))) throw new IllegalStateException("Invalid reference state"); }
    Object notifyW(Object old, Object v) { for (Object e : watches) ((IFn) RT.nth(e, 1)).invoke(RT.nth(e, 0), this, old, v); return v; }
}
final class Delay implements IDeref, IPending {
    IFn fn; Object val; Throwable exc; volatile boolean started;
    Delay(IFn f) { fn = f; }
    public synchronized Object deref() {
        started = true;
        if (fn != null) { IFn f = fn; try { val = f.invoke(); } catch (Throwable t) { exc = t; } fn = null; }
        if (exc != null) throw RT.sneaky(exc);
        return val;
    }
    public synchronized boolean isRealized() { return fn == null; }
}
final class Namespace implements IObj {
    static final ConcurrentHashMap<String, Namespace> all = new ConcurrentHashMap<>();
    final Symbol name; Object meta;
    final ConcurrentHashMap<String, Object> mappings = new ConcurrentHashMap<>();
    final ConcurrentHashMap<String, Namespace> aliases = new ConcurrentHashMap<>();
    Namespace(Symbol n) { name = n; }
    static Namespace findOrCreate(Symbol s) { return all.computeIfAbsent(s.toString(), k -> new Namespace(s)); }
    static Namespace find(Symbol s) { return all.get(s.toString()); }
    Var intern(Symbol s) {
        Object o = mappings.get(s.name);
        if (o instanceof Var && ((Var) o).ns == this) return (Var) o;
        Var v = new Var(this, new Symbol(null, s.name, null));
        mappings.put(s.name, v);
        return v;
    }
    public Symbol getName() { return name; }
    public String toString() { return name.toString(); }
    public Object meta() { return meta; }
    public Object withMeta(Object m) { throw new UnsupportedOperationException(); }
}
final class Var extends AFn implements IDeref, IObj {
    static final Object UNBOUND = new Object() { public String toString() { return "Unbound"; } };
    static final ThreadLocal<IdentityHashMap<Var, ArrayDeque<Object[]>>> bound = ThreadLocal.withInitial(IdentityHashMap::new);
    final Namespace ns; final Symbol sym; volatile Object root = UNBOUND; boolean dynamic, macro, priv; Object meta = PersistentArrayMap.EMPTY;
    Var(Namespace ns, Symbol s) { this.ns = ns; sym = s; }
    public Object deref() {
        if (dynamic) { ArrayDeque<Object[]> d = bound.get().get(this); if (d != null && !d.isEmpty()) return d.peek()[0]; }
        return root;
    }
    public Object get() {
        Object o = deref();
        if (o == UNBOUND) throw new IllegalStateException("Attempting to use unbound var: " + this);
        return o;
    }
    boolean isBoundT() { ArrayDeque<Object[]> d = bound.get().get(this); return d != null && !d.isEmpty(); }
    void push(Object v) { bound.get().computeIfAbsent(this, k -> new ArrayDeque<>()).push(new Object[]{v}); }
    void pop() { bound.get().get(this).pop(); }
    Object set(Object v) {
        ArrayDeque<Object[]> d = bound.get().get(this);
        if (d == null || d.isEmpty()) throw new IllegalStateException("Can't change/establish root binding of: " + sym + " with set");
        d.peek()[0] = v; return v;
    }
    void setMeta(Object m) {
        meta = m;
        dynamic |= RT.truth(RT.get(m, RT.kw("dynamic"), null)); macro |= RT.truth(RT.get(m, RT.kw("macro"), null)); priv = RT.truth(RT.get(m, RT.kw("private"), null));
    }
    public Object meta() { return RT.assoc(RT.assoc(meta, RT.kw("ns"), ns), RT.kw("name"), sym); }
    public Object withMeta(Object m) { throw new UnsupportedOperationException(); }
    public String toString() { return "#'" + ns.name + "/" + sym.name; }
    public Object invoke(Object... a) { return RT.fn(get()).invoke(a); }
}
final class MultiFn extends AFn {
    final String name; final IFn dispatch; public final IFn dispatchFn; final Object dflt;
    final LinkedHashMap<Object, Object[]> table = new LinkedHashMap<>();
    final HashMap<Object, Object> prefers = new HashMap<>();
    static final Object NIL = new Object();
    MultiFn(String n, IFn d, Object df) { name = n; dispatch = d; dispatchFn = d; dflt = df; }
    static Object key(Object o) { return new Key(o); }
    void add(Object v, Object f) { synchronized (table) { table.put(key(v), new Object[]{v, f}); } }
    void remove(Object v) { table.remove(key(v)); }
    IFn find(Object v) {
        Object[] e = table.get(key(v));
        if (e != null) return (IFn) e[1];
        Object[] best = null;
        for (Object[] x : table.values())
            if (RT.isa(v, x[0])) {
                if (best == null || RT.isa(x[0], best[0])) best = x;
                else if (!RT.isa(best[0], x[0]) && !prefer(best[0], x[0])) {
                    if (prefer(x[0], best[0])) best = x;
                    else throw new IllegalArgumentException("Multiple methods in multimethod '" + name + "' match dispatch value: " + RT.prStr(v) + " -> " + RT.prStr(x[0]) + " and " + RT.prStr(best[0]) + ", and neither is preferred");
                }
            }
        if (best != null) return (IFn) best[1];
        e = table.get(key(dflt));
        return e == null ? null : (IFn) e[1];
    }
    boolean prefer(Object a, Object b) { Object s = prefers.get(key(a)); return s instanceof IPersistentSet && ((IPersistentSet) s).contains(b); }
    public Object invoke(Object... a) {
        Object v = dispatch.invoke(a);
        IFn f = find(v);
        if (f == null) throw new IllegalArgumentException("No method in multimethod '" + name + "' for dispatch value: " + RT.prStr(v));
        return f.invoke(a);
    }
}
/** equality and hash of Clojure, for Java maps */
final class Key {
    final Object o;
    Key(Object o) { this.o = o; }
    public int hashCode() { return RT.hasheq(o); }
    public boolean equals(Object k) { return k instanceof Key && RT.equiv(o, ((Key) k).o); }
}
