package clojure.lang;
import java.util.*;

abstract class ASeq extends AbstractCollection implements ISeq, IObj, List {
    Object meta;
    public Object meta() { return meta; }
    public ISeq seq() { return this; }
    public Object cons(Object o) { return new Cons(o, this); }
    public Object empty() { return PersistentList.EMPTY; }
    public int count() { int n = 0; for (ISeq s = this; s != null; s = s.next()) n++; return n; }
    public int size() { return count(); }
    public boolean isEmpty() { return false; }
    public Iterator iterator() { return new SeqIterator(this); }
    public int hashCode() { int h = 1; for (Object o : this) h = 31 * h + (o == null ? 0 : o.hashCode()); return h; }
    public boolean equals(Object o) { return RT.equiv(this, o); }
    public String toString() { return RT.prStr(this); }
    public Object withMeta(Object m) { Cons c = new Cons(first(), next()); c.meta = m; return c; }
    // java.util.List
    public Object get(int i) { return RT.nth(this, i); }
    public Object set(int i, Object o) { throw new UnsupportedOperationException(); }
    public void add(int i, Object o) { throw new UnsupportedOperationException(); }
    public Object remove(int i) { throw new UnsupportedOperationException(); }
    public boolean addAll(int i, Collection c) { throw new UnsupportedOperationException(); }
    List l() { ArrayList a = new ArrayList(); for (Object o : this) a.add(o); return a; }
    public int indexOf(Object o) { int i = 0; for (Object x : this) { if (RT.equiv(x, o)) return i; i++; } return -1; }
    public int lastIndexOf(Object o) { return l().lastIndexOf(o); }
    public ListIterator listIterator() { return l().listIterator(); }
    public ListIterator listIterator(int i) { return l().listIterator(i); }
    public List subList(int a, int b) { return l().subList(a, b); }
}
final class SeqIterator implements Iterator {
    ISeq s; boolean started; ISeq cur;
    SeqIterator(ISeq s) { this.s = s; }
    ISeq peek() { if (!started) { started = true; cur = s; s = null; pending = false; } else if (pending) { cur = cur.next(); pending = false; } return cur; }
    boolean pending;
    public boolean hasNext() { return peek() != null; }
    public Object next() { ISeq c = peek(); if (c == null) throw new NoSuchElementException(); pending = true; return c.first(); }
}
final class Cons extends ASeq {
    final Object f; final Object r;
    Cons(Object f, Object r) { this.f = f; this.r = r; }
    public Object first() { return f; }
    public ISeq next() { return RT.seq(r); }
    Object more() { return r == null ? PersistentList.EMPTY : r; }
}
final class PersistentList extends ASeq implements IPersistentList, Counted {
    static final EmptyList EMPTY = new EmptyList(null);
    static final class EmptyList extends AbstractList implements IPersistentList, ISeq, IObj, Counted {
        final Object meta;
        EmptyList(Object m) { meta = m; }
        public Object meta() { return meta; }
        public Object withMeta(Object m) { return new EmptyList(m); }
        public ISeq seq() { return null; }
        public Object first() { return null; }
        public ISeq next() { return null; }
        public int count() { return 0; }
        public int size() { return 0; }
        public Object get(int i) { throw new IndexOutOfBoundsException(); }
        public Object cons(Object o) { return new PersistentList(o, null, 1); }
        public Object empty() { return this; }
        public Object peek() { return null; }
        public Object pop() { throw new IllegalStateException("Can't pop empty list"); }
        public boolean equals(Object o) { return RT.equiv(this, o); }
        public int hashCode() { return 1; }
        public String toString() { return "()"; }
    }
    final Object f; final PersistentList r; final int n;
    PersistentList(Object f, PersistentList r, int n) { this.f = f; this.r = r; this.n = n; }
    static Object create(List l) { PersistentList p = null; for (int i = l.size() - 1, n = 1; i >= 0; i--, n++) p = new PersistentList(l.get(i), p, n); return p == null ? (Object) EMPTY : p; }
    static Object of(Object... a) { return create(Arrays.asList(a)); }
    public Object first() { return f; }
    public ISeq next() { return r; }
    public int count() { return n; }
    public Object cons(Object o) { return new PersistentList(o, this, n + 1); }
    public Object peek() { return f; }
    public Object pop() { return r == null ? (Object) EMPTY : r; }
    public Object withMeta(Object m) { PersistentList p = new PersistentList(f, r, n); p.meta = m; return p; }
}
final class LazySeq extends AbstractList implements ISeq, IObj, IPending {
    IFn fn; Object sv; ISeq s; Object meta;
    LazySeq(IFn f) { fn = f; }
    synchronized Object sval() { if (fn != null) { sv = fn.invoke(); fn = null; } return sv != null ? sv : s; }
    public synchronized ISeq seq() {
        sval();
        if (sv != null) {
            Object ls = sv; sv = null;
            while (ls instanceof LazySeq) ls = ((LazySeq) ls).sval();
            s = RT.seq(ls);
        }
        return s;
    }
    public Object first() { seq(); return s == null ? null : s.first(); }
    public ISeq next() { seq(); return s == null ? null : s.next(); }
    public int count() { int n = 0; for (ISeq x = seq(); x != null; x = x.next()) n++; return n; }
    public int size() { return count(); }
    public boolean isEmpty() { return seq() == null; }
    public Object get(int i) { return RT.nth(seq(), i); }
    public Iterator iterator() { return new SeqIterator(seq()); }
    public Object cons(Object o) { return new Cons(o, this); }
    public Object empty() { return PersistentList.EMPTY; }
    public Object meta() { return meta; }
    public Object withMeta(Object m) { ISeq x = seq(); LazySeq l = new LazySeq(null); l.s = x; l.meta = m; return l; }
    public boolean isRealized() { return fn == null; }
    public boolean equals(Object o) { return RT.equiv(this, o); }
    public int hashCode() { ISeq x = seq(); return x == null ? 1 : x.hashCode(); }
    public String toString() { return "clojure.lang.LazySeq@" + Integer.toHexString(hashCode()); }
}
final class ArraySeq extends ASeq implements Counted {
    final Object[] a; final int i;
    ArraySeq(Object[] a, int i) { this.a = a; this.i = i; }
    static ISeq of(Object[] a, int i) { return i < a.length ? new ArraySeq(a, i) : null; }
    public Object first() { return a[i]; }
    public ISeq next() { return of(a, i + 1); }
    public int count() { return a.length - i; }
}
final class IndexedSeq extends ASeq implements Counted {
    final List v; final int i;
    IndexedSeq(List v, int i) { this.v = v; this.i = i; }
    public Object first() { return v.get(i); }
    public ISeq next() { return i + 1 < v.size() ? new IndexedSeq(v, i + 1) : null; }
    public int count() { return v.size() - i; }
}
final class StringSeq extends ASeq implements Counted {
    final CharSequence v; final int i;
    StringSeq(CharSequence v, int i) { this.v = v; this.i = i; }
    public Object first() { return v.charAt(i); }
    public ISeq next() { return i + 1 < v.length() ? new StringSeq(v, i + 1) : null; }
    public int count() { return v.length() - i; }
}
final class IterSeq extends ASeq {
    final Iterator it; final Object f; ISeq nx; boolean got;
    IterSeq(Iterator it) { this.it = it; f = it.next(); }
    static ISeq of(Iterator it) { return it.hasNext() ? new IterSeq(it) : null; }
    public Object first() { return f; }
    public synchronized ISeq next() { if (!got) { got = true; nx = of(it); } return nx; }
}
final class MapEntry extends APersistentVector implements IMapEntry, Map.Entry {
    final Object k, v;
    public MapEntry(Object k, Object v) { this.k = k; this.v = v; }
    public static MapEntry create(Object k, Object v) { return new MapEntry(k, v); }
    public int size() { return 2; }
    public Object get(int i) { if (i == 0) return k; if (i == 1) return v; throw new IndexOutOfBoundsException(); }
    PersistentVector pv() { return PersistentVector.of(k, v); }
    public Object cons(Object o) { return pv().cons(o); }
    public Associative assoc(Object i, Object o) { return pv().assoc(i, o); }
    public Object pop() { return PersistentVector.of(k); }
    public Object empty() { return null; }
    public Object meta() { return null; }
    public Object withMeta(Object m) { return pv().withMeta(m); }
    public Object getKey() { return k; }
    public Object getValue() { return v; }
    public Object setValue(Object o) { throw new UnsupportedOperationException(); }
}
abstract class APersistentVector extends AbstractList implements IPersistentVector, IObj, IFn, Comparable, RandomAccess, Iterable {
    public int count() { return size(); }
    public ISeq seq() { return size() == 0 ? null : new IndexedSeq(this, 0); }
    public ISeq rseq() { if (size() == 0) return null; ArrayList a = new ArrayList(this); Collections.reverse(a); return ArraySeq.of(a.toArray(), 0); }
    public Object nth(int i, Object nf) { return i >= 0 && i < size() ? get(i) : nf; }
    public Object valAt(Object k, Object nf) { return RT.isInteger(k) ? nth(((Number) k).intValue(), nf) : nf; }
    public boolean containsKey(Object k) { return RT.isInteger(k) && ((Number) k).longValue() >= 0 && ((Number) k).longValue() < size(); }
    public Object entryAt(Object k) { return containsKey(k) ? new MapEntry(k, get(((Number) k).intValue())) : null; }
    public Object peek() { return size() == 0 ? null : get(size() - 1); }
    public Object invoke(Object... a) {
        if (a.length != 1) throw new ArityException(a.length, "clojure.lang.PersistentVector");
        if (!RT.isInteger(a[0])) throw new IllegalArgumentException("Key must be integer");
        int i = ((Number) a[0]).intValue();
        if (i < 0 || i >= size()) throw new IndexOutOfBoundsException();
        return get(i);
    }
    public int compareTo(Object o) {
        APersistentVector v = (APersistentVector) o;
        if (size() != v.size()) return size() < v.size() ? -1 : 1;
        for (int i = 0; i < size(); i++) { int c = RT.compare(get(i), v.get(i)); if (c != 0) return c; }
        return 0;
    }
    public boolean equals(Object o) { return RT.equiv(this, o); }
    public String toString() { return RT.prStr(this); }
    public void run() { throw new UnsupportedOperationException(); }
}
final class PersistentVector extends APersistentVector {
    // a trie of 32 with a tail, as in Clojure
    static final Object[] NONE = new Object[0];
    static final PersistentVector EMPTY = new PersistentVector(0, 5, new Object[32], NONE, null);
    final int cnt, shift; final Object[] root, tail; final Object meta;
    PersistentVector(int c, int s, Object[] r, Object[] t, Object m) { cnt = c; shift = s; root = r; tail = t; meta = m; }
    static PersistentVector of(Object... a) { return from(a, a.length); }
    static PersistentVector from(Object[] a, int n) {
        if (n <= 32) return n == 0 ? EMPTY : new PersistentVector(n, 5, EMPTY.root, Arrays.copyOf(a, n), null);
        PersistentVector v = EMPTY;
        for (int i = 0; i < n; i += 32) {
            int k = Math.min(32, n - i);
            Object[] t = Arrays.copyOfRange(a, i, i + k);
            if (v.tail.length == 32) v = v.pushed(t); else v = new PersistentVector(k, 5, v.root, t, null);
        }
        return v;
    }
    static PersistentVector create(Object coll) { Object[] a = RT.toArray(coll); return from(a, a.length); }
    int tailoff() { return cnt < 32 ? 0 : ((cnt - 1) >>> 5) << 5; }
    Object[] arrayFor(int i) {
        if (i >= tailoff()) return tail;
        Object[] n = root;
        for (int l = shift; l > 0; l -= 5) n = (Object[]) n[(i >>> l) & 31];
        return n;
    }
    public int size() { return cnt; }
    public Object get(int i) { if (i < 0 || i >= cnt) throw new IndexOutOfBoundsException(); return arrayFor(i)[i & 31]; }
    PersistentVector pushed(Object[] newTail) {
        Object[] nr; int ns = shift;
        if ((cnt >>> 5) > (1 << shift)) { nr = new Object[32]; nr[0] = root; nr[1] = path(shift, tail); ns += 5; }
        else nr = push(shift, root, tail);
        return new PersistentVector(cnt + newTail.length, ns, nr, newTail, meta);
    }
    Object[] path(int l, Object[] n) { if (l == 0) return n; Object[] r = new Object[32]; r[0] = path(l - 5, n); return r; }
    Object[] push(int l, Object[] p, Object[] t) {
        int i = ((cnt - 1) >>> l) & 31;
        Object[] r = p.clone();
        if (l == 5) r[i] = t; else { Object[] c = (Object[]) p[i]; r[i] = c != null ? push(l - 5, c, t) : path(l - 5, t); }
        return r;
    }
    public PersistentVector cons(Object o) {
        if (tail.length < 32) { Object[] t = Arrays.copyOf(tail, tail.length + 1); t[tail.length] = o; return new PersistentVector(cnt + 1, shift, root, t, meta); }
        return pushed(new Object[]{o});
    }
    Object[] doAssoc(int l, Object[] n, int i, Object v) {
        Object[] r = n.clone();
        if (l == 0) r[i & 31] = v; else { int j = (i >>> l) & 31; r[j] = doAssoc(l - 5, (Object[]) n[j], i, v); }
        return r;
    }
    public Associative assoc(Object k, Object v) {
        if (!RT.isInteger(k)) throw new IllegalArgumentException("Key must be integer");
        int i = ((Number) k).intValue();
        if (i == cnt) return cons(v);
        if (i < 0 || i > cnt) throw new IndexOutOfBoundsException();
        if (i >= tailoff()) { Object[] t = tail.clone(); t[i & 31] = v; return new PersistentVector(cnt, shift, root, t, meta); }
        return new PersistentVector(cnt, shift, doAssoc(shift, root, i, v), tail, meta);
    }
    public Object pop() {
        if (cnt == 0) throw new IllegalStateException("Can't pop empty vector");
        if (tail.length > 1) return new PersistentVector(cnt - 1, shift, root, Arrays.copyOf(tail, tail.length - 1), meta);
        Object[] a = toArray(); return from(a, cnt - 1).withMeta(meta);
    }
    public Object empty() { return meta == null ? EMPTY : EMPTY.withMeta(meta); }
    public Object meta() { return meta; }
    public PersistentVector withMeta(Object m) { return new PersistentVector(cnt, shift, root, tail, m); }
}
/** hash array mapped trie, iterated in Clojure's order */
final class PersistentHashMap extends APersistentMap {
    static final PersistentHashMap EMPTY = new PersistentHashMap(0, null, false, null, null);
    interface INode { INode assoc(int sh, int h, Object k, Object v, boolean[] added); INode without(int sh, int h, Object k); Object find(int sh, int h, Object k); void each(ArrayList out); }
    static int mask(int h, int sh) { return (h >>> sh) & 31; }
    static int bitpos(int h, int sh) { return 1 << mask(h, sh); }
    static INode createNode(int sh, Object k1, Object v1, int h2, Object k2, Object v2) {
        int h1 = RT.hasheq(k1);
        if (h1 == h2) return new Collision(h1, new Object[]{k1, v1, k2, v2});
        boolean[] b = {false};
        return Bitmap.EMPTY.assoc(sh, h1, k1, v1, b).assoc(sh, h2, k2, v2, b);
    }
    static Object[] set(Object[] a, int i, Object v) { Object[] r = a.clone(); r[i] = v; return r; }
    static Object[] removePair(Object[] a, int i) { Object[] r = new Object[a.length - 2]; System.arraycopy(a, 0, r, 0, 2 * i); System.arraycopy(a, 2 * (i + 1), r, 2 * i, r.length - 2 * i); return r; }
    static final Object SUB = new Object();     // marks a sub-node in the key's place
    static final class Bitmap implements INode {
        static final Bitmap EMPTY = new Bitmap(0, new Object[0]);
        final int bitmap; final Object[] a;
        Bitmap(int b, Object[] a) { bitmap = b; this.a = a; }
        int index(int bit) { return Integer.bitCount(bitmap & (bit - 1)); }
        public INode assoc(int sh, int h, Object k, Object v, boolean[] added) {
            int bit = bitpos(h, sh), i = index(bit);
            if ((bitmap & bit) != 0) {
                Object kk = a[2 * i], vv = a[2 * i + 1];
                if (kk == SUB) { INode n = ((INode) vv).assoc(sh + 5, h, k, v, added); return n == vv ? this : new Bitmap(bitmap, set(a, 2 * i + 1, n)); }
                if (RT.equiv(k, kk)) return v == vv ? this : new Bitmap(bitmap, set(a, 2 * i + 1, v));
                added[0] = true;
                Object[] r = a.clone(); r[2 * i] = SUB; r[2 * i + 1] = createNode(sh + 5, kk, vv, h, k, v);
                return new Bitmap(bitmap, r);
            }
            int n = Integer.bitCount(bitmap);
            if (n >= 16) {
                INode[] nodes = new INode[32];
                nodes[mask(h, sh)] = EMPTY.assoc(sh + 5, h, k, v, added);
                int j = 0;
                for (int x = 0; x < 32; x++) if (((bitmap >>> x) & 1) != 0) {
                    nodes[x] = a[j] == SUB ? (INode) a[j + 1] : EMPTY.assoc(sh + 5, RT.hasheq(a[j]), a[j], a[j + 1], added);
                    j += 2;
                }
                return new Arr(n + 1, nodes);
            }
            Object[] r = new Object[2 * (n + 1)];
            System.arraycopy(a, 0, r, 0, 2 * i); r[2 * i] = k; r[2 * i + 1] = v; added[0] = true;
            System.arraycopy(a, 2 * i, r, 2 * (i + 1), 2 * (n - i));
            return new Bitmap(bitmap | bit, r);
        }
        public INode without(int sh, int h, Object k) {
            int bit = bitpos(h, sh);
            if ((bitmap & bit) == 0) return this;
            int i = index(bit);
            if (a[2 * i] == SUB) {
                INode n = ((INode) a[2 * i + 1]).without(sh + 5, h, k);
                if (n == a[2 * i + 1]) return this;
                if (n != null) return new Bitmap(bitmap, set(a, 2 * i + 1, n));
                return bitmap == bit ? null : new Bitmap(bitmap ^ bit, removePair(a, i));
            }
            if (RT.equiv(k, a[2 * i])) return bitmap == bit ? null : new Bitmap(bitmap ^ bit, removePair(a, i));
            return this;
        }
        public Object find(int sh, int h, Object k) {
            int bit = bitpos(h, sh);
            if ((bitmap & bit) == 0) return null;
            int i = index(bit);
            if (a[2 * i] == SUB) return ((INode) a[2 * i + 1]).find(sh + 5, h, k);
            return RT.equiv(k, a[2 * i]) ? new MapEntry(a[2 * i], a[2 * i + 1]) : null;
        }
        public void each(ArrayList out) { for (int i = 0; i < a.length; i += 2) if (a[i] == SUB) ((INode) a[i + 1]).each(out); else out.add(new MapEntry(a[i], a[i + 1])); }
    }
    static final class Arr implements INode {
        final int count; final INode[] a;
        Arr(int c, INode[] a) { count = c; this.a = a; }
        public INode assoc(int sh, int h, Object k, Object v, boolean[] added) {
            int i = mask(h, sh);
            INode[] r = a.clone();
            if (a[i] == null) { r[i] = Bitmap.EMPTY.assoc(sh + 5, h, k, v, added); return new Arr(count + 1, r); }
            r[i] = a[i].assoc(sh + 5, h, k, v, added);
            return r[i] == a[i] ? this : new Arr(count, r);
        }
        public INode without(int sh, int h, Object k) {
            int i = mask(h, sh);
            if (a[i] == null) return this;
            INode n = a[i].without(sh + 5, h, k);
            if (n == a[i]) return this;
            if (n == null && count <= 8) {      // shrink
                int bm = 0, j = 0; Object[] r = new Object[2 * (count - 1)];
                for (int x = 0; x < 32; x++) if (x != i && a[x] != null) { r[j] = SUB; r[j + 1] = a[x]; bm |= 1 << x; j += 2; }
                return new Bitmap(bm, r);
            }
            INode[] r = a.clone(); r[i] = n;
            return new Arr(n == null ? count - 1 : count, r);
        }
        public Object find(int sh, int h, Object k) { INode n = a[mask(h, sh)]; return n == null ? null : n.find(sh + 5, h, k); }
        public void each(ArrayList out) { for (INode n : a) if (n != null) n.each(out); }
    }
    static final class Collision implements INode {
        final int hash; final Object[] a;
        Collision(int h, Object[] a) { hash = h; this.a = a; }
        int index(Object k) { for (int i = 0; i < a.length; i += 2) if (RT.equiv(k, a[i])) return i; return -1; }
        public INode assoc(int sh, int h, Object k, Object v, boolean[] added) {
            if (h == hash) {
                int i = index(k);
                if (i >= 0) return a[i + 1] == v ? this : new Collision(h, set(a, i + 1, v));
                Object[] r = Arrays.copyOf(a, a.length + 2); r[a.length] = k; r[a.length + 1] = v; added[0] = true;
                return new Collision(h, r);
            }
            return new Bitmap(bitpos(hash, sh), new Object[]{SUB, this}).assoc(sh, h, k, v, added);
        }
        public INode without(int sh, int h, Object k) { int i = index(k); if (i < 0) return this; return a.length == 2 ? null : new Collision(hash, removePair(a, i / 2)); }
        public Object find(int sh, int h, Object k) { int i = index(k); return i < 0 ? null : new MapEntry(a[i], a[i + 1]); }
        public void each(ArrayList out) { for (int i = 0; i < a.length; i += 2) out.add(new MapEntry(a[i], a[i + 1])); }
    }
    final int cnt; final INode root; final boolean hasNull; final Object nullVal;
    PersistentHashMap(int c, INode r, boolean hn, Object nv, Object m) { super(m); cnt = c; root = r; hasNull = hn; nullVal = nv; }
    public int size() { return cnt; }
    MapEntry find(Object k) {
        if (k == null) return hasNull ? new MapEntry(null, nullVal) : null;
        return root == null ? null : (MapEntry) root.find(0, RT.hasheq(k), k);
    }
    public PersistentHashMap assoc(Object k, Object v) {
        if (k == null) return hasNull && v == nullVal ? this : new PersistentHashMap(hasNull ? cnt : cnt + 1, root, true, v, meta);
        boolean[] added = {false};
        INode n = (root == null ? Bitmap.EMPTY : root).assoc(0, RT.hasheq(k), k, v, added);
        return n == root ? this : new PersistentHashMap(added[0] && find(k) == null ? cnt + 1 : cnt, n, hasNull, nullVal, meta);
    }
    public IPersistentMap without(Object k) {
        if (k == null) return hasNull ? new PersistentHashMap(cnt - 1, root, false, null, meta) : this;
        if (root == null) return this;
        INode n = root.without(0, RT.hasheq(k), k);
        return n == root ? this : new PersistentHashMap(cnt - 1, n, hasNull, nullVal, meta);
    }
    ArrayList entries() { ArrayList l = new ArrayList(cnt); if (hasNull) l.add(new MapEntry(null, nullVal)); if (root != null) root.each(l); return l; }
    public Object empty() { return EMPTY.withMeta(meta); }
    public PersistentHashMap withMeta(Object m) { return new PersistentHashMap(cnt, root, hasNull, nullVal, m); }
}
abstract class APersistentMap extends AbstractMap implements IPersistentMap, IObj, IFn, Iterable {
    final Object meta;
    APersistentMap(Object m) { meta = m; }
    public Object meta() { return meta; }
    abstract MapEntry find(Object k);
    abstract ArrayList entries();
    public int count() { return size(); }
    public boolean containsKey(Object k) { return find(k) != null; }
    public Object entryAt(Object k) { return find(k); }
    public Object valAt(Object k, Object nf) { MapEntry e = find(k); return e == null ? nf : e.v; }
    public Object get(Object k) { return valAt(k, null); }
    public ISeq seq() { return size() == 0 ? null : new IndexedSeq(entries(), 0); }
    public Iterator iterator() { return entries().iterator(); }
    public Set entrySet() { return new AbstractSet() { public Iterator iterator() { return entries().iterator(); } public int size() { return APersistentMap.this.size(); } }; }
    public Object cons(Object o) {
        if (o instanceof Map.Entry) return assoc(((Map.Entry) o).getKey(), ((Map.Entry) o).getValue());
        if (o instanceof IPersistentVector) {
            if (((IPersistentVector) o).count() != 2) throw new IllegalArgumentException("Vector arg to map conj must be a pair");
            return assoc(RT.nth(o, 0), RT.nth(o, 1));
        }
        IPersistentMap m = this;
        for (ISeq s = RT.seq(o); s != null; s = s.next()) { Map.Entry e = (Map.Entry) s.first(); m = m.assoc(e.getKey(), e.getValue()); }
        return m;
    }
    public Object invoke(Object... a) { if (a.length < 1 || a.length > 2) throw new ArityException(a.length, "clojure.lang.PersistentMap"); return valAt(a[0], a.length > 1 ? a[1] : null); }
    public boolean equals(Object o) { return RT.equiv(this, o); }
    public String toString() { return RT.prStr(this); }
    public void run() { throw new UnsupportedOperationException(); }
}
final class PersistentArrayMap extends APersistentMap {
    static final PersistentArrayMap EMPTY = new PersistentArrayMap(new Object[0], null);
    final Object[] a;
    PersistentArrayMap(Object[] a, Object m) { super(m); this.a = a; }
    int index(Object k) { for (int i = 0; i < a.length; i += 2) if (a[i] == k || RT.equiv(a[i], k)) return i; return -1; }
    MapEntry find(Object k) { int i = index(k); return i < 0 ? null : new MapEntry(a[i], a[i + 1]); }
    public Object valAt(Object k, Object nf) { int i = index(k); return i < 0 ? nf : a[i + 1]; }
    public boolean containsKey(Object k) { return index(k) >= 0; }
    public int size() { return a.length / 2; }
    ArrayList entries() { ArrayList l = new ArrayList(); for (int i = 0; i < a.length; i += 2) l.add(new MapEntry(a[i], a[i + 1])); return l; }
    PersistentHashMap hash() { PersistentHashMap m = PersistentHashMap.EMPTY.withMeta(meta); for (int i = 0; i < a.length; i += 2) m = m.assoc(a[i], a[i + 1]); return m; }
    public IPersistentMap assoc(Object k, Object v) {
        int i = index(k);
        if (i >= 0) return a[i + 1] == v ? this : new PersistentArrayMap(PersistentHashMap.set(a, i + 1, v), meta);
        if (a.length >= 16) return hash().assoc(k, v);
        Object[] r = Arrays.copyOf(a, a.length + 2); r[a.length] = k; r[a.length + 1] = v;
        return new PersistentArrayMap(r, meta);
    }
    public IPersistentMap without(Object k) { int i = index(k); return i < 0 ? this : new PersistentArrayMap(PersistentHashMap.removePair(a, i / 2), meta); }
    public Object empty() { return EMPTY.withMeta(meta); }
    public PersistentArrayMap withMeta(Object m) { return new PersistentArrayMap(a, m); }
    /** a map as written: an array map up to eight entries */
    static IPersistentMap of(Object... kv) {
        if (kv.length % 2 != 0) throw new IllegalArgumentException("No value supplied for key: " + kv[kv.length - 1]);
        IPersistentMap m = kv.length <= 16 ? EMPTY : PersistentHashMap.EMPTY;
        for (int i = 0; i < kv.length; i += 2) m = m.assoc(kv[i], kv[i + 1]);
        return m;
    }
}
abstract class APersistentSet extends AbstractSet implements IPersistentSet, IObj, IFn {
    public int count() { return size(); }
    public ISeq seq() { return size() == 0 ? null : IterSeq.of(iterator()); }
    public Object invoke(Object... a) { if (a.length != 1) throw new ArityException(a.length, "clojure.lang.PersistentHashSet"); return get(a[0], null); }
    public boolean equals(Object o) { return RT.equiv(this, o); }
    public String toString() { return RT.prStr(this); }
    public void run() { throw new UnsupportedOperationException(); }
}
final class PersistentHashSet extends APersistentSet {
    static final PersistentHashSet EMPTY = new PersistentHashSet(PersistentHashMap.EMPTY, null);
    final IPersistentMap m; final Object meta;
    PersistentHashSet(IPersistentMap m, Object meta) { this.m = m; this.meta = meta; }
    public int size() { return m.count(); }
    public boolean contains(Object k) { return m.containsKey(k); }
    public Object get(Object k, Object nf) { MapEntry e = (MapEntry) m.entryAt(k); return e == null ? nf : e.k; }
    public Iterator iterator() { Iterator i = m.iterator(); return new Iterator() { public boolean hasNext() { return i.hasNext(); } public Object next() { return ((MapEntry) i.next()).k; } }; }
    public Object cons(Object o) { return m.containsKey(o) ? this : new PersistentHashSet(m.assoc(o, o), meta); }
    public IPersistentSet disjoin(Object o) { return m.containsKey(o) ? new PersistentHashSet(m.without(o), meta) : this; }
    public Object empty() { return new PersistentHashSet(PersistentHashMap.EMPTY, meta); }
    public Object meta() { return meta; }
    public Object withMeta(Object x) { return new PersistentHashSet(m, x); }
}
/** sorted maps and sets over a balanced tree copied on write (they are small) */
final class PersistentTreeMap extends APersistentMap implements Reversible {
    final TreeMap t; final Comparator c;
    PersistentTreeMap(TreeMap t, Comparator c, Object m) { super(m); this.t = t; this.c = c; }
    static PersistentTreeMap empty(Comparator c) { return new PersistentTreeMap(new TreeMap(c), c, null); }
    MapEntry find(Object k) { return t.containsKey(k) ? new MapEntry(((Map.Entry) t.floorEntry(k)).getKey(), t.get(k)) : null; }
    public int size() { return t.size(); }
    ArrayList entries() { ArrayList l = new ArrayList(); for (Object e : t.entrySet()) l.add(new MapEntry(((Map.Entry) e).getKey(), ((Map.Entry) e).getValue())); return l; }
    public IPersistentMap assoc(Object k, Object v) { TreeMap n = new TreeMap(t); n.put(k, v); return new PersistentTreeMap(n, c, meta); }
    public IPersistentMap without(Object k) { TreeMap n = new TreeMap(t); n.remove(k); return new PersistentTreeMap(n, c, meta); }
    public Object empty() { return new PersistentTreeMap(new TreeMap(c), c, meta); }
    public Object withMeta(Object m) { return new PersistentTreeMap(t, c, m); }
    public ISeq rseq() { ArrayList l = entries(); Collections.reverse(l); return l.isEmpty() ? null : new IndexedSeq(l, 0); }
}
final class PersistentTreeSet extends APersistentSet implements Reversible {
    final TreeSet t; final Comparator c; final Object meta;
    PersistentTreeSet(TreeSet t, Comparator c, Object m) { this.t = t; this.c = c; meta = m; }
    static PersistentTreeSet empty(Comparator c) { return new PersistentTreeSet(new TreeSet(c), c, null); }
    public int size() { return t.size(); }
    public boolean contains(Object k) { return t.contains(k); }
    public Object get(Object k, Object nf) { return t.contains(k) ? t.floor(k) : nf; }
    public Iterator iterator() { return t.iterator(); }
    public Object cons(Object o) { if (t.contains(o)) return this; TreeSet n = new TreeSet(t); n.add(o); return new PersistentTreeSet(n, c, meta); }
    public IPersistentSet disjoin(Object o) { TreeSet n = new TreeSet(t); n.remove(o); return new PersistentTreeSet(n, c, meta); }
    public Object empty() { return new PersistentTreeSet(new TreeSet(c), c, meta); }
    public Object meta() { return meta; }
    public Object withMeta(Object m) { return new PersistentTreeSet(t, c, m); }
    public ISeq rseq() { return t.isEmpty() ? null : IterSeq.of(t.descendingIterator()); }
}
/** transients keep Clojure's habits: the vector and hash map ones change in place, the array map one becomes another when it grows */
abstract class ATransient extends AFn implements Counted {
    boolean done;
    void check() { if (done) throw new IllegalAccessError("Transient used after persistent! call"); }
    abstract Object persistent();
    abstract Object conj(Object o);
}
final class TransientVector extends ATransient implements ILookup, Indexed {
    final ArrayList l;
    TransientVector(Collection c) { l = new ArrayList(c); }
    public int count() { check(); return l.size(); }
    Object persistent() { check(); done = true; Object[] a = l.toArray(); return PersistentVector.from(a, a.length); }
    Object conj(Object o) { check(); l.add(o); return this; }
    Object assoc(Object k, Object v) { check(); int i = ((Number) k).intValue(); if (i == l.size()) l.add(v); else if (i < 0 || i > l.size()) throw new IndexOutOfBoundsException(); else l.set(i, v); return this; }
    Object pop() { check(); if (l.isEmpty()) throw new IllegalStateException("Can't pop empty vector"); l.remove(l.size() - 1); return this; }
    public Object nth(int i, Object nf) { check(); return i >= 0 && i < l.size() ? l.get(i) : nf; }
    public Object valAt(Object k, Object nf) { return RT.isInteger(k) ? nth(((Number) k).intValue(), nf) : nf; }
    public Object invoke(Object... a) { int i = ((Number) a[0]).intValue(); if (i < 0 || i >= l.size()) throw new IndexOutOfBoundsException(); return l.get(i); }
}
final class TransientMap extends ATransient implements ILookup {
    IPersistentMap m; final boolean small;
    TransientMap(IPersistentMap m) { this.m = m; small = m instanceof PersistentArrayMap; }
    public int count() { check(); return m.count(); }
    Object persistent() { check(); done = true; return m; }
    Object assoc(Object k, Object v) {
        check();
        IPersistentMap n = m.assoc(k, v);
        if (small && n instanceof PersistentHashMap) return new TransientMap(n);
        m = n; return this;
    }
    /** removal moves the last entry of an array map into the gap */
    Object without(Object k) {
        check();
        if (small) {
            PersistentArrayMap p = (PersistentArrayMap) m;
            int i = p.index(k);
            if (i >= 0) { Object[] r = p.a.clone(); r[i] = r[r.length - 2]; r[i + 1] = r[r.length - 1]; m = new PersistentArrayMap(Arrays.copyOf(r, r.length - 2), p.meta); }
        } else m = m.without(k);
        return this;
    }
    Object conj(Object o) {
        check();
        if (o instanceof Map.Entry) return assoc(((Map.Entry) o).getKey(), ((Map.Entry) o).getValue());
        if (o instanceof IPersistentVector) { if (RT.count(o) != 2) throw new IllegalArgumentException("Vector arg to map conj must be a pair"); return assoc(RT.nth(o, 0), RT.nth(o, 1)); }
        TransientMap t = this;
        for (ISeq s = RT.seq(o); s != null; s = s.next()) { Map.Entry e = (Map.Entry) s.first(); t = (TransientMap) t.assoc(e.getKey(), e.getValue()); }
        return t;
    }
    public Object valAt(Object k, Object nf) { check(); return m.valAt(k, nf); }
    public Object invoke(Object... a) { return valAt(a[0], a.length > 1 ? a[1] : null); }
}
final class TransientSet extends ATransient implements ILookup {
    PersistentHashSet s;
    TransientSet(PersistentHashSet s) { this.s = s; }
    public int count() { check(); return s.size(); }
    Object persistent() { check(); done = true; return s; }
    Object conj(Object o) { check(); s = (PersistentHashSet) s.cons(o); return this; }
    Object disj(Object o) { check(); s = (PersistentHashSet) s.disjoin(o); return this; }
    public Object valAt(Object k, Object nf) { check(); return s.get(k, nf); }
    public Object invoke(Object... a) { return valAt(a[0], null); }
}
