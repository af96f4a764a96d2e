package clojure.lang;
import java.math.*;
import java.util.*;
import static clojure.lang.Lib.*;

/** clojure.core: numbers, predicates, sequences, collections */
final class LibCore {
    static void init() {
        arith("+", 0L, false, Num::add); arith("+'", 0L, false, promoting(Num::add)); arith("*", 1L, false, Num::mul); arith("*'", 1L, false, promoting(Num::mul)); arith("-", null, true, Num::sub); arith("-'", null, true, promoting(Num::sub)); arith("/", null, true, Num::div);
        f("unchecked-add unchecked-add-int", 2, 2, a -> lng(a[0]) + lng(a[1])); f("unchecked-multiply", 2, 2, a -> lng(a[0]) * lng(a[1])); f("unchecked-subtract", 2, 2, a -> lng(a[0]) - lng(a[1])); f("unchecked-inc", 1, 1, a -> lng(a[0]) + 1);
        f("inc", 1, 1, a -> Num.add(a[0], 1L)); f("dec", 1, 1, a -> Num.sub(a[0], 1L)); f("inc'", 1, 1, a -> promoting(Num::add).op(a[0], 1L)); f("dec'", 1, 1, a -> promoting(Num::sub).op(a[0], 1L));
        f("quot", 2, 2, a -> Num.quot(a[0], a[1])); f("rem", 2, 2, a -> Num.rem(a[0], a[1])); f("mod", 2, 2, a -> Num.mod(a[0], a[1]));
        f("max", 1, -1, a -> { Object r = num1(a[0]); for (Object x : a) if (Num.lt(r, x)) r = x; return r; }); f("min", 1, -1, a -> { Object r = num1(a[0]); for (Object x : a) if (Num.lt(x, r)) r = x; return r; });
        f("abs", 1, 1, a -> Num.signum(a[0]) < 0 ? Num.neg(a[0]) : a[0]);
        rel("<", Num::lt); rel("<=", Num::le); rel(">", (x, y) -> Num.lt(y, x)); rel(">=", (x, y) -> Num.le(y, x)); rel("==", Num::numEq); rel("=", RT::equiv);
        f("not=", 1, -1, a -> { for (int k = 0; k + 1 < a.length; k++) if (!RT.equiv(a[k], a[k + 1])) return true; return false; });
        p("zero?", o -> Num.signum(num1(o)) == 0); p("pos?", o -> Num.signum(num1(o)) > 0); p("neg?", o -> Num.signum(num1(o)) < 0);
        p("even?", o -> { if (!RT.isInteger(o)) throw new IllegalArgumentException("Argument must be an integer: " + o); return !Num.big(o).testBit(0); }); p("odd?", o -> { if (!RT.isInteger(o)) throw new IllegalArgumentException("Argument must be an integer: " + o); return Num.big(o).testBit(0); });
        p("number?", o -> o instanceof Number); p("integer?", RT::isInteger); p("int?", o -> o instanceof Long || o instanceof Integer || o instanceof Short || o instanceof Byte);
        p("decimal?", o -> o instanceof BigDecimal); p("ratio?", o -> o instanceof Ratio); p("rational?", o -> RT.isInteger(o) || o instanceof Ratio || o instanceof BigDecimal); p("float? double?", o -> o instanceof Double || o instanceof Float);
        p("pos-int?", o -> (o instanceof Long || o instanceof Integer) && lng(o) > 0); p("nat-int?", o -> (o instanceof Long || o instanceof Integer) && lng(o) >= 0); p("neg-int?", o -> (o instanceof Long || o instanceof Integer) && lng(o) < 0);
        f("long unchecked-long", 1, 1, a -> a[0] instanceof Character ? (long) (Character) a[0] : a[0] instanceof BigInt || a[0] instanceof BigInteger ? Num.big(a[0]).longValueExact() : lng(a[0])); f("int unchecked-int", 1, 1, a -> { long v = a[0] instanceof Character ? (long) (Character) a[0] : lng(a[0]); if (v != (int) v) throw new IllegalArgumentException("Value out of range for int: " + v); return (int) v; });
        f("short", 1, 1, a -> (short) lng(a[0])); f("byte", 1, 1, a -> (byte) lng(a[0])); f("double", 1, 1, a -> RT.cast(Number.class, a[0]).doubleValue()); f("float", 1, 1, a -> RT.cast(Number.class, a[0]).floatValue()); f("num", 1, 1, a -> num1(a[0]));
        f("char", 1, 1, a -> a[0] instanceof Character ? a[0] : (Object) (char) lng(a[0])); f("boolean", 1, 1, a -> t(a[0]));
        f("bigdec", 1, 1, a -> a[0] instanceof String ? new BigDecimal((String) a[0]) : a[0] instanceof Double ? new BigDecimal(a[0].toString()) : Num.dec(num1(a[0])));
        f("bigint", 1, 1, a -> a[0] instanceof String ? new BigInt(new BigInteger((String) a[0])) : new BigInt(toBigInteger(a[0]))); f("biginteger", 1, 1, a -> toBigInteger(a[0]));
        f("numerator", 1, 1, a -> ((Ratio) a[0]).numerator); f("denominator", 1, 1, a -> ((Ratio) a[0]).denominator); f("rationalize", 1, 1, a -> { if (a[0] instanceof BigDecimal || a[0] instanceof Double) { BigDecimal d = a[0] instanceof Double ? new BigDecimal(a[0].toString()) : (BigDecimal) a[0]; return d.scale() <= 0 ? new BigInt(d.toBigInteger()) : Ratio.of(d.unscaledValue(), BigInteger.TEN.pow(d.scale())); } return a[0]; });
        f("bit-and", 2, 2, a -> lng(a[0]) & lng(a[1])); f("bit-or", 2, 2, a -> lng(a[0]) | lng(a[1])); f("bit-xor", 2, 2, a -> lng(a[0]) ^ lng(a[1])); f("bit-not", 1, 1, a -> ~lng(a[0])); f("bit-shift-left", 2, 2, a -> lng(a[0]) << i(a[1])); f("bit-shift-right", 2, 2, a -> lng(a[0]) >> i(a[1])); f("bit-test", 2, 2, a -> (lng(a[0]) >> i(a[1]) & 1) == 1);
        f("rand", 0, 1, a -> Math.random() * (a.length > 0 ? RT.cast(Number.class, a[0]).doubleValue() : 1)); f("rand-int", 1, 1, a -> (long) (Math.random() * lng(a[0]))); f("rand-nth", 1, 1, a -> RT.nth(a[0], (int) (Math.random() * RT.count(a[0])))); f("shuffle", 1, 1, a -> { ArrayList l = new ArrayList(Arrays.asList(RT.toArray(a[0]))); Collections.shuffle(l); return PersistentVector.create(l); });
        f("parse-long", 1, 1, a -> { try { return Long.parseLong((String) a[0]); } catch (NumberFormatException e) { return null; } }); f("parse-double", 1, 1, a -> { try { return Double.parseDouble((String) a[0]); } catch (NumberFormatException e) { return null; } }); f("parse-boolean", 1, 1, a -> "true".equals(a[0]) ? (Object) true : "false".equals(a[0]) ? (Object) false : null);

        p("nil?", o -> o == null); p("some?", o -> o != null); p("true?", o -> Boolean.TRUE.equals(o)); p("false?", o -> Boolean.FALSE.equals(o)); p("boolean?", o -> o instanceof Boolean); f("any?", 1, 1, a -> true); p("not", o -> !t(o));
        p("string?", o -> o instanceof String); p("char?", o -> o instanceof Character); p("keyword?", o -> o instanceof Keyword); p("symbol?", o -> o instanceof Symbol); p("ident?", o -> o instanceof Symbol || o instanceof Keyword);
        p("simple-keyword?", o -> o instanceof Keyword && ((Keyword) o).sym.ns == null); p("qualified-keyword?", o -> o instanceof Keyword && ((Keyword) o).sym.ns != null); p("simple-symbol?", o -> o instanceof Symbol && ((Symbol) o).ns == null); p("qualified-symbol?", o -> o instanceof Symbol && ((Symbol) o).ns != null);
        p("qualified-ident?", o -> o instanceof Named && ((Named) o).getNamespace() != null); p("simple-ident?", o -> o instanceof Named && ((Named) o).getNamespace() == null);
        p("map?", o -> o instanceof IPersistentMap); p("vector?", o -> o instanceof IPersistentVector); p("set?", o -> o instanceof IPersistentSet); p("list?", o -> o instanceof IPersistentList); p("seq?", o -> o instanceof ISeq); p("coll?", o -> o instanceof IPersistentCollection); p("sequential?", o -> o instanceof Sequential);
        p("associative?", o -> o instanceof Associative); p("counted?", o -> o instanceof Counted); p("indexed?", o -> o instanceof Indexed); p("reversible?", o -> o instanceof Reversible); p("sorted?", o -> o instanceof PersistentTreeMap || o instanceof PersistentTreeSet); p("fn?", o -> o instanceof Fn); p("ifn?", o -> o instanceof IFn); p("var?", o -> o instanceof Var); p("record?", o -> o instanceof IRecord); p("map-entry?", o -> o instanceof Map.Entry);
        p("seqable?", o -> o == null || o instanceof Seqable || o instanceof Iterable || o instanceof CharSequence || o instanceof Map || o.getClass().isArray()); p("empty?", o -> o instanceof Counted ? ((Counted) o).count() == 0 : RT.seq(o) == null); p("inst?", o -> o instanceof Date || o instanceof java.time.Instant); p("uuid?", o -> o instanceof UUID); p("uri?", o -> o instanceof java.net.URI); p("bytes?", o -> o instanceof byte[]); p("class?", o -> o instanceof Class); p("delay?", o -> o instanceof Delay); p("reduced?", o -> o instanceof Reduced); p("volatile?", o -> o instanceof Volatile);
        f("identical?", 2, 2, a -> a[0] == a[1] || a[0] instanceof Boolean && a[0].equals(a[1])); f("instance?", 2, 2, a -> RT.cast(Class.class, a[0]).isInstance(a[1])); f("class type*", 1, 1, a -> a[0] == null ? null : a[0].getClass()); f("type", 1, 1, a -> { Object m = RT.get(RT.meta(a[0]), RT.kw("type")); return m != null ? m : a[0] == null ? null : a[0].getClass(); }); f("cast", 2, 2, a -> a[1] == null ? null : RT.cast((Class) a[0], a[1]));
        f("hash", 1, 1, a -> (long) RT.hasheq(a[0])); f("compare", 2, 2, a -> (long) RT.compare(a[0], a[1])); f("comparator", 1, 1, a -> af(b -> t(fn(a[0]).invoke(b[0], b[1])) ? -1L : t(fn(a[0]).invoke(b[1], b[0])) ? 1L : 0L)); f("identity", 1, 1, a -> a[0]);
        f("constantly", 1, 1, a -> af(b -> a[0])); f("complement", 1, 1, a -> { IFn g = fn(a[0]); return af(b -> !t(g.invoke(b))); }); f("comp", 0, -1, Lib::comp);
        f("partial", 1, -1, a -> { if (a.length == 1) return a[0]; Object[] pre = tail(a, 1); return af(b -> { Object[] c = Arrays.copyOf(pre, pre.length + b.length); System.arraycopy(b, 0, c, pre.length, b.length); return fn(a[0]).invoke(c); }); });
        f("juxt", 1, -1, a -> af(b -> { Object[] r = new Object[a.length]; for (int k = 0; k < r.length; k++) r[k] = fn(a[k]).invoke(b); return PersistentVector.of(r); }));
        f("fnil", 2, 4, a -> af(b -> { Object[] c = b.clone(); for (int k = 0; k < a.length - 1 && k < c.length; k++) if (c[k] == null) c[k] = a[k + 1]; return fn(a[0]).invoke(c); }));
        f("every-pred", 1, -1, a -> af(b -> { for (Object q : a) for (Object x : b) if (!t(fn(q).invoke(x))) return false; return true; })); f("some-fn", 1, -1, a -> af(b -> { Object r = null; for (Object x : b) for (Object q : a) { r = fn(q).invoke(x); if (t(r)) return r; } return r; }));
        f("memoize", 1, 1, a -> { HashMap<Key, Object[]> m = new HashMap<>(); return af(b -> { Key k = new Key(PersistentVector.of(b)); Object[] r = m.get(k); if (r == null) m.put(k, r = new Object[]{fn(a[0]).invoke(b)}); return r[0]; }); });
        f("trampoline", 1, -1, a -> { Object r = fn(a[0]).invoke(tail(a, 1)); while (r instanceof Fn) r = fn(r).invoke(); return r; });
        f("apply", 2, -1, a -> {
            IFn g = fn(a[0]);
            if (a.length == 2) return g.applyTo(a[1]);
            Object s = RT.seq(a[a.length - 1]);
            for (int k = a.length - 2; k >= 1; k--) s = new Cons(a[k], s);
            return g.applyTo(s);
        });
        // sequences
        f("seq", 1, 1, a -> RT.seq(a[0])); f("first", 1, 1, a -> RT.first(a[0])); f("next", 1, 1, a -> RT.next(a[0])); f("rest", 1, 1, a -> RT.rest(a[0])); f("second fnext", 1, 1, a -> RT.second(a[0])); f("ffirst", 1, 1, a -> RT.first(RT.first(a[0]))); f("nfirst", 1, 1, a -> RT.next(RT.first(a[0]))); f("nnext", 1, 1, a -> RT.next(RT.next(a[0])));
        f("last", 1, 1, a -> { Object r = null; for (ISeq s = RT.seq(a[0]); s != null; s = s.next()) r = s.first(); return r; }); f("butlast", 1, 1, a -> { Object[] x = RT.toArray(a[0]); return x.length <= 1 ? null : ArraySeq.of(Arrays.copyOf(x, x.length - 1), 0); });
        f("nth", 2, 3, a -> a.length == 2 ? RT.nth(a[0], i(a[1])) : RT.nth(a[0], i(a[1]), a[2])); f("nthnext", 2, 2, a -> RT.nthnext(a[0], lng(a[1]))); f("nthrest", 2, 2, a -> lng(a[1]) <= 0 ? a[0] : RT.orEmpty(RT.nthnext(a[0], lng(a[1]))));
        f("cons", 2, 2, a -> RT.cons(a[0], a[1])); f("conj", 0, -1, a -> CONJ.invoke(a)); f("count", 1, 1, a -> (long) RT.count(a[0])); f("bounded-count", 2, 2, a -> { long n = 0; for (ISeq s = RT.seq(a[1]); s != null && n < lng(a[0]); s = s.next()) n++; return n; });
        f("empty", 1, 1, a -> a[0] instanceof IPersistentCollection ? ((IPersistentCollection) a[0]).empty() : null); f("not-empty", 1, 1, a -> RT.seq(a[0]) == null ? null : a[0]);
        f("into", 0, 3, a -> a.length == 0 ? PersistentVector.EMPTY : a.length == 1 ? a[0] : a.length == 2 ? into(a[0], null, a[1]) : into(a[0], fn(a[1]), a[2]));
        f("get", 2, 3, a -> RT.get(a[0], a[1], a.length > 2 ? a[2] : null)); f("get-in", 2, 3, a -> getIn(a[0], a[1], a.length > 2 ? a[2] : null)); f("contains?", 2, 2, a -> RT.contains(a[0], a[1])); f("find", 2, 2, a -> RT.find(a[0], a[1]));
        f("assoc", 1, -1, a -> { if (a.length % 2 == 0) { if (a.length == 2) throw new ArityException(2, "clojure.core/assoc"); throw new IllegalArgumentException("assoc expects even number of arguments after map/vector, found odd number"); } Object m = a[0]; for (int k = 1; k < a.length; k += 2) m = RT.assoc(m, a[k], a[k + 1]); return m; });
        f("dissoc", 1, -1, a -> { Object m = a[0]; for (int k = 1; k < a.length; k++) m = RT.dissoc(m, a[k]); return m; });
        f("assoc-in", 3, 3, a -> assocIn(a[0], RT.orNil(a[1]), a[2])); f("update", 3, -1, a -> RT.assoc(a[0], a[1], fn(a[2]).invoke(prepend(RT.get(a[0], a[1]), tail(a, 3))))); f("update-in", 3, -1, a -> updateIn(a[0], RT.orNil(a[1]), fn(a[2]), tail(a, 3)));
        f("update-vals", 2, 2, a -> { Object m = a[0] == null ? PersistentArrayMap.EMPTY : withMeta(((IPersistentMap) a[0]).empty(), RT.meta(a[0])); for (Object e : RT.entries((Map) (a[0] == null ? PersistentArrayMap.EMPTY : a[0]))) m = RT.assoc(m, ((Map.Entry) e).getKey(), fn(a[1]).invoke(((Map.Entry) e).getValue())); return m; });
        f("update-keys", 2, 2, a -> { Object m = PersistentArrayMap.EMPTY; for (Object e : RT.entries((Map) (a[0] == null ? PersistentArrayMap.EMPTY : a[0]))) m = RT.assoc(m, fn(a[1]).invoke(((Map.Entry) e).getKey()), ((Map.Entry) e).getValue()); return m; });
        f("select-keys", 2, 2, a -> { Object r = PersistentArrayMap.EMPTY; for (ISeq s = RT.seq(a[1]); s != null; s = s.next()) { Object e = RT.find(a[0], s.first()); if (e != null) r = RT.conj(r, e); } return withMeta(r, RT.meta(a[0])); });
        f("merge", 0, -1, a -> { Object r = null; boolean any = false; for (Object m : a) any |= t(m); if (!any) return null; boolean first = true; for (Object m : a) { if (first) { r = m; first = false; } else r = RT.conj(r == null ? PersistentArrayMap.EMPTY : r, m); } return r; });
        f("merge-with", 1, -1, a -> { Object r = null; boolean any = false; for (int k = 1; k < a.length; k++) any |= t(a[k]); if (!any) return null; for (int k = 1; k < a.length; k++) { if (r == null) { r = a[k] == null ? PersistentArrayMap.EMPTY : a[k]; continue; } for (ISeq s = RT.seq(a[k]); s != null; s = s.next()) { Map.Entry e = (Map.Entry) s.first(); r = RT.assoc(r, e.getKey(), RT.contains(r, e.getKey()) ? fn(a[0]).invoke(RT.get(r, e.getKey()), e.getValue()) : e.getValue()); } } return r; });
        f("keys", 1, 1, a -> { ISeq s = RT.seq(a[0]); if (s == null) return null; ArrayList l = new ArrayList(); for (; s != null; s = s.next()) l.add(RT.cast(Map.Entry.class, s.first()).getKey()); return ArraySeq.of(l.toArray(), 0); }); f("vals", 1, 1, a -> { ISeq s = RT.seq(a[0]); if (s == null) return null; ArrayList l = new ArrayList(); for (; s != null; s = s.next()) l.add(RT.cast(Map.Entry.class, s.first()).getValue()); return ArraySeq.of(l.toArray(), 0); });
        f("key", 1, 1, a -> RT.cast(Map.Entry.class, a[0]).getKey()); f("val", 1, 1, a -> RT.cast(Map.Entry.class, a[0]).getValue());
        f("zipmap", 2, 2, a -> { ATransient m = new TransientMap(PersistentArrayMap.EMPTY); ISeq k = RT.seq(a[0]), v = RT.seq(a[1]); for (; k != null && v != null; k = k.next(), v = v.next()) m = (ATransient) ((TransientMap) m).assoc(k.first(), v.first()); return m.persistent(); });
        f("hash-map", 0, -1, a -> { if (a.length % 2 != 0) throw new IllegalArgumentException("No value supplied for key: " + RT.str(a[a.length - 1])); IPersistentMap m = a.length == 0 ? PersistentArrayMap.EMPTY : PersistentHashMap.EMPTY; for (int k = 0; k < a.length; k += 2) m = m.assoc(a[k], a[k + 1]); return m; });
        f("array-map", 0, -1, a -> { if (a.length % 2 != 0) throw new IllegalArgumentException("No value supplied for key: " + RT.str(a[a.length - 1])); ArrayList l = new ArrayList(); outer: for (int k = 0; k < a.length; k += 2) { for (int j = 0; j < l.size(); j += 2) if (RT.equiv(l.get(j), a[k])) { l.set(j + 1, a[k + 1]); continue outer; } l.add(a[k]); l.add(a[k + 1]); } return new PersistentArrayMap(l.toArray(), null); });
        f("seq-to-map-for-destructuring*", 1, 1, a -> { if (!(a[0] instanceof ISeq)) return a[0]; ISeq s = RT.seq(a[0]); if (s == null) return PersistentArrayMap.EMPTY; if (s.next() == null) return s.first(); Object[] x = RT.toArray(s); if (x.length % 2 == 1) { Object m = RT.map(Arrays.copyOf(x, x.length - 1)); return RT.conj(m, x[x.length - 1]); } Object m = PersistentArrayMap.EMPTY; for (int k = 0; k < x.length; k += 2) m = RT.assoc(m, x[k], x[k + 1]); return m; });
        f("sorted-map", 0, -1, a -> { Object m = PersistentTreeMap.empty(RT.COMPARE); for (int k = 0; k < a.length; k += 2) m = RT.assoc(m, a[k], a[k + 1]); return m; }); f("sorted-map-by", 1, -1, a -> { Object m = PersistentTreeMap.empty((Comparator) a[0]); for (int k = 1; k < a.length; k += 2) m = RT.assoc(m, a[k], a[k + 1]); return m; });
        f("sorted-set", 0, -1, a -> { Object m = PersistentTreeSet.empty(RT.COMPARE); for (Object x : a) m = RT.conj(m, x); return m; }); f("sorted-set-by", 1, -1, a -> { Object m = PersistentTreeSet.empty((Comparator) a[0]); for (Object x : tail(a, 1)) m = RT.conj(m, x); return m; });
        f("hash-set", 0, -1, a -> RT.set(PersistentVector.of(a))); f("set", 1, 1, a -> a[0] instanceof IPersistentSet ? withMeta(a[0], null) : RT.set(a[0])); f("disj", 1, -1, a -> { Object s = a[0]; if (s == null) return null; for (int k = 1; k < a.length; k++) s = RT.cast(IPersistentSet.class, s).disjoin(a[k]); return s; });
        f("vec", 1, 1, a -> a[0] instanceof PersistentVector ? withMeta(a[0], null) : PersistentVector.create(a[0] instanceof Map ? RT.seq(a[0]) : a[0] instanceof Eduction ? into(PersistentVector.EMPTY, null, a[0]) : a[0])); f("vector", 0, -1, a -> PersistentVector.of(a)); f("list", 0, -1, a -> PersistentList.of(a)); f("list*", 1, -1, a -> { Object s = RT.seq(a[a.length - 1]); for (int k = a.length - 2; k >= 0; k--) s = RT.cons(a[k], s); return s; });
        f("subvec", 2, 3, a -> { int s = i(a[1]), e = a.length > 2 ? i(a[2]) : RT.count(a[0]); Object[] x = RT.toArray(a[0]); if (s < 0 || e < s || e > x.length) throw new IndexOutOfBoundsException(); return PersistentVector.of(Arrays.copyOfRange(x, s, e)); }); f("peek", 1, 1, a -> RT.peek(a[0])); f("pop", 1, 1, a -> RT.pop(a[0])); f("rseq", 1, 1, a -> RT.cast(Reversible.class, a[0]).rseq()); f("reverse", 1, 1, a -> { Object l = PersistentList.EMPTY; for (ISeq s = RT.seq(a[0]); s != null; s = s.next()) l = RT.conj(l, s.first()); return l; });
        f("map-entry", 2, 2, a -> new MapEntry(a[0], a[1]));
        f("sort", 1, 2, a -> Lib.sort(a.length > 1 ? RT.comparator(a[0]) : RT.COMPARE, a[a.length - 1])); f("sort-by", 2, 3, a -> { IFn k = fn(a[0]); Comparator c = a.length > 2 ? RT.comparator(a[1]) : RT.COMPARE; return Lib.sort((x, y) -> c.compare(k.invoke(x), k.invoke(y)), a[a.length - 1]); });
        f("lazy-seq*", 1, 1, a -> new LazySeq(fn(a[0]))); f("concat", 0, -1, a -> concatAll(ArraySeq.of(a, 0)));
        // sequence functions with a transducer of the same name
        f("map", 1, -1, a -> { IFn g = a[0] == null ? null : fn(a[0]); return a.length == 1 ? xf(rf -> new Rf(rf, (r, x) -> rf.invoke(r, x instanceof Rf.Many ? g.invoke(((Rf.Many) x).xs) : g.invoke(x)), null)) : a.length == 2 ? Lib.map(g, a[1]) : mapN(g, tail(a, 1)); });
        f("mapv", 2, -1, a -> a.length == 2 ? into(PersistentVector.EMPTY, null, Lib.map(fn(a[0]), a[1])) : into(PersistentVector.EMPTY, null, mapN(fn(a[0]), tail(a, 1))));
        f("filter", 1, 2, a -> { IFn g = fn(a[0]); return a.length == 1 ? xf(rf -> new Rf(rf, (r, x) -> t(g.invoke(x)) ? rf.invoke(r, x) : r, null)) : Lib.filter(g, a[1]); }); f("filterv", 2, 2, a -> into(PersistentVector.EMPTY, null, Lib.filter(fn(a[0]), a[1])));
        f("remove", 1, 2, a -> { IFn g = fn(a[0]); return a.length == 1 ? xf(rf -> new Rf(rf, (r, x) -> t(g.invoke(x)) ? r : rf.invoke(r, x), null)) : Lib.filter(af(b -> !t(g.invoke(b))), a[1]); });
        f("keep", 1, 2, a -> { IFn g = fn(a[0]); return a.length == 1 ? xf(rf -> new Rf(rf, (r, x) -> { Object v = g.invoke(x); return v == null ? r : rf.invoke(r, v); }, null)) : Lib.keep(g, a[1]); });
        f("map-indexed", 1, 2, a -> { IFn g = fn(a[0]); return a.length == 1 ? xf(rf -> { long[] n = {0}; return new Rf(rf, (r, x) -> rf.invoke(r, g.invoke(n[0]++, x)), null); }) : mapIndexed(g, 0, a[1], false); }); f("keep-indexed", 1, 2, a -> { IFn g = fn(a[0]); return a.length == 1 ? xf(rf -> { long[] n = {0}; return new Rf(rf, (r, x) -> { Object v = g.invoke(n[0]++, x); return v == null ? r : rf.invoke(r, v); }, null); }) : mapIndexed(g, 0, a[1], true); });
        f("cat", 1, 1, a -> { IFn rf = fn(a[0]); return new Rf(rf, (r, x) -> catStep(rf, r, x), null); });
        f("mapcat", 1, -1, a -> { IFn g = fn(a[0]); return a.length == 1 ? xf(rf -> new Rf(rf, (r, x) -> catStep(rf, r, g.invoke(x)), null)) : concatLazy(a.length == 2 ? Lib.map(g, a[1]) : mapN(g, tail(a, 1))); });
        f("take", 1, 2, a -> { long n = lng(a[0]); return a.length == 1 ? xf(rf -> { long[] k = {n}; return new Rf(rf, (r, x) -> { long c = k[0]--; Object v = c > 0 ? rf.invoke(r, x) : r; return c > 1 || v instanceof Reduced ? v : new Reduced(v); }, null); }) : Lib.take(n, a[1]); });
        f("drop", 1, 2, a -> { long n = lng(a[0]); return a.length == 1 ? xf(rf -> { long[] k = {n}; return new Rf(rf, (r, x) -> k[0]-- > 0 ? r : rf.invoke(r, x), null); }) : Lib.drop(n, a[1]); });
        f("take-while", 1, 2, a -> { IFn g = fn(a[0]); return a.length == 1 ? xf(rf -> new Rf(rf, (r, x) -> t(g.invoke(x)) ? rf.invoke(r, x) : new Reduced(r), null)) : takeWhile(g, a[1]); }); f("drop-while", 1, 2, a -> { IFn g = fn(a[0]); return a.length == 1 ? xf(rf -> { boolean[] d = {true}; return new Rf(rf, (r, x) -> { if (d[0] && t(g.invoke(x))) return r; d[0] = false; return rf.invoke(r, x); }, null); }) : dropWhile(g, a[1]); });
        f("take-nth", 1, 2, a -> { long n = lng(a[0]); return a.length == 1 ? xf(rf -> { long[] k = {0}; return new Rf(rf, (r, x) -> k[0]++ % n == 0 ? rf.invoke(r, x) : r, null); }) : takeNth(n, a[1]); });
        f("take-last", 2, 2, a -> { Object[] x = RT.toArray(a[1]); return ArraySeq.of(x, (int) Math.max(0, x.length - lng(a[0]))); }); f("drop-last", 1, 2, a -> { long n = a.length > 1 ? lng(a[0]) : 1; Object[] x = RT.toArray(a[a.length - 1]); return RT.orEmpty(ArraySeq.of(Arrays.copyOf(x, (int) Math.max(0, x.length - n)), 0)); });
        f("split-at", 2, 2, a -> RT.vec(Lib.take(lng(a[0]), a[1]), Lib.drop(lng(a[0]), a[1]))); f("split-with", 2, 2, a -> RT.vec(takeWhile(fn(a[0]), a[1]), dropWhile(fn(a[0]), a[1]))); f("splitv-at", 2, 2, a -> RT.vec(PersistentVector.create(Lib.take(lng(a[0]), a[1])), Lib.drop(lng(a[0]), a[1])));
        f("partition", 2, 4, a -> a.length == 2 ? Lib.partition(lng(a[0]), lng(a[0]), null, false, false, a[1]) : a.length == 3 ? Lib.partition(lng(a[0]), lng(a[1]), null, false, false, a[2]) : Lib.partition(lng(a[0]), lng(a[1]), a[2], false, true, a[3]));
        f("partition-all", 1, 3, a -> a.length == 1 ? xf(rf -> { ArrayList b = new ArrayList(); return new Rf(rf, (r, x) -> { b.add(x); if (b.size() == lng(a[0])) { Object v = PersistentVector.create(new ArrayList(b)); b.clear(); return rf.invoke(r, v); } return r; }, r -> { if (!b.isEmpty()) { r = unreduced(rf.invoke(r, PersistentVector.create(new ArrayList(b)))); b.clear(); } return rf.invoke(r); }); }) : a.length == 2 ? Lib.partition(lng(a[0]), lng(a[0]), null, true, false, a[1]) : Lib.partition(lng(a[0]), lng(a[1]), null, true, false, a[2]));
        f("partition-by", 1, 2, a -> { IFn g = fn(a[0]); IFn x = xf(rf -> { ArrayList b = new ArrayList(); Object[] last = {RT.NF}; return new Rf(rf, (r, v) -> { Object k = g.invoke(v), p = last[0]; last[0] = k; if (p == RT.NF || RT.equiv(p, k)) { b.add(v); return r; } Object out = a.length == 1 ? PersistentVector.create(new ArrayList(b)) : PersistentList.create(new ArrayList(b)); b.clear(); Object q = rf.invoke(r, out); if (!(q instanceof Reduced)) b.add(v); return q; }, r -> { if (!b.isEmpty()) { Object out = a.length == 1 ? PersistentVector.create(new ArrayList(b)) : PersistentList.create(new ArrayList(b)); b.clear(); r = unreduced(rf.invoke(r, out)); } return rf.invoke(r); }); }); return a.length == 1 ? x : sequence(x, a[1]); });
        f("interleave", 0, -1, a -> a.length == 0 ? PersistentList.EMPTY : concatLazy(mapN(af(b -> PersistentList.of(b)), a))); f("interpose", 1, 2, a -> a.length == 1 ? xf(rf -> { boolean[] s = {false}; return new Rf(rf, (r, x) -> { if (!s[0]) { s[0] = true; return rf.invoke(r, x); } Object q = rf.invoke(r, a[0]); return q instanceof Reduced ? q : rf.invoke(q, x); }, null); }) : Lib.interpose(a[0], a[1]));
        f("distinct", 0, 1, a -> a.length == 0 ? xf(rf -> { HashSet<Key> s = new HashSet<>(); return new Rf(rf, (r, x) -> s.add(new Key(x)) ? rf.invoke(r, x) : r, null); }) : Lib.distinct(a[0], new HashSet<>()));
        f("dedupe", 0, 1, a -> { IFn x = xf(rf -> { Object[] l = {RT.NF}; return new Rf(rf, (r, v) -> { Object p = l[0]; l[0] = v; return p != RT.NF && RT.equiv(p, v) ? r : rf.invoke(r, v); }, null); }); return a.length == 0 ? x : sequence(x, a[0]); }); f("distinct?", 1, -1, a -> { HashSet<Key> s = new HashSet<>(); for (Object x : a) if (!s.add(new Key(x))) return false; return true; });
        f("replace", 1, 2, a -> a.length == 1 ? xf(rf -> new Rf(rf, (r, x) -> rf.invoke(r, RT.get(a[0], x, x)), null)) : a[1] instanceof IPersistentVector ? into(PersistentVector.EMPTY, null, Lib.map(af(b -> RT.get(a[0], b[0], b[0])), a[1])) : Lib.map(af(b -> RT.get(a[0], b[0], b[0])), a[1]));
        f("range", 0, 3, a -> a.length == 0 ? Lib.range(0L, null, 1L) : a.length == 1 ? rng(0L, a[0], 1L) : rng(a[0], a[1], a.length > 2 ? a[2] : 1L)); f("repeat", 1, 2, a -> a.length == 1 ? Lib.repeat(a[0]) : RT.orEmpty(RT.seq(Lib.take(lng(a[0]), Lib.repeat(a[1]))))); f("repeatedly", 1, 2, a -> a.length == 1 ? Lib.repeatedly(fn(a[0])) : Lib.take(lng(a[0]), Lib.repeatedly(fn(a[1])))); f("iterate", 2, 2, a -> Lib.iterate(fn(a[0]), a[1])); f("cycle", 1, 1, a -> RT.seq(a[0]) == null ? PersistentList.EMPTY : Lib.cycle(a[0], a[0]));
        f("group-by", 2, 2, a -> { LinkedHashMap<Key, ArrayList> m = new LinkedHashMap<>(); for (ISeq s = RT.seq(a[1]); s != null; s = s.next()) m.computeIfAbsent(new Key(fn(a[0]).invoke(s.first())), k -> new ArrayList()).add(s.first()); Object r = PersistentArrayMap.EMPTY; for (Map.Entry<Key, ArrayList> e : m.entrySet()) r = RT.assoc(r, e.getKey().o, PersistentVector.create(e.getValue())); return r; });
        f("frequencies", 1, 1, a -> { Object r = PersistentArrayMap.EMPTY; for (ISeq s = RT.seq(a[0]); s != null; s = s.next()) r = RT.assoc(r, s.first(), Num.add(RT.get(r, s.first(), 0L), 1L)); return r; });
        f("reduce", 2, 3, a -> { IFn g = fn(a[0]); if (a.length == 3) return RT.reduce(g, a[1], a[2]); ISeq s = RT.seq(a[1]); return s == null ? g.invoke() : RT.reduce(g, s.first(), s.next()); });
        f("reduce-kv", 3, 3, a -> { Object acc = a[1]; if (a[2] instanceof IPersistentVector) { long k = 0; for (Object x : (List) a[2]) { acc = fn(a[0]).invoke(acc, k++, x); if (acc instanceof Reduced) return unreduced(acc); } return acc; } for (ISeq s = RT.seq(a[2]); s != null; s = s.next()) { Map.Entry e = (Map.Entry) s.first(); acc = fn(a[0]).invoke(acc, e.getKey(), e.getValue()); if (acc instanceof Reduced) return unreduced(acc); } return acc; });
        f("reductions", 2, 3, a -> { IFn g = fn(a[0]); if (a.length == 3) return Lib.reductions(g, a[1], a[2]); ISeq s = RT.seq(a[1]); return s == null ? RT.list(g.invoke()) : Lib.reductions(g, s.first(), RT.rest(s)); });
        f("transduce", 3, 4, a -> a.length == 3 ? Lib.transduce(fn(a[0]), fn(a[1]), fn(a[1]).invoke(), a[2]) : Lib.transduce(fn(a[0]), fn(a[1]), a[2], a[3])); f("completing", 1, 2, a -> { IFn g = fn(a[0]), c = a.length > 1 ? fn(a[1]) : null; return af(b -> b.length == 1 ? (c == null ? b[0] : c.invoke(b)) : g.invoke(b)); });
        f("eduction", 1, -1, a -> new Eduction(fn(Lib.comp(Arrays.copyOf(a, a.length - 1))), a[a.length - 1])); f("sequence", 1, 2, a -> a.length == 1 ? (a[0] instanceof ISeq ? a[0] : RT.orEmpty(RT.seq(a[0]))) : Lib.sequence(fn(a[0]), a[1])); f("reduced", 1, 1, a -> new Reduced(a[0])); f("unreduced", 1, 1, a -> unreduced(a[0])); f("ensure-reduced", 1, 1, a -> a[0] instanceof Reduced ? a[0] : new Reduced(a[0]));
        f("every?", 2, 2, a -> { for (ISeq s = RT.seq(a[1]); s != null; s = s.next()) if (!t(fn(a[0]).invoke(s.first()))) return false; return true; }); f("not-every?", 2, 2, a -> { for (ISeq s = RT.seq(a[1]); s != null; s = s.next()) if (!t(fn(a[0]).invoke(s.first()))) return true; return false; });
        f("some", 2, 2, a -> { for (ISeq s = RT.seq(a[1]); s != null; s = s.next()) { Object r = fn(a[0]).invoke(s.first()); if (t(r)) return r; } return null; }); f("not-any?", 2, 2, a -> { for (ISeq s = RT.seq(a[1]); s != null; s = s.next()) if (t(fn(a[0]).invoke(s.first()))) return false; return true; });
        f("run!", 2, 2, a -> { RT.reduce(af(b -> { Object r = fn(a[0]).invoke(b[1]); return r instanceof Reduced ? r : null; }), null, a[1]); return null; }); f("doall", 1, 2, a -> { for (ISeq s = RT.seq(a[a.length - 1]); s != null; s = s.next()) { } return a[a.length - 1]; }); f("dorun", 1, 2, a -> { for (ISeq s = RT.seq(a[a.length - 1]); s != null; s = s.next()) { } return null; });
        f("max-key", 2, -1, a -> { IFn k = fn(a[0]); if (a.length == 2) return a[1]; Object kx = k.invoke(a[1]), ky = k.invoke(a[2]); Object v, kv; if (Num.lt(ky, kx)) { v = a[1]; kv = kx; } else { v = a[2]; kv = ky; } for (int n = 3; n < a.length; n++) { Object kw = k.invoke(a[n]); if (Num.le(kv, kw)) { v = a[n]; kv = kw; } } return v; });
        f("min-key", 2, -1, a -> { IFn k = fn(a[0]); if (a.length == 2) return a[1]; Object kx = k.invoke(a[1]), ky = k.invoke(a[2]); Object v, kv; if (Num.lt(kx, ky)) { v = a[1]; kv = kx; } else { v = a[2]; kv = ky; } for (int n = 3; n < a.length; n++) { Object kw = k.invoke(a[n]); if (Num.le(kw, kv)) { v = a[n]; kv = kw; } } return v; });
        f("flatten", 1, 1, a -> { ArrayList l = new ArrayList(); flat(a[0], l, true); return RT.orEmpty(ArraySeq.of(l.toArray(), 0)); }); f("tree-seq", 3, 3, a -> treeSeq(fn(a[0]), fn(a[1]), a[2]));
        // transients
        f("transient", 1, 1, a -> transientOf(a[0])); f("persistent!", 1, 1, a -> RT.cast(ATransient.class, a[0]).persistent()); f("conj!", 0, 2, a -> CONJT.invoke(a));
        f("assoc!", 3, -1, a -> { Object m = a[0]; for (int k = 1; k < a.length; k += 2) m = m instanceof TransientVector ? ((TransientVector) m).assoc(a[k], a[k + 1]) : RT.cast(TransientMap.class, m).assoc(a[k], a[k + 1]); return m; }); f("dissoc!", 2, -1, a -> { Object m = a[0]; for (int k = 1; k < a.length; k++) m = RT.cast(TransientMap.class, m).without(a[k]); return m; }); f("disj!", 1, -1, a -> { Object s = a[0]; for (int k = 1; k < a.length; k++) s = RT.cast(TransientSet.class, s).disj(a[k]); return s; }); f("pop!", 1, 1, a -> RT.cast(TransientVector.class, a[0]).pop());
        f("subseq", 3, 5, a -> Lib.filter(af(b -> { Object k = b[0] instanceof Map.Entry ? ((Map.Entry) b[0]).getKey() : b[0]; return t(fn(a[1]).invoke((long) RT.compare(k, a[2]), 0L)) && (a.length < 5 || t(fn(a[3]).invoke((long) RT.compare(k, a[4]), 0L))); }), a[0]));
        // arrays
        f("into-array", 1, 2, a -> { Object[] x = RT.toArray(a[a.length - 1]); Class c = a.length > 1 ? (Class) a[0] : x.length > 0 && x[0] != null ? x[0].getClass() : Object.class; Object r = java.lang.reflect.Array.newInstance(c, x.length); for (int k = 0; k < x.length; k++) java.lang.reflect.Array.set(r, k, Interop.convert(c, x[k])); return r; });
        f("to-array object-array", 1, 1, a -> a[0] instanceof Number ? new Object[i(a[0])] : RT.toArray(a[0]).clone()); f("make-array", 2, 2, a -> java.lang.reflect.Array.newInstance((Class) a[0], i(a[1]))); f("aget", 2, 2, a -> RT.box(java.lang.reflect.Array.get(a[0], i(a[1])))); f("aset", 3, 3, a -> { java.lang.reflect.Array.set(a[0], i(a[1]), Interop.convert(a[0].getClass().getComponentType(), a[2])); return a[2]; }); f("alength", 1, 1, a -> (long) java.lang.reflect.Array.getLength(a[0])); f("char-array", 1, 1, a -> a[0] instanceof String ? ((String) a[0]).toCharArray() : new char[i(a[0])]); f("byte-array", 1, 1, a -> new byte[i(a[0])]);
    }
    static Object catStep(IFn rf, Object r, Object coll) {
        Object[] acc = {r};
        IFn g = af(b -> { Object v = rf.invoke(b[0], b[1]); return v instanceof Reduced ? new Reduced(v) : v; });
        return RT.reduce(g, r, coll);
    }
    static Object rng(Object a, Object e, Object s) { return RT.orEmpty(RT.seq(Lib.range(a, e, s))); }
    static void flat(Object o, ArrayList l, boolean top) { if (o instanceof Sequential) { for (ISeq s = RT.seq(o); s != null; s = s.next()) flat(s.first(), l, false); } else if (!top) l.add(o); }
    static Object treeSeq(IFn branch, IFn kids, Object n) { return lazy(() -> new Cons(n, t(branch.invoke(n)) ? concatLazy(Lib.map(af(b -> treeSeq(branch, kids, b[0])), kids.invoke(n))) : null)); }
}
