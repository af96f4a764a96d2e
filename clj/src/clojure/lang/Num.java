package clojure.lang;
import java.math.*;
/** arithmetic tower: integer (Long and the like), BigInt, Ratio, BigDecimal, Double */
final class Num {
    static int cat(Object n) {
        if (n instanceof Long || n instanceof Integer || n instanceof Short || n instanceof Byte) return 0;
        if (n instanceof BigInt || n instanceof BigInteger) return 1;
        if (n instanceof Ratio) return 2;
        if (n instanceof BigDecimal) return 3;
        if (n instanceof Double || n instanceof Float) return 4;
        if (n == null) throw new NullPointerException();
        if (n instanceof Number) return 0;
        throw new ClassCastException("class " + n.getClass().getName() + " cannot be cast to class java.lang.Number");
    }
    static BigInteger big(Object n) { return n instanceof BigInt ? ((BigInt) n).v : n instanceof BigInteger ? (BigInteger) n : BigInteger.valueOf(((Number) n).longValue()); }
    static Object reduce(BigInteger n) { return new BigInt(n); }
    static BigInteger numer(Object n) { return n instanceof Ratio ? ((Ratio) n).numerator : big(n); }
    static BigInteger denom(Object n) { return n instanceof Ratio ? ((Ratio) n).denominator : BigInteger.ONE; }
    static MathContext mc() { Object o = RT.MATH_CONTEXT.deref(); return (MathContext) o; }
    static BigDecimal dec(Object n) {
        switch (cat(n)) {
            case 0: return BigDecimal.valueOf(((Number) n).longValue());
            case 1: return new BigDecimal(big(n));
            case 2: return ((Ratio) n).decimal(mc());
            case 3: return (BigDecimal) n;
            default: return new BigDecimal(((Number) n).doubleValue());
        }
    }
    static double dbl(Object n) { return ((Number) n).doubleValue(); }
    static long lng(Object n) { return ((Number) n).longValue(); }
    static Object add(Object a, Object b) {
        switch (Math.max(cat(a), cat(b))) {
            case 0: { long x = lng(a), y = lng(b), r = x + y; if (((x ^ r) & (y ^ r)) < 0) throw new ArithmeticException("integer overflow"); return r; }
            case 1: return reduce(big(a).add(big(b)));
            case 2: return Ratio.of(numer(a).multiply(denom(b)).add(numer(b).multiply(denom(a))), denom(a).multiply(denom(b)));
            case 3: { MathContext m = mc(); return m == null ? dec(a).add(dec(b)) : dec(a).add(dec(b), m); }
            default: return dbl(a) + dbl(b);
        }
    }
    static Object neg(Object a) {
        switch (cat(a)) {
            case 0: return Math.negateExact(lng(a));
            case 1: return reduce(big(a).negate());
            case 2: return new Ratio(((Ratio) a).numerator.negate(), ((Ratio) a).denominator);
            case 3: return ((BigDecimal) a).negate();
            default: return -dbl(a);
        }
    }
    static Object sub(Object a, Object b) {
        switch (Math.max(cat(a), cat(b))) {
            case 0: return Math.subtractExact(lng(a), lng(b));
            case 1: return reduce(big(a).subtract(big(b)));
            case 2: return Ratio.of(numer(a).multiply(denom(b)).subtract(numer(b).multiply(denom(a))), denom(a).multiply(denom(b)));
            case 3: { MathContext m = mc(); return m == null ? dec(a).subtract(dec(b)) : dec(a).subtract(dec(b), m); }
            default: return dbl(a) - dbl(b);
        }
    }
    static Object mul(Object a, Object b) {
        switch (Math.max(cat(a), cat(b))) {
            case 0: return Math.multiplyExact(lng(a), lng(b));
            case 1: return reduce(big(a).multiply(big(b)));
            case 2: return Ratio.of(numer(a).multiply(numer(b)), denom(a).multiply(denom(b)));
            case 3: { MathContext m = mc(); return m == null ? dec(a).multiply(dec(b)) : dec(a).multiply(dec(b), m); }
            default: return dbl(a) * dbl(b);
        }
    }
    static Object div(Object a, Object b) {
        int c = Math.max(cat(a), cat(b));
        if (c == 4) return dbl(a) / dbl(b);
        if (signum(b) == 0) throw new ArithmeticException("Divide by zero");
        if (c == 3) { MathContext m = mc(); return m == null ? dec(a).divide(dec(b)) : dec(a).divide(dec(b), m); }
        Object r = Ratio.of(numer(a).multiply(denom(b)), denom(a).multiply(numer(b)));
        return c == 0 && r instanceof BigInt && ((BigInt) r).v.bitLength() < 64 ? (Object) ((BigInt) r).v.longValue() : r;
    }
    static Object quot(Object a, Object b) {
        int c = Math.max(cat(a), cat(b));
        if (c == 4) return (double) (long) (dbl(a) / dbl(b));
        if (signum(b) == 0) throw new ArithmeticException("Divide by zero");
        if (c == 0) return lng(a) / lng(b);
        if (c == 3) return dec(a).divideToIntegralValue(dec(b));
        BigInteger q = numer(a).multiply(denom(b)).divide(denom(a).multiply(numer(b)));
        return reduce(q);
    }
    static Object rem(Object a, Object b) {
        int c = Math.max(cat(a), cat(b));
        if (c == 4) return dbl(a) % dbl(b);
        if (signum(b) == 0) throw new ArithmeticException("Divide by zero");
        if (c == 0) return lng(a) % lng(b);
        if (c == 3) return dec(a).remainder(dec(b));
        return sub(a, mul(quot(a, b), b));
    }
    static Object mod(Object a, Object b) {
        Object m = rem(a, b);
        return signum(m) == 0 || (signum(a) > 0) == (signum(b) > 0) ? m : add(m, b);
    }
    static int signum(Object a) {
        switch (cat(a)) {
            case 0: return Long.signum(lng(a));
            case 1: return big(a).signum();
            case 2: return ((Ratio) a).numerator.signum();
            case 3: return ((BigDecimal) a).signum();
            default: return (int) Math.signum(dbl(a));
        }
    }
    static int compare(Object a, Object b) {
        switch (Math.max(cat(a), cat(b))) {
            case 0: return Long.compare(lng(a), lng(b));
            case 1: return big(a).compareTo(big(b));
            case 2: return numer(a).multiply(denom(b)).compareTo(numer(b).multiply(denom(a)));
            case 3: return dec(a).compareTo(dec(b));
            default: { double x = dbl(a), y = dbl(b); return x < y ? -1 : y < x ? 1 : 0; }
        }
    }
    static boolean lt(Object a, Object b) { if (Math.max(cat(a), cat(b)) == 4) return dbl(a) < dbl(b); return compare(a, b) < 0; }
    static boolean le(Object a, Object b) { if (Math.max(cat(a), cat(b)) == 4) return dbl(a) <= dbl(b); return compare(a, b) <= 0; }
    static boolean numEq(Object a, Object b) { if (Math.max(cat(a), cat(b)) == 4) return dbl(a) == dbl(b); return compare(a, b) == 0; }
    static int category(Object n) { int c = cat(n); return c <= 1 ? 0 : c; }
    static boolean equal(Object a, Object b) { return category(a) == category(b) && numEq(a, b); }
    static int hasheq(Object n) {
        switch (cat(n)) {
            case 0: return Murmur.hashLong(lng(n));
            case 1: { BigInteger v = big(n); return v.bitLength() < 64 ? Murmur.hashLong(v.longValue()) : v.hashCode(); }
            case 3: { BigDecimal d = (BigDecimal) n; return d.signum() == 0 ? BigDecimal.ZERO.hashCode() : d.stripTrailingZeros().hashCode(); }
            case 4: return dbl(n) == 0 ? 0 : n.hashCode();
            default: return n.hashCode();
        }
    }
}
