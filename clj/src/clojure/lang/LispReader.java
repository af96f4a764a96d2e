package clojure.lang;
import java.io.*;
import java.math.*;
import java.util.*;
import java.util.regex.*;

class ReaderException extends RuntimeException { ReaderException(String m) { super(m); } }
/** reads Clojure and EDN */
final class LispReader {
    static final Object EOF = new Object(), CLOSE = new Object(), SKIP = new Object();
    final PushbackReader in; final boolean edn; final Object readers; final IFn dflt; int line = 1; char closeCh;
    LispReader(Reader r, boolean edn, Object readers, IFn dflt) { in = r instanceof PushbackReader ? (PushbackReader) r : new PushbackReader(r, 4); this.edn = edn; this.readers = readers; this.dflt = dflt; }
    static Object readString(String s) { Object o = new LispReader(new StringReader(s), false, null, null).read(); if (o == EOF) throw new ReaderException("EOF while reading"); return o; }
    int ch() { try { int c = in.read(); if (c == '\n') line++; return c; } catch (IOException e) { throw RT.sneaky(e); } }
    void un(int c) { if (c < 0) return; try { if (c == '\n') line--; in.unread(c); } catch (IOException e) { throw RT.sneaky(e); } }
    static boolean ws(int c) { return c == ',' || c >= 0 && Character.isWhitespace(c); }
    static boolean terminating(int c) { return c < 0 || ws(c) || "\";@^`~()[]{}\\".indexOf(c) >= 0; }
    boolean terminatingHere(int c) { return c < 0 || ws(c) || (edn ? "\";()[]{}\\^" : "\";@^`~()[]{}\\").indexOf(c) >= 0; }
    ReaderException err(String m) { return new ReaderException(m); }

    /** the next form or EOF */
    Object read() {
        Object o;
        do { o = read1(); } while (o == SKIP);
        if (o == CLOSE) throw err("Unmatched delimiter: " + closeCh);
        return o;
    }
    Object need() { Object o; do { o = read1(); } while (o == SKIP); if (o == EOF) throw err("EOF while reading"); if (o == CLOSE) throw err("Unmatched delimiter: " + closeCh); return o; }
    Object read1() {
        int c = ch();
        while (ws(c)) c = ch();
        if (c < 0) return EOF;
        if (Character.isDigit(c)) { un(c); return number(); }
        if (c == '+' || c == '-') { int d = ch(); un(d); if (d >= 0 && Character.isDigit(d)) { un(c); return number(); } }
        switch (c) {
            case '(': { int l = line; List x = delimited(')'); Object p = PersistentList.create(x); return edn || x.isEmpty() ? p : ((IObj) p).withMeta(RT.map(RT.kw("line"), (long) l)); }
            case '[': { List x = delimited(']'); return PersistentVector.of(x.toArray()); }
            case '{': { List x = delimited('}'); if (x.size() % 2 != 0) throw err("Map literal must contain an even number of forms"); return mapOf(x); }
            case ')': case ']': case '}': closeCh = (char) c; return CLOSE;
            case '"': return string();
            case ';': while (c >= 0 && c != '\n') c = ch(); return SKIP;
            case '\\': return character();
            case '#': return dispatch();
            case '^': return meta();
        }
        if (!edn) switch (c) {
            case '\'': return RT.list(sym("quote"), need());
            case '@': return RT.list(Symbol.intern("clojure.core", "deref"), need());
            case '`': { HashMap<String, Symbol> g = new HashMap<>(); return syntaxQuote(need(), g); }
            case '~': { int d = ch(); if (d == '@') return RT.list(Symbol.intern("clojure.core", "unquote-splicing"), need()); un(d); return RT.list(Symbol.intern("clojure.core", "unquote"), need()); }
            case '%': if (fnArgs != null) return fnArg();
        }
        un(c);
        return token(tok());
    }
    static Symbol sym(String s) { return Symbol.intern(null, s); }
    Object mapOf(List x) {
        HashSet<Key> seen = new HashSet<>();
        for (int i = 0; i < x.size(); i += 2) if (!seen.add(new Key(x.get(i)))) throw new IllegalArgumentException("Duplicate key: " + RT.prStr(x.get(i)));
        return RT.map(x.toArray());
    }
    List delimited(char close) {
        ArrayList l = new ArrayList();
        for (;;) {
            Object o = read1();
            if (o == EOF) throw err("EOF while reading");
            if (o == SKIP) continue;
            if (o == CLOSE) { if (closeCh != close) throw err("Unmatched delimiter: " + closeCh); return l; }
            l.add(o);
        }
    }
    String tok() {
        StringBuilder b = new StringBuilder();
        for (;;) { int c = ch(); if (terminatingHere(c)) { un(c); return b.toString(); } b.append((char) c); }
    }
    Object token(String t) {
        switch (t) { case "nil": return null; case "true": return true; case "false": return false; }
        if (t.startsWith("::") && !edn) {
            String k = t.substring(2); int i = k.indexOf('/');
            Namespace ns = (Namespace) RT.NS.deref();
            if (i < 0) return Keyword.intern(ns.name.toString(), k);
            String a = k.substring(0, i);
            Namespace n = ns.aliases.get(a); if (n == null) n = Namespace.find(sym(a));
            if (n == null) throw err("Invalid token: " + t);
            return Keyword.intern(n.name.toString(), k.substring(i + 1));
        }
        if (t.isEmpty() || t.equals(":") || t.endsWith(":") && t.length() > 1 || t.startsWith("::")) throw err("Invalid token: " + t);
        if (t.startsWith(":")) return Keyword.intern(t.substring(1));
        if (t.endsWith("/") && t.length() > 1 && !t.endsWith("//")) throw err("Invalid token: " + t);
        return Symbol.intern(t);
    }
    static final Pattern INT = Pattern.compile("([-+]?)(?:(0)|([1-9][0-9]*)|0[xX]([0-9A-Fa-f]+)|0([0-7]+)|([1-9][0-9]?)[rR]([0-9A-Za-z]+)|0[0-9]+)(N)?"),
        RATIO = Pattern.compile("([-+]?[0-9]+)/([0-9]+)"), FLOAT = Pattern.compile("([-+]?[0-9]+(\\.[0-9]*)?([eE][-+]?[0-9]+)?)(M)?");
    Object number() {
        StringBuilder b = new StringBuilder();
        for (;;) { int c = ch(); if (c < 0 || ws(c) || terminatingHere(c) || c == '#' ) { un(c); break; } b.append((char) c); }
        Object n = parseNumber(b.toString());
        if (n == null) throw new NumberFormatException("Invalid number: " + b);
        return n;
    }
    static Object parseNumber(String s) {
        Matcher m = INT.matcher(s);
        if (m.matches()) {
            if (m.group(2) != null) return m.group(8) != null ? (Object) new BigInt(BigInteger.ZERO) : (Object) 0L;
            String d; int radix = 10;
            if ((d = m.group(3)) != null) radix = 10; else if ((d = m.group(4)) != null) radix = 16; else if ((d = m.group(5)) != null) radix = 8; else if ((d = m.group(7)) != null) radix = Integer.parseInt(m.group(6));
            if (d == null) return null;
            BigInteger v = new BigInteger(d, radix);
            if (m.group(1).equals("-")) v = v.negate();
            return m.group(8) != null || v.bitLength() >= 64 ? (Object) new BigInt(v) : (Object) v.longValue();
        }
        m = FLOAT.matcher(s);
        if (m.matches()) return m.group(4) != null ? (Object) new BigDecimal(m.group(1)) : (Object) Double.parseDouble(s);
        m = RATIO.matcher(s);
        if (m.matches()) { Object r = Ratio.of(new BigInteger(m.group(1).replace("+", "")), new BigInteger(m.group(2))); return r instanceof BigInt && ((BigInt) r).v.bitLength() < 64 ? (Object) ((BigInt) r).v.longValue() : r; }
        return null;
    }
    String string() {
        StringBuilder b = new StringBuilder();
        for (;;) {
            int c = ch();
            if (c < 0) throw err("EOF while reading string");
            if (c == '"') return b.toString();
            if (c == '\\') {
                c = ch();
                switch (c) {
                    case 't': c = '\t'; break; case 'r': c = '\r'; break; case 'n': c = '\n'; break; case 'b': c = '\b'; break; case 'f': c = '\f'; break;
                    case '\\': case '"': break;
                    case 'u': { int v = 0; for (int i = 0; i < 4; i++) { int d = Character.digit(ch(), 16); if (d < 0) throw err("Invalid unicode escape"); v = v * 16 + d; } c = v; break; }
                    default:
                        if (c < 0) throw err("EOF while reading string");
                        if (c >= '0' && c <= '7') { int v = c - '0'; for (int i = 0; i < 2; i++) { int d = ch(); if (d < '0' || d > '7') { un(d); break; } v = v * 8 + d - '0'; } c = v; break; }
                        throw err("Unsupported escape character: \\" + (char) c);
                }
            }
            b.append((char) c);
        }
    }
    Object character() {
        int c = ch();
        if (c < 0) throw err("EOF while reading character");
        StringBuilder b = new StringBuilder(); b.append((char) c);
        for (;;) { c = ch(); if (terminatingHere(c) || c == '#' && false) { un(c); break; } b.append((char) c); }
        String t = b.toString();
        if (t.length() == 1) return t.charAt(0);
        for (Map.Entry<Character, String> e : RT.CHARNAMES.entrySet()) if (e.getValue().equals(t)) return e.getKey();
        if (t.startsWith("u") && t.length() == 5) return (char) Integer.parseInt(t.substring(1), 16);
        if (t.startsWith("o")) return (char) Integer.parseInt(t.substring(1), 8);
        throw err("Unsupported character: \\" + t);
    }
    Object meta() {
        Object m = need();
        if (m instanceof Symbol || m instanceof String) m = RT.map(RT.kw("tag"), m);
        else if (m instanceof Keyword) m = RT.map(m, true);
        Object o = need();
        if (!(o instanceof IObj)) throw new IllegalArgumentException("Metadata can only be applied to IMetas");
        Object old = RT.meta(o);
        for (ISeq s = RT.seq(m); s != null; s = s.next()) old = RT.conj(old == null ? PersistentArrayMap.EMPTY : old, s.first());
        return ((IObj) o).withMeta(old);
    }
    TreeMap<Integer, Symbol> fnArgs;
    static int gen = 0;
    static synchronized int nextId() { return ++gen; }
    Object fnArg() {
        int c = ch();
        if (terminating(c)) { un(c); return arg(1); }
        if (c == '&') return arg(-1);
        un(c);
        Object n = need();
        if (!(n instanceof Long)) throw new IllegalStateException("arg literal must be %, %& or %integer");
        return arg((int) (long) (Long) n);
    }
    Symbol arg(int i) { return fnArgs.computeIfAbsent(i, k -> sym((k == -1 ? "rest" : "p" + k) + "__" + nextId() + "#")); }
    Object dispatch() {
        int c = ch();
        switch (c) {
            case '{': {
                List x = delimited('}'); Object s = PersistentHashSet.EMPTY;
                for (Object o : x) { if (((PersistentHashSet) s).contains(o)) throw new IllegalArgumentException("Duplicate key: " + RT.prStr(o)); s = ((PersistentHashSet) s).cons(o); }
                return s;
            }
            case '_': { need(); return SKIP; }
            case '#': {
                Object o = need();
                switch (o.toString()) { case "Inf": return Double.POSITIVE_INFINITY; case "-Inf": return Double.NEGATIVE_INFINITY; case "NaN": return Double.NaN; }
                throw err("Invalid ## value");
            }
            case '^': return meta();
            case ':': {
                un(c); Object k = token(tok());
                Object m = need();
                if (!(k instanceof Keyword) || !(m instanceof Map)) throw err("Namespaced map must specify a namespace");
                String ns = k.toString().startsWith(":" ) && ((Keyword) k).sym.ns == null ? ((Keyword) k).sym.name : ((Keyword) k).sym.ns;
                Object r = PersistentArrayMap.EMPTY;
                for (Object o : ((Map) m).entrySet()) {
                    Object x = ((Map.Entry) o).getKey();
                    if (x instanceof Keyword) { Symbol y = ((Keyword) x).sym; x = y.ns == null ? Keyword.intern(ns, y.name) : y.ns.equals("_") ? Keyword.intern(null, y.name) : x; }
                    r = RT.assoc(r, x, ((Map.Entry) o).getValue());
                }
                return r;
            }
        }
        if (!edn) switch (c) {
            case '(': {
                if (fnArgs != null) throw new IllegalStateException("Nested #()s are not allowed");
                fnArgs = new TreeMap<>();
                try {
                    un('(');
                    Object body = need();
                    ArrayList a = new ArrayList();
                    int max = fnArgs.isEmpty() ? 0 : Math.max(0, fnArgs.lastKey());
                    for (int i = 1; i <= max; i++) a.add(arg(i));
                    if (fnArgs.containsKey(-1)) { a.add(sym("&")); a.add(arg(-1)); }
                    return RT.list(sym("fn*"), PersistentVector.of(a.toArray()), body);
                } finally { fnArgs = null; }
            }
            case '\'': return RT.list(sym("var"), need());
            case '"': {
                StringBuilder b = new StringBuilder();
                for (;;) {
                    int d = ch();
                    if (d < 0) throw err("EOF while reading regex");
                    if (d == '"') break;
                    b.append((char) d);
                    if (d == '\\') { d = ch(); if (d < 0) throw err("EOF while reading regex"); b.append((char) d); }
                }
                return Pattern.compile(b.toString());
            }
            case '!': while (c >= 0 && c != '\n') c = ch(); return SKIP;
            case '?': {
                int d = ch(); boolean splice = d == '@'; if (!splice) un(d);
                List l = (List) need();
                for (int i = 0; i + 1 < l.size(); i += 2) if (l.get(i) == RT.kw("clj") || l.get(i) == RT.kw("default")) { if (splice) throw err("splicing reader conditional"); return l.get(i + 1); }
                return SKIP;
            }
        }
        if (c < 0) throw err("EOF while reading dispatch character");
        if (!Character.isLetter(c)) throw err("No dispatch macro for: " + (char) c);
        un(c);
        Object tag = need();
        if (!(tag instanceof Symbol)) throw err("Reader tag must be a symbol");
        Object v = need();
        Object f = RT.get(readers, tag);
        if (f == null && !edn) f = RT.get(RT.READERS.deref(), tag);
        if (f != null) return RT.fn(f).invoke(v);
        if (tag.toString().equals("uuid")) return UUID.fromString((String) v);
        if (tag.toString().equals("inst")) return Date.from(java.time.Instant.parse((String) v));
        if (dflt != null) return dflt.invoke(tag, v);
        throw err("No reader function for tag " + tag);
    }
    // ---- syntax quote
    static final Set<String> SPECIAL = new HashSet<>(Arrays.asList("def", "if", "do", "let*", "fn*", "loop*", "quote", "var", "recur", "try", "catch", "finally", "throw", "new", ".", "set!", "monitor-enter", "monitor-exit", "letfn*", "&", "case*", "reify*", "deftype*", "import*"));
    static Object csym(String s) { return Symbol.intern("clojure.core", s); }
    static Object q(Object o) { return RT.list(sym("quote"), o); }
    Object syntaxQuote(Object f, Map<String, Symbol> g) {
        if (f instanceof Symbol) {
            Symbol s = (Symbol) f;
            if (s.ns == null && SPECIAL.contains(s.name)) return q(s);
            if (s.ns == null && s.name.endsWith("#")) return q(g.computeIfAbsent(s.name, k -> sym(k.substring(0, k.length() - 1) + "__" + nextId() + "__auto__")));
            if (s.ns == null && s.name.endsWith(".")) { Object r = resolve(sym(s.name.substring(0, s.name.length() - 1))); return q(sym(r + ".")); }
            if (s.ns == null && s.name.startsWith(".")) return q(s);
            return q(resolve(s));
        }
        if (isCall(f, "unquote")) return RT.second(f);
        if (isCall(f, "unquote-splicing")) throw new IllegalStateException("splice not in list");
        Object r;
        if (f instanceof IPersistentMap) { ArrayList l = new ArrayList(); for (Object e : ((Map) f).entrySet()) { l.add(((Map.Entry) e).getKey()); l.add(((Map.Entry) e).getValue()); } r = RT.list(csym("apply"), csym("hash-map"), seqForm(l, g)); }
        else if (f instanceof IPersistentVector) r = RT.list(csym("vec"), seqForm((List) f, g));
        else if (f instanceof IPersistentSet) r = RT.list(csym("set"), seqForm(new ArrayList((Collection) f), g));
        else if (f instanceof ISeq) { if (RT.seq(f) == null) return RT.list(csym("list")); r = RT.list(csym("seq"), seqForm((List) f, g)); }
        else if (f instanceof Keyword || f instanceof Number || f instanceof Character || f instanceof String) return f;
        else return q(f);
        return r;
    }
    static boolean isCall(Object f, String n) { return f instanceof ISeq && RT.first(f) instanceof Symbol && RT.first(f).equals(csym(n)); }
    Object seqForm(List l, Map<String, Symbol> g) {
        ArrayList a = new ArrayList(); a.add(csym("concat"));
        for (Object o : l) {
            if (isCall(o, "unquote")) a.add(RT.list(csym("list"), RT.second(o)));
            else if (isCall(o, "unquote-splicing")) a.add(RT.second(o));
            else a.add(RT.list(csym("list"), syntaxQuote(o, g)));
        }
        return PersistentList.create(a);
    }
    static Symbol resolve(Symbol s) {
        Namespace ns = (Namespace) RT.NS.deref();
        if (s.ns != null) {
            Namespace n = ns.aliases.get(s.ns);
            if (n != null) return Symbol.intern(n.name.toString(), s.name);
            Object c = ns.mappings.get(s.ns);
            if (c instanceof Class) return Symbol.intern(((Class) c).getName(), s.name);
            return s;
        }
        Object o = ns.mappings.get(s.name);
        if (o instanceof Class) return sym(((Class) o).getName());
        if (o instanceof Var) return Symbol.intern(((Var) o).ns.name.toString(), ((Var) o).sym.name);
        o = RT.CORE.mappings.get(s.name);
        if (o instanceof Var && !((Var) o).priv || Compiler.specials.containsKey(s.name)) return Symbol.intern("clojure.core", s.name);
        Class c = Interop.classFor(s.name, ns);
        if (c != null) return sym(c.getName());
        if (s.name.indexOf('.') > 0) return s;
        return Symbol.intern(ns.name.toString(), s.name);
    }
}
