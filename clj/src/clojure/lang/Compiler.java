package clojure.lang;
import java.io.*;
import java.util.*;

class CompilerException extends RuntimeException {
    final Object data;
    CompilerException(String where, Throwable cause) { super("Syntax error compiling at (" + where + ").", cause); data = RT.map(Keyword.intern("clojure.error", "phase"), RT.kw("compile-syntax-check")); }
    public Object getData() { return data; }
}
abstract class Node { abstract Object eval(Object[] f); }
final class LocalB { final Symbol name; final FnScope fn; final int slot; LocalB(Symbol n, FnScope f, int s) { name = n; fn = f; slot = s; } }
final class FnScope {
    final FnScope parent; int nslots = 1;
    final LinkedHashMap<LocalB, Integer> caps = new LinkedHashMap<>();
    FnScope(FnScope p) { parent = p; }
    int slot() { return nslots++; }
}
/** lexical environment: a chain of locals, and what recur refers to */
final class Env {
    final Env up; final LocalB b; final FnScope fn; final int[] recurSlots;
    Env(Env up, LocalB b, FnScope fn, int[] rs) { this.up = up; this.b = b; this.fn = fn; recurSlots = rs; }
    Env bind(LocalB l) { return new Env(this, l, fn, recurSlots); }
    Env recur(int[] rs) { return new Env(this, null, fn, rs); }
    Env in(FnScope f) { return new Env(this, null, f, null); }
    LocalB find(Symbol s) { if (s.ns != null) return null; for (Env e = this; e != null; e = e.up) if (e.b != null && e.b.name.name.equals(s.name)) return e.b; return null; }
}
final class FnMethod { int req; boolean variadic; int nslots; Node body; }
final class FnObj extends AFunction {
    final FnNode def; final Object[] caps;
    FnObj(FnNode d, Object[] c) { def = d; caps = c; name = d.name; }
    public Object invoke(Object... a) {
        FnMethod m = a.length < def.fixed.length ? def.fixed[a.length] : null;
        if (m == null) { m = def.variadic; if (m == null || a.length < m.req) throw new ArityException(a.length, def.name); }
        Object[] f = new Object[m.nslots];
        f[0] = this;
        System.arraycopy(a, 0, f, 1, m.req);
        if (m.variadic) f[m.req + 1] = ArraySeq.of(a.length == m.req ? RT.NOARGS : Arrays.copyOfRange(a, m.req, a.length), 0);
        Object r;
        do { r = m.body.eval(f); } while (r == Compiler.RECUR);
        return r;
    }
    /** a lazy rest argument must not be realised further than needed */
    public Object applyTo(Object args) {
        FnMethod m = def.variadic;
        if (m == null) return invoke(RT.toArray(args));
        Object[] f = new Object[m.nslots];
        ISeq s = RT.seq(args); int n = 0;
        ArrayList head = new ArrayList();
        int max = Math.max(m.req, def.fixed.length - 1);
        for (ISeq x = s; x != null && n <= max; x = x.next(), n++) head.add(x.first());
        if (n <= max && n < def.fixed.length && def.fixed[n] != null || n < m.req) return invoke(head.toArray());
        f[0] = this;
        for (int i = 0; i < m.req; i++, s = s.next()) f[i + 1] = s.first();
        f[m.req + 1] = s;
        Object r;
        do { r = m.body.eval(f); } while (r == Compiler.RECUR);
        return r;
    }
}
final class FnNode extends Node {
    String name; FnMethod[] fixed; FnMethod variadic; Node[] caps; Object meta;
    FnObj alloc() { FnObj o = new FnObj(this, new Object[caps.length]); o.meta = meta; return o; }
    void fill(FnObj o, Object[] f) { for (int i = 0; i < caps.length; i++) o.caps[i] = caps[i].eval(f); }
    Object eval(Object[] f) { FnObj o = alloc(); fill(o, f); return o; }
}
final class Const extends Node { final Object v; Const(Object v) { this.v = v; } Object eval(Object[] f) { return v; } }
final class Compiler {
    static final Object RECUR = new Object();
    interface Special { Node compile(List form, Env env, boolean tail); }
    static final HashMap<String, Special> specials = new HashMap<>();
    static Symbol sym(String s) { return Symbol.intern(null, s); }
    static Symbol csym(String s) { return Symbol.intern("clojure.core", s); }
    static Symbol gensym(String p) { return sym(p + LispReader.nextId()); }
    static Node node(java.util.function.Function<Object[], Object> fn) { return new Node() { Object eval(Object[] f) { return fn.apply(f); } }; }
    static Namespace ns() { return (Namespace) RT.NS.deref(); }

    static Object eval(Object form) {
        form = macroexpand(form, null);
        if (form instanceof ISeq && sym("do").equals(RT.first(form))) {
            Object r = null;
            for (ISeq s = RT.next(form); s != null; s = s.next()) r = eval(s.first());
            return r;
        }
        FnScope sc = new FnScope(null);
        Node n = compile(form, new Env(null, null, sc, null), false);
        return n.eval(new Object[sc.nslots]);
    }
    static Object load(Reader r, String file) {
        LispReader rd = new LispReader(r, false, null, null);
        RT.NS.push(RT.NS.deref()); RT.FILE.push(file); RT.WARN.push(false);
        Object v = null;
        try {
            for (;;) {
                Object f = rd.read();
                if (f == LispReader.EOF) return v;
                try { v = eval(f); }
                catch (CompilerException e) { throw e; }
                catch (StackOverflowError e) { throw e; }
            }
        } finally { RT.NS.pop(); RT.FILE.pop(); RT.WARN.pop(); }
    }

    // ---- names
    static Object resolveIn(Namespace n, Symbol s, boolean checkPrivate) {
        if (s.ns != null) {
            Namespace t = n.aliases.get(s.ns);
            if (t == null) t = Namespace.find(sym(s.ns));
            if (t == null) return null;
            Object o = t.mappings.get(s.name);
            if (!(o instanceof Var) || ((Var) o).ns != t) return null;
            if (checkPrivate && ((Var) o).priv && t != n) throw new IllegalStateException("var: " + o + " is not public");
            return o;
        }
        Object o = n.mappings.get(s.name);
        if (o != null) return o;
        o = RT.CORE.mappings.get(s.name);
        if (o instanceof Var && !((Var) o).priv) return o;
        return Interop.classFor(s.name, n);
    }
    static Var macroVar(Object op, Env env) {
        if (!(op instanceof Symbol)) return null;
        Symbol s = (Symbol) op;
        if (env != null && env.find(s) != null) return null;
        Object o = s.ns == null && s.name.indexOf('.') > 0 ? null : resolveIn(ns(), s, false);
        return o instanceof Var && ((Var) o).macro ? (Var) o : null;
    }
    static Special special(Object op, Env env) {
        if (!(op instanceof Symbol)) return null;
        Symbol s = (Symbol) op;
        if (s.ns != null && !s.ns.equals("clojure.core") && ns().aliases.get(s.ns) != RT.CORE) return null;
        Special sp = specials.get(s.name);
        if (sp == null) return null;
        if (s.ns == null && !LispReader.SPECIAL.contains(s.name)) {
            if (env != null && env.find(s) != null) return null;
            if (ns().mappings.get(s.name) instanceof Var && ns() != RT.CORE) return null;
        }
        return sp;
    }
    static Object macroexpand1(Object form, Env env) {
        if (!(form instanceof ISeq) || RT.seq(form) == null) return form;
        Object op = RT.first(form);
        if (special(op, env) != null) return form;
        Var v = macroVar(op, env);
        if (v != null) {
            ArrayList a = new ArrayList(); a.add(form); a.add(envMap(env));
            for (ISeq s = RT.next(form); s != null; s = s.next()) a.add(s.first());
            try { return RT.fn(v.get()).invoke(a.toArray()); }
            catch (ArityException e) { throw new CompilerException(RT.FILE.deref() + "", e); }
        }
        return form;
    }
    static Object envMap(Env env) { Object m = PersistentArrayMap.EMPTY; for (Env e = env; e != null; e = e.up) if (e.b != null) m = RT.assoc(m, e.b.name, true); return m; }
    static Object macroexpand(Object f, Env env) { for (;;) { Object g = macroexpand1(f, env); if (g == f) return f; f = g; } }

    static Node local(LocalB b, FnScope fn) {
        if (b.fn == fn) { int i = b.slot; return new Node() { Object eval(Object[] f) { return f[i]; } }; }
        Integer k = fn.caps.get(b);
        if (k == null) { k = fn.caps.size(); fn.caps.put(b, k); }
        int i = k;
        return new Node() { Object eval(Object[] f) { return ((FnObj) f[0]).caps[i]; } };
    }
    static RuntimeException err(String m) { return new CompilerException(String.valueOf(RT.FILE.deref()), new RuntimeException(m)); }

    // ---- forms
    static Node compile(Object x, Env env, boolean tail) {
        if (x instanceof LazySeq) x = RT.orEmpty(RT.seq(x));
        if (x instanceof Symbol) return symbol((Symbol) x, env);
        if (x instanceof ISeq) {
            if (RT.seq(x) == null) return new Const(x);
            Object y = macroexpand1(x, env);
            if (y != x) return compile(y, env, tail);
            List l = listOf(x);
            Special sp = special(l.get(0), env);
            if (sp != null) return sp.compile(l, env, tail);
            return call(l, env);
        }
        if (x instanceof IPersistentVector && !(x instanceof MapEntry)) return withMeta(x, coll((List) x, env, a -> PersistentVector.of(a), x), env);
        if (x instanceof MapEntry) return coll((List) x, env, a -> PersistentVector.of(a), x);
        if (x instanceof IPersistentMap) {
            ArrayList l = new ArrayList(); for (ISeq s = RT.seq(x); s != null; s = s.next()) { Map.Entry e = (Map.Entry) s.first(); l.add(e.getKey()); l.add(e.getValue()); }
            return withMeta(x, coll(l, env, a -> { Object m = a.length <= 16 ? PersistentArrayMap.EMPTY : PersistentHashMap.EMPTY; for (int i = 0; i < a.length; i += 2) { if (RT.contains(m, a[i])) throw new IllegalArgumentException("Duplicate key: " + RT.prStr(a[i])); m = RT.assoc(m, a[i], a[i + 1]); } return m; }, x), env);
        }
        if (x instanceof IPersistentSet) return withMeta(x, coll(new ArrayList((Collection) x), env, a -> { Object s = PersistentHashSet.EMPTY; for (Object o : a) { if (((PersistentHashSet) s).contains(o)) throw new IllegalArgumentException("Duplicate key: " + RT.prStr(o)); s = ((PersistentHashSet) s).cons(o); } return s; }, x), env);
        return new Const(x);
    }
    static List listOf(Object x) { ArrayList l = new ArrayList(); for (ISeq s = RT.seq(x); s != null; s = s.next()) l.add(s.first()); return l; }
    static Node withMeta(Object x, Node n, Env env) {
        Object m = RT.meta(x);
        if (m == null || RT.count(m) == 0) return n;
        Node mn = compile(m, env, false);
        return node(f -> ((IObj) n.eval(f)).withMeta(mn.eval(f)));
    }
    static Node coll(List l, Env env, java.util.function.Function<Object[], Object> mk, Object self) {
        Node[] ns = nodes(l, 0, env);
        boolean c = true; for (Node n : ns) c &= n instanceof Const;
        if (c) { Object[] a = new Object[ns.length]; for (int i = 0; i < a.length; i++) a[i] = ((Const) ns[i]).v; return new Const(mk.apply(a)); }
        return node(f -> mk.apply(evalAll(ns, f)));
    }
    static Node[] nodes(List l, int from, Env env) { Node[] r = new Node[l.size() - from]; for (int i = from; i < l.size(); i++) r[i - from] = compile(l.get(i), env, false); return r; }
    static Object[] evalAll(Node[] ns, Object[] f) { if (ns.length == 0) return RT.NOARGS; Object[] a = new Object[ns.length]; for (int i = 0; i < a.length; i++) a[i] = ns[i].eval(f); return a; }
    static Node symbol(Symbol s, Env env) {
        LocalB b = env.find(s);
        if (b != null) return local(b, env.fn);
        if (s.ns != null && Namespace.find(sym(s.ns)) == null && ns().aliases.get(s.ns) == null) {
            Class c = Interop.classFor(s.ns, ns());
            if (c != null) return Interop.member(c, s.name);
            throw err("No such namespace: " + s.ns);
        }
        Object o = resolveIn(ns(), s, true);
        if (o instanceof Class) return new Const(o);
        if (o instanceof Var) {
            Var v = (Var) o;
            if (v.macro) throw err("Can't take value of a macro: " + v);
            return new Node() { Object eval(Object[] f) { return v.get(); } };
        }
        if (s.ns != null) throw err("No such var: " + s);
        if (s.name.indexOf('.') > 0) throw new CompilerException(String.valueOf(RT.FILE.deref()), new ClassNotFoundException(s.name));
        if (specials.containsKey(s.name)) throw err("Can't take value of a macro: #'clojure.core/" + s.name);
        throw err("Unable to resolve symbol: " + s + " in this context");
    }
    static Node call(List l, Env env) {
        Object op = l.get(0);
        if (op instanceof Symbol && env.find((Symbol) op) == null) {
            Symbol s = (Symbol) op;
            if (s.ns == null && s.name.length() > 1 && s.name.charAt(0) == '.' && !s.name.startsWith("..")) {
                if (l.size() < 2) throw err("Malformed member expression");
                return Interop.instance(s.name.substring(1), l.get(1), nodes(l, 1, env));
            }
            if (s.ns == null && s.name.length() > 1 && s.name.endsWith(".")) return Interop.construct(s.name.substring(0, s.name.length() - 1), nodes(l, 1, env));
            if (s.ns != null && Namespace.find(sym(s.ns)) == null && ns().aliases.get(s.ns) == null) {
                Class c = Interop.classFor(s.ns, ns());
                if (c != null) return Interop.staticCall(c, s.name, nodes(l, 1, env));
                throw err("No such namespace: " + s.ns);
            }
        }
        Node fn = compile(op, env, false);
        Node[] as = nodes(l, 1, env);
        switch (as.length) {
            case 0: return new Node() { Object eval(Object[] f) { return RT.fn(fn.eval(f)).invoke(); } };
            case 1: { Node a = as[0]; return new Node() { Object eval(Object[] f) { IFn g = RT.fn(fn.eval(f)); return g.invoke(a.eval(f)); } }; }
            case 2: { Node a = as[0], b = as[1]; return new Node() { Object eval(Object[] f) { IFn g = RT.fn(fn.eval(f)); return g.invoke(a.eval(f), b.eval(f)); } }; }
            default: return new Node() { Object eval(Object[] f) { IFn g = RT.fn(fn.eval(f)); return g.invoke(evalAll(as, f)); } };
        }
    }
    static Node body(List l, int from, Env env, boolean tail) {
        int n = l.size() - from;
        if (n <= 0) return new Const(null);
        if (n == 1) return compile(l.get(from), env, tail);
        Node[] ns = new Node[n];
        for (int i = 0; i < n; i++) ns[i] = compile(l.get(from + i), env, tail && i == n - 1);
        return new Node() { Object eval(Object[] f) { for (int i = 0; i < ns.length - 1; i++) ns[i].eval(f); return ns[ns.length - 1].eval(f); } };
    }

    // ---- destructuring
    static void destructure(Object pat, Object init, List out) {
        if (pat instanceof Symbol) {
            Symbol p = (Symbol) pat;
            if (p.ns != null) throw err("Can't let qualified name: " + p);
            out.add(p); out.add(init); return;
        }
        if (pat instanceof IPersistentVector) {
            Symbol v = gensym("vec__");
            out.add(v); out.add(init);
            List p = (List) pat; long n = 0;
            boolean amp = p.contains(sym("&"));
            Symbol sq = null;
            for (int i = 0; i < p.size(); i++) {
                Object x = p.get(i);
                if (sym("&").equals(x)) { destructure(p.get(++i), RT.list(csym("nthnext"), v, n), out); }
                else if (x == RT.kw("as")) destructure(p.get(++i), v, out);
                else destructure(x, RT.list(csym("nth"), v, n++, null), out);
            }
            return;
        }
        if (pat instanceof IPersistentMap) {
            Symbol m = gensym("map__");
            out.add(m); out.add(init);
            out.add(m); out.add(RT.list(csym("seq-to-map-for-destructuring*"), m));
            Map p = (Map) pat;
            Object as = p.get(RT.kw("as"));
            if (as != null) { out.add(as); out.add(m); }
            Object or = p.get(RT.kw("or"));
            for (Object e0 : p.entrySet()) {
                Map.Entry e = (Map.Entry) e0; Object k = e.getKey();
                if (k == RT.kw("as") || k == RT.kw("or")) continue;
                if (k instanceof Keyword) {
                    Keyword kk = (Keyword) k; String kind = kk.sym.name, kns = kk.sym.ns;
                    if (!kind.equals("keys") && !kind.equals("syms") && !kind.equals("strs")) throw err("Unsupported binding form: " + k);
                    for (Object s0 : (List) e.getValue()) {
                        String nm, sns;
                        if (s0 instanceof Keyword) { nm = ((Keyword) s0).sym.name; sns = ((Keyword) s0).sym.ns; } else { nm = ((Symbol) s0).name; sns = ((Symbol) s0).ns; }
                        if (sns == null) sns = kns;
                        Object key = kind.equals("keys") ? Keyword.intern(sns, nm) : kind.equals("syms") ? RT.list(sym("quote"), Symbol.intern(sns, nm)) : nm;
                        bindKey(sym(nm), m, key, or, out);
                    }
                } else bindKey(k, m, e.getValue(), or, out);
            }
            return;
        }
        throw err("Unsupported binding form: " + RT.prStr(pat));
    }
    static void bindKey(Object local, Symbol m, Object key, Object or, List out) {
        Object g = local instanceof Symbol && RT.contains(or == null ? PersistentArrayMap.EMPTY : or, local) ? RT.list(csym("get"), m, key, RT.get(or, local)) : RT.list(csym("get"), m, key);
        destructure(local, g, out);
    }

    // ---- let, loop, fn
    static Node let(List binds, List form, int from, Env env, boolean tail) {
        if (binds.size() % 2 != 0) throw err("let requires an even number of forms in binding vector");
        ArrayList flat = new ArrayList();
        for (int i = 0; i < binds.size(); i += 2) destructure(binds.get(i), binds.get(i + 1), flat);
        int n = flat.size() / 2;
        Node[] inits = new Node[n]; int[] slots = new int[n];
        Env e = env;
        for (int i = 0; i < n; i++) {
            Symbol s = (Symbol) flat.get(2 * i);
            inits[i] = compile(flat.get(2 * i + 1), e.recur(null), false);
            LocalB b = new LocalB(s, env.fn, env.fn.slot());
            slots[i] = b.slot; e = e.bind(b);
        }
        Node body = body(form, from, e, tail);
        if (n == 1) { Node i0 = inits[0]; int s0 = slots[0]; return new Node() { Object eval(Object[] f) { f[s0] = i0.eval(f); return body.eval(f); } }; }
        return new Node() { Object eval(Object[] f) { for (int i = 0; i < n; i++) f[slots[i]] = inits[i].eval(f); return body.eval(f); } };
    }
    static Node loop(List binds, List form, Env env) {
        boolean simple = true;
        for (int i = 0; i < binds.size(); i += 2) simple &= binds.get(i) instanceof Symbol;
        if (!simple) {
            ArrayList outer = new ArrayList(), lp = new ArrayList(), inner = new ArrayList();
            for (int i = 0; i < binds.size(); i += 2) {
                Object p = binds.get(i);
                Symbol g = p instanceof Symbol ? (Symbol) p : gensym("loop__");
                outer.add(g); outer.add(binds.get(i + 1)); outer.add(p); outer.add(g);
                lp.add(g); lp.add(g); inner.add(p); inner.add(g);
            }
            ArrayList bodyForms = new ArrayList(); bodyForms.add(sym("let*")); bodyForms.add(PersistentVector.of(inner.toArray())); bodyForms.addAll(form.subList(2, form.size()));
            return compile(RT.list(sym("let*"), PersistentVector.of(outer.toArray()), RT.list(sym("loop*"), PersistentVector.of(lp.toArray()), PersistentList.create(bodyForms))), env, false);
        }
        int n = binds.size() / 2;
        Node[] inits = new Node[n]; int[] slots = new int[n];
        Env e = env;
        for (int i = 0; i < n; i++) {
            inits[i] = compile(binds.get(2 * i + 1), e.recur(null), false);
            LocalB b = new LocalB((Symbol) binds.get(2 * i), env.fn, env.fn.slot());
            slots[i] = b.slot; e = e.bind(b);
        }
        Node body = body(form, 2, e.recur(slots), true);
        return new Node() { Object eval(Object[] f) { for (int i = 0; i < n; i++) f[slots[i]] = inits[i].eval(f); Object r; do { r = body.eval(f); } while (r == RECUR); return r; } };
    }
    static FnNode fn(List form, Env env) {
        int i = 1;
        Symbol name = null;
        if (form.size() > 1 && form.get(1) instanceof Symbol) { name = (Symbol) form.get(1); i = 2; }
        ArrayList<List> arities = new ArrayList<>();
        if (i < form.size() && form.get(i) instanceof IPersistentVector) arities.add(form.subList(i, form.size()));
        else for (; i < form.size(); i++) { if (!(form.get(i) instanceof ISeq)) throw err("Invalid fn form"); arities.add(listOf(form.get(i))); }
        if (arities.isEmpty()) throw err("Parameter declaration missing");
        FnScope sc = new FnScope(env.fn);
        FnNode n = new FnNode();
        n.name = ns().name + "/" + (name == null ? "fn" : name.name);
        Env base = env.in(sc);
        if (name != null) base = base.bind(new LocalB(name, sc, 0));
        ArrayList<FnMethod> ms = new ArrayList<>(); int max = -1;
        for (List a : arities) {
            if (!(a.get(0) instanceof IPersistentVector)) throw err("Parameter declaration should be a vector");
            FnMethod m = new FnMethod();
            List ps = (List) a.get(0);
            sc.nslots = 1;
            ArrayList lets = new ArrayList(); ArrayList<Integer> slots = new ArrayList<>();
            Env e = base;
            for (int k = 0; k < ps.size(); k++) {
                Object p = ps.get(k);
                if (sym("&").equals(p)) { m.variadic = true; if (k + 2 != ps.size()) throw err("Unexpected parameter after &"); continue; }
                if (!m.variadic) m.req++;
                Symbol s = p instanceof Symbol ? (Symbol) p : gensym("p__");
                if (s != p) { lets.add(p); lets.add(s); }
                LocalB b = new LocalB(s, sc, sc.slot());
                slots.add(b.slot); e = e.bind(b);
            }
            List bodyForms = new ArrayList(a.subList(1, a.size()));
            if (bodyForms.size() > 1 && bodyForms.get(0) instanceof IPersistentMap && (RT.contains(bodyForms.get(0), RT.kw("pre")) || RT.contains(bodyForms.get(0), RT.kw("post")))) {
                Object c = bodyForms.remove(0);
                Object post = RT.get(c, RT.kw("post"));
                if (post != null) {
                    ArrayList w = new ArrayList(); w.add(csym("let")); w.add(RT.vec(sym("%"), PersistentList.create(concat(sym("do"), bodyForms))));
                    for (Object q : (List) post) w.add(RT.list(csym("assert"), q));
                    w.add(sym("%"));
                    bodyForms = new ArrayList(List.of(PersistentList.create(w)));
                }
                int at = 0;
                if (RT.get(c, RT.kw("pre")) != null) for (Object q : (List) RT.get(c, RT.kw("pre"))) bodyForms.add(at++, RT.list(csym("assert"), q));
            }
            int[] rs = slots.stream().mapToInt(x -> x).toArray();
            e = e.recur(rs);
            m.body = lets.isEmpty() ? body(bodyForms, 0, e, true) : let(lets, bodyForms, 0, e, true);
            m.nslots = sc.nslots;
            ms.add(m);
            if (m.variadic) { if (n.variadic != null) throw err("Can't have more than 1 variadic overload"); n.variadic = m; } else max = Math.max(max, m.req);
        }
        n.fixed = new FnMethod[max + 1];
        for (FnMethod m : ms) if (!m.variadic) { if (n.fixed[m.req] != null) throw err("Can't have 2 overloads with same arity"); n.fixed[m.req] = m; }
        n.caps = new Node[sc.caps.size()];
        for (Map.Entry<LocalB, Integer> e : sc.caps.entrySet()) n.caps[e.getValue()] = local(e.getKey(), env.fn);
        return n;
    }
    static List concat(Object a, List b) { ArrayList l = new ArrayList(); l.add(a); l.addAll(b); return l; }

    static void sp(String names, Special s) { for (String n : names.split(" ")) specials.put(n, s); }
    static {
        sp("quote", (l, env, t) -> new Const(l.get(1)));
        sp("do", (l, env, t) -> body(l, 1, env, t));
        sp("if", (l, env, t) -> {
            if (l.size() < 3 || l.size() > 4) throw err("Wrong number of args to if");
            Node c = compile(l.get(1), env, false), a = compile(l.get(2), env, t), b = l.size() > 3 ? compile(l.get(3), env, t) : new Const(null);
            return new Node() { Object eval(Object[] f) { Object o = c.eval(f); return (o != null && o != Boolean.FALSE && (o == Boolean.TRUE || RT.truth(o)) ? a : b).eval(f); } };
        });
        sp("let let*", (l, env, t) -> { if (!(l.get(1) instanceof IPersistentVector)) throw err("let requires a vector for its binding"); return let((List) l.get(1), l, 2, env, t); });
        sp("loop loop*", (l, env, t) -> loop((List) l.get(1), l, env));
        sp("fn fn*", (l, env, t) -> fn(l, env));
        sp("letfn letfn*", (l, env, t) -> {
            ArrayList<List> fs = new ArrayList<>();
            for (Object o : (List) l.get(1)) fs.add(concat(sym("fn*"), listOf(o)));
            Env e = env; int n = fs.size(); int[] slots = new int[n]; FnNode[] fn = new FnNode[n];
            for (int i = 0; i < n; i++) { LocalB b = new LocalB((Symbol) fs.get(i).get(1), env.fn, env.fn.slot()); slots[i] = b.slot; e = e.bind(b); }
            for (int i = 0; i < n; i++) fn[i] = fn(fs.get(i), e);
            Node body = body(l, 2, e, t);
            return node(f -> { for (int i = 0; i < n; i++) f[slots[i]] = fn[i].alloc(); for (int i = 0; i < n; i++) fn[i].fill((FnObj) f[slots[i]], f); return body.eval(f); });
        });
        sp("recur", (l, env, t) -> {
            if (!t || env.recurSlots == null) throw err("Can only recur from tail position");
            int[] s = env.recurSlots; Node[] as = nodes(l, 1, env);
            if (as.length != s.length) throw err("Mismatched argument count to recur, expected: " + s.length + " args, got: " + as.length);
            return node(f -> { Object[] v = evalAll(as, f); for (int i = 0; i < s.length; i++) f[s[i]] = v[i]; return RECUR; });
        });
        sp("var", (l, env, t) -> { Object v = resolveIn(ns(), (Symbol) l.get(1), false); if (!(v instanceof Var)) throw err("Unable to resolve var: " + l.get(1) + " in this context"); return new Const(v); });
        sp("def", (l, env, t) -> {
            Symbol s = (Symbol) l.get(1);
            String doc = l.size() == 4 && l.get(2) instanceof String ? (String) l.get(2) : null;
            boolean has = l.size() > 2;
            Var v = s.ns == null ? ns().intern(s) : (Var) resolveIn(ns(), s, false);
            Object m = s.meta();
            if (m == null) m = PersistentArrayMap.EMPTY;
            Keyword[] flags = {RT.kw("dynamic"), RT.kw("macro"), RT.kw("private")};
            if (RT.get(m, flags[0]) instanceof Boolean && RT.truth(RT.get(m, flags[0]))) v.dynamic = true;
            Object m2 = doc == null ? m : RT.assoc(m, RT.kw("doc"), doc);
            Node mn = compile(RT.dissoc(m2, RT.kw("tag")), env, false);
            Node init = has ? compile(l.get(l.size() - 1), env, false) : null;
            return node(f -> { if (init != null) v.root = init.eval(f); v.setMeta(mn.eval(f)); return v; });
        });
        sp("defmacro", (l, env, t) -> {
            Symbol s = (Symbol) l.get(1);
            int i = 2;
            while (i < l.size() && (l.get(i) instanceof String || l.get(i) instanceof IPersistentMap)) i++;
            ArrayList fn = new ArrayList(); fn.add(sym("fn*")); fn.add(sym(s.name));
            List rest = l.subList(i, l.size());
            List<List> ars = new ArrayList<>();
            if (rest.get(0) instanceof IPersistentVector) ars.add(rest); else for (Object o : rest) ars.add(listOf(o));
            for (List a : ars) { ArrayList ps = new ArrayList(); ps.add(sym("&form")); ps.add(sym("&env")); for (Object p : (List) a.get(0)) ps.add(p); ArrayList x = new ArrayList(); x.add(PersistentVector.of(ps.toArray())); x.addAll(a.subList(1, a.size())); fn.add(PersistentList.create(x)); }
            Var v = ns().intern(s);
            Node n = fn(fn, env);
            return node(f -> { v.root = n.eval(f); v.setMeta(RT.assoc(PersistentArrayMap.EMPTY, RT.kw("macro"), true)); v.macro = true; return v; });
        });
        sp("throw", (l, env, t) -> { Node n = compile(l.get(1), env, false); return node(f -> { Object o = n.eval(f); throw RT.sneaky(RT.cast(Throwable.class, o)); }); });
        sp("try", (l, env, t) -> {
            Env e0 = env.recur(null);
            ArrayList bodyForms = new ArrayList(); ArrayList<Object[]> catches = new ArrayList<>(); Node fin = null;
            for (Object o : l.subList(1, l.size())) {
                Object op = o instanceof ISeq ? RT.first(o) : null;
                if (sym("catch").equals(op)) {
                    List c = listOf(o);
                    Object k = c.get(1); Class cl = k instanceof Symbol ? Interop.classFor(((Symbol) k).toString(), ns()) : null;
                    if (cl == null) throw err("Unable to resolve classname: " + k);
                    LocalB b = new LocalB((Symbol) c.get(2), env.fn, env.fn.slot());
                    catches.add(new Object[]{cl, b.slot, body(c, 3, e0.bind(b), false)});
                } else if (sym("finally").equals(op)) fin = body(listOf(o), 1, e0, false);
                else bodyForms.add(o);
            }
            Node body = body(bodyForms, 0, e0, false); Node fi = fin;
            return new Node() { Object eval(Object[] f) {
                try { return body.eval(f); }
                catch (Throwable x) {
                    for (Object[] c : catches) if (((Class) c[0]).isInstance(x)) { f[(Integer) c[1]] = x; return ((Node) c[2]).eval(f); }
                    throw RT.sneaky(x);
                } finally { if (fi != null) fi.eval(f); }
            } };
        });
        sp("new", (l, env, t) -> Interop.construct(((Symbol) l.get(1)).toString(), nodes(l, 2, env)));
        sp(".", (l, env, t) -> {
            Object m = l.get(2); Object target = l.get(1);
            List args = m instanceof ISeq ? listOf(m) : l.subList(2, l.size());
            String name = ((Symbol) args.get(0)).name;
            Class c = target instanceof Symbol && env.find((Symbol) target) == null ? Interop.classFor(target.toString(), ns()) : null;
            if (c != null) return Interop.staticCall(c, name, nodes(args, 1, env));
            ArrayList x = new ArrayList(); x.add(target); x.addAll(args.subList(1, args.size()));
            return Interop.instance(name, target, nodes(x, 0, env));
        });
        sp("set!", (l, env, t) -> {
            Object v = l.get(1);
            Object o = v instanceof Symbol && env.find((Symbol) v) == null ? resolveIn(ns(), (Symbol) v, true) : null;
            if (!(o instanceof Var)) throw err("Invalid assignment target");
            Node n = compile(l.get(2), env, false);
            return node(f -> ((Var) o).set(n.eval(f)));
        });
        sp("monitor-enter monitor-exit", (l, env, t) -> { Node n = compile(l.get(1), env, false); return node(f -> { n.eval(f); return null; }); });
        sp("case", (l, env, t) -> {
            Node e = compile(l.get(1), env, false);
            HashMap<Object, Node> m = new HashMap<>();
            int i = 2;
            for (; i + 1 < l.size(); i += 2) {
                Object k = l.get(i); Node v = compile(l.get(i + 1), env, t);
                for (Object o : k instanceof ISeq ? listOf(k) : Collections.singletonList(k)) if (m.put(new Key(o), v) != null) throw new CompilerException("case", new IllegalArgumentException("Duplicate case test constant: " + RT.prStr(o)));
            }
            Node d = i < l.size() ? compile(l.get(i), env, t) : null;
            return new Node() { Object eval(Object[] f) {
                Object o = e.eval(f);
                Node n = m.get(new Key(o));
                if (n == null) n = d;
                if (n == null) throw new IllegalArgumentException("No matching clause: " + RT.str(o));
                return n.eval(f);
            } };
        });
        sp("reify reify*", (l, env, t) -> Interop.reify(l, env));
        sp("import import*", (l, env, t) -> { Interop.doImport(l.subList(1, l.size())); return new Const(null); });
    }
}
