package clojure.lang;
import java.lang.reflect.*;
import java.math.*;
import java.util.*;
import java.util.concurrent.ConcurrentHashMap;

final class Exit extends Error { final int code; Exit(int c) { super("exit " + c, null, false, false); code = c; } }
/** calls of Java from Clojure, by reflection */
final class Interop {
    static final ConcurrentHashMap<String, Optional<Class>> classes = new ConcurrentHashMap<>();
    static final String[] AUTO = {"java.lang.", "clojure.lang.Compiler$"};
    static Class forName(String n) {
        return classes.computeIfAbsent(n, k -> { try { return Optional.of(Class.forName(k, false, Interop.class.getClassLoader())); } catch (Throwable e) { return Optional.empty(); } }).orElse(null);
    }
    static final Map<String, Class> PRIM = Map.of("int", int.class, "long", long.class, "double", double.class, "float", float.class, "boolean", boolean.class, "char", char.class, "byte", byte.class, "short", short.class);
    static Class classFor(String n, Namespace ns) {
        if (n.isEmpty()) return null;
        Object o = ns == null ? null : ns.mappings.get(n);
        if (o instanceof Class) return (Class) o;
        if (n.indexOf('.') > 0 && !n.endsWith(".")) return forName(n);
        if (!Character.isUpperCase(n.charAt(0))) return null;
        switch (n) { case "BigInteger": return BigInteger.class; case "BigDecimal": return BigDecimal.class; case "Callable": return java.util.concurrent.Callable.class; }
        return forName("java.lang." + n);
    }
    static void doImport(List specs) {
        Namespace ns = Compiler.ns();
        for (Object s : specs) {
            if (s instanceof ISeq && Compiler.sym("quote").equals(RT.first(s))) s = RT.second(s);
            if (s instanceof Symbol || s instanceof String) importClass(ns, s.toString());
            else { List l = Compiler.listOf(s); for (Object c : l.subList(1, l.size())) importClass(ns, l.get(0) + "." + c); }
        }
    }
    static void importClass(Namespace ns, String n) {
        Class c = forName(n);
        if (c == null) throw RT.sneaky(new ClassNotFoundException(n));
        ns.mappings.put(n.substring(n.lastIndexOf('.') + 1), c);
    }
    // ---- argument conversion
    static int score(Class p, Object a) {
        if (a == null) return p.isPrimitive() ? -1 : 3;
        if (p.isPrimitive()) {
            if (p == boolean.class) return a instanceof Boolean ? 10 : -1;
            if (p == char.class) return a instanceof Character ? 10 : -1;
            if (!(a instanceof Number)) return -1;
            boolean fl = a instanceof Double || a instanceof Float;
            if (!(fl || a instanceof Long || a instanceof Integer || a instanceof Short || a instanceof Byte)) return -1;
            if (p == double.class) return fl ? 10 : 4; if (p == float.class) return fl ? 8 : 3;
            if (fl) return -1;
            if (p == long.class) return a instanceof Long ? 10 : 8;
            if (p == int.class) return a instanceof Integer ? 10 : 9;
            return 2;
        }
        if (p.isInstance(a)) return p == a.getClass() ? 10 : p == Object.class ? 1 : p.isInterface() ? 6 : 7;
        if (p == Integer.class && a instanceof Long || p == Double.class && a instanceof Number && false) return 2;
        if (a instanceof IFn && p.isInterface() && p.getName().startsWith("java")) { for (Method m : p.getMethods()) if (Modifier.isAbstract(m.getModifiers())) return 2; }
        return -1;
    }
    static Object convert(Class p, Object a) {
        if (a == null) return null;
        if (p.isPrimitive() && a instanceof Number) {
            Number n = (Number) a;
            if (p == long.class) return n.longValue(); if (p == int.class) { if (n.longValue() != n.intValue()) throw new IllegalArgumentException("Value out of range for int: " + n); return n.intValue(); }
            if (p == double.class) return n.doubleValue(); if (p == float.class) return n.floatValue(); if (p == short.class) return n.shortValue(); if (p == byte.class) return n.byteValue();
        }
        if (p == Integer.class && a instanceof Long) return ((Long) a).intValue();
        if (!p.isInstance(a) && a instanceof IFn && p.isInterface()) { IFn f = (IFn) a; return Proxy.newProxyInstance(Interop.class.getClassLoader(), new Class[]{p}, (x, m, as) -> m.isDefault() ? InvocationHandler.invokeDefault(x, m, as) : f.invoke(as == null ? RT.NOARGS : as)); }
        return a;
    }
    static <E extends Executable> E choose(List<E> cands, Object[] args, String what) {
        E best = null; int bs = -1;
        for (E e : cands) {
            Class[] ps = e.getParameterTypes(); int s = 0;
            for (int i = 0; i < ps.length; i++) { int k = score(ps[i], args[i]); if (k < 0) { s = -1; break; } s += k; }
            if (s > bs) { bs = s; best = e; }
        }
        if (best == null) throw new IllegalArgumentException("No matching " + what);
        return best;
    }
    static Object[] convertAll(Class[] ps, Object[] args) { Object[] r = new Object[args.length]; for (int i = 0; i < r.length; i++) r[i] = convert(ps[i], args[i]); return r; }
    static final ConcurrentHashMap<List, List<Method>> methods = new ConcurrentHashMap<>();
    static boolean reachable(Class c) { return Modifier.isPublic(c.getModifiers()) && (!c.getModule().isNamed() || c.getModule().isExported(c.getPackageName())) || !c.getModule().isNamed(); }
    static List<Method> find(Class c, String name, int n, boolean stat) {
        return methods.computeIfAbsent(List.of(c, name, n, stat), k -> {
            LinkedHashMap<List, Method> r = new LinkedHashMap<>();
            ArrayDeque<Class> q = new ArrayDeque<>(); q.add(c); HashSet<Class> seen = new HashSet<>();
            while (!q.isEmpty()) {
                Class x = q.poll();
                if (!seen.add(x)) continue;
                if (reachable(x)) for (Method m : x.getDeclaredMethods())
                    if (m.getName().equals(name) && m.getParameterCount() == n && Modifier.isStatic(m.getModifiers()) == stat && (Modifier.isPublic(m.getModifiers()) || x.isInterface()) && !m.isBridge()) { if (!x.getModule().isNamed()) m.setAccessible(true); r.putIfAbsent(Arrays.asList(m.getParameterTypes()), m); }
                if (x.getSuperclass() != null) q.add(x.getSuperclass());
                q.addAll(Arrays.asList(x.getInterfaces()));
                if (x.isInterface()) q.add(Object.class);
            }
            return new ArrayList<>(r.values());
        });
    }
    static Object call(Method m, Object o, Object[] args) {
        try { return RT.box2(m.invoke(o, convertAll(m.getParameterTypes(), args)), m.getReturnType()); }
        catch (InvocationTargetException e) { throw RT.sneaky(e.getCause()); }
        catch (IllegalAccessException e) { throw RT.sneaky(e); }
    }
    static Object invokeInstance(Object o, String name, Object[] args) {
        if (o == null) throw new NullPointerException("Cannot invoke \"" + name + "\" because value is null");
        if (o instanceof Class) { List<Method> s = find(Class.class, name, args.length, false); return call(choose(s, args, "method " + name), o, args); }
        List<Method> ms = find(o.getClass(), name, args.length, false);
        if (ms.isEmpty() && args.length == 0) { Field f = field(o.getClass(), name); if (f != null) return get(f, o); }
        if (ms.isEmpty()) throw new IllegalArgumentException(args.length == 0 ? "No matching field found: " + name + " for class " + o.getClass().getName() : "No matching method " + name + " found taking " + args.length + " args for class " + o.getClass().getName());
        return call(choose(ms, args, "method " + name + " found taking " + args.length + " args for class " + o.getClass().getName()), o, args);
    }
    static Field field(Class c, String n) { try { Field f = c.getField(n); return f; } catch (NoSuchFieldException e) { return null; } }
    static Object get(Field f, Object o) { try { return RT.box2(f.get(o), f.getType()); } catch (IllegalAccessException e) { throw RT.sneaky(e); } }
    static Object invokeStatic(Class c, String name, Object[] args) {
        if (c == System.class && name.equals("exit")) throw new Exit(((Number) args[0]).intValue());
        if (c == System.class && name.equals("getenv")) return args.length == 0 ? Lib.env() : Lib.env().get(args[0]);
        if (c == Runtime.class && false) return null;
        List<Method> ms = find(c, name, args.length, true);
        if (ms.isEmpty()) throw new IllegalArgumentException("No matching method " + name + " found taking " + args.length + " args for class " + c.getName());
        return call(choose(ms, args, "method " + name + " found taking " + args.length + " args for class " + c.getName()), null, args);
    }
    static Object make(Class c, Object[] args) {
        List<Constructor> l = new ArrayList<>();
        for (Constructor k : c.getConstructors()) if (k.getParameterCount() == args.length) l.add(k);
        if (l.isEmpty()) for (Constructor k : c.getDeclaredConstructors()) if (k.getParameterCount() == args.length && !c.getModule().isNamed()) { k.setAccessible(true); l.add(k); }
        Constructor k = choose(l, args, "ctor found for class " + c.getName());
        try { return k.newInstance(convertAll(k.getParameterTypes(), args)); }
        catch (InvocationTargetException e) { throw RT.sneaky(e.getCause()); }
        catch (ReflectiveOperationException e) { throw RT.sneaky(e); }
    }
    // ---- nodes
    static Node construct(String name, Node[] as) {
        Class c = classFor(name, Compiler.ns());
        if (c == null) throw Compiler.err("Unable to resolve classname: " + name);
        return Compiler.node(f -> make(c, Compiler.evalAll(as, f)));
    }
    static Node instance(String name, Object targetForm, Node[] as) {
        if (name.startsWith("-")) { String n = name.substring(1); return Compiler.node(f -> { Object o = as[0].eval(f); Field x = field(o.getClass(), n); if (x == null) throw new IllegalArgumentException("No matching field found: " + n + " for class " + o.getClass().getName()); return get(x, o); }); }
        return Compiler.node(f -> { Object[] a = Compiler.evalAll(as, f); return invokeInstance(a[0], name, Arrays.copyOfRange(a, 1, a.length)); });
    }
    static Node staticCall(Class c, String name, Node[] as) {
        if (name.startsWith(".")) return instance(name.substring(1), null, as);
        if (name.equals("new")) return Compiler.node(f -> make(c, Compiler.evalAll(as, f)));
        if (as.length == 0 && find(c, name, 0, true).isEmpty()) { Field x = field(c, name); if (x != null) return Compiler.node(f -> get(x, null)); }
        return Compiler.node(f -> invokeStatic(c, name, Compiler.evalAll(as, f)));
    }
    static Node member(Class c, String name) {
        if (name.startsWith(".")) { String n = name.substring(1); return new Const(new AFunction() { public Object invoke(Object... a) { return invokeInstance(a[0], n, Arrays.copyOfRange(a, 1, a.length)); } }); }
        if (name.equals("new")) return new Const(new AFunction() { public Object invoke(Object... a) { return make(c, a); } });
        Field f = field(c, name);
        if (f != null) return Compiler.node(x -> get(f, null));
        for (Method m : c.getMethods()) if (m.getName().equals(name)) return new Const(new AFunction() { public Object invoke(Object... a) { return invokeStatic(c, name, a); } });
        throw Compiler.err("Unable to find static field: " + name + " in class " + c.getName());
    }
    static Node reify(List l, Env env) {
        ArrayList<Class> ifs = new ArrayList<>(); ArrayList<String> names = new ArrayList<>(); ArrayList<FnNode> fns = new ArrayList<>();
        for (Object o : l.subList(1, l.size())) {
            if (o instanceof Symbol) { Class c = classFor(o.toString(), Compiler.ns()); if (c == null) throw Compiler.err("Unable to resolve interface: " + o); if (c != Object.class) ifs.add(c); }
            else { List m = Compiler.listOf(o); names.add(((Symbol) m.get(0)).name); fns.add(Compiler.fn(Compiler.concat(Compiler.sym("fn*"), m), env)); }
        }
        Class[] ic = ifs.toArray(new Class[0]);
        return Compiler.node(f -> {
            HashMap<String, IFn> ms = new HashMap<>();
            for (int i = 0; i < names.size(); i++) ms.put(names.get(i) + "/" + arity(fns.get(i)), (IFn) fns.get(i).eval(f));
            return Proxy.newProxyInstance(Interop.class.getClassLoader(), ic, (self, m, as) -> {
                IFn g = ms.get(m.getName() + "/" + (1 + (as == null ? 0 : as.length)));
                if (g == null) { if (m.isDefault()) return InvocationHandler.invokeDefault(self, m, as); switch (m.getName()) { case "toString": return "reify"; case "hashCode": return System.identityHashCode(self); case "equals": return self == as[0]; } throw new AbstractMethodError(m.getName()); }
                Object[] a = new Object[1 + (as == null ? 0 : as.length)]; a[0] = self; if (as != null) System.arraycopy(as, 0, a, 1, as.length);
                Object r = g.invoke(a); Class t = m.getReturnType();
                return t == void.class ? null : r instanceof Number && (t.isPrimitive()) ? convert(t, r) : r;
            });
        });
    }
    static int arity(FnNode n) { return n.fixed.length - 1; }
}
