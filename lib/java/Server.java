import java.io.*;
import java.lang.reflect.*;
import java.math.BigInteger;
import java.net.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import javax.tools.*;
import zserio.runtime.io.*;
import zserio.runtime.typeinfo.*;

/** Persistent helper: runs the zserio compiler, javac and generated Java classes. One request per line (tab separated). */
public final class Server
{
    static PrintStream out;
    static URLClassLoader loader;
    static Map<String, Comp> comps = new HashMap<>();
    static List<Comp> compList = new ArrayList<>();

    public static void main(String[] a) throws Exception
    {
        out = new PrintStream(new FileOutputStream(FileDescriptor.out), true, "UTF-8");
        System.setOut(new PrintStream(new ByteArrayOutputStream(), true, "UTF-8"));
        final BufferedReader in = new BufferedReader(new InputStreamReader(System.in, StandardCharsets.UTF_8));
        String line;
        while ((line = in.readLine()) != null)
        {
            final String[] p = line.split("\t", -1);
            final String[] res = new String[1];
            // own thread with a big stack so that deep recursion is a normal error
            final Thread th = new Thread(null, () -> {
                try
                {
                    res[0] = handle(p);
                }
                catch (InvocationTargetException e)
                {
                    res[0] = "ERR\t" + cls(e.getCause());
                }
                catch (Throwable e)
                {
                    StringWriter sw = new StringWriter();
                    if (!(e instanceof OutOfMemoryError))
                        e.printStackTrace(new PrintWriter(sw));
                    res[0] = "FAIL\t" + clean(e.toString() + " " + sw);
                }
            }, "req", 64L << 20);
            th.start();
            th.join();
            out.println(res[0]);
            out.flush();
        }
    }

    static String clean(String s)
    {
        return s == null ? "" : s.replace("\t", " ").replace("\n", "\\n").replace("\r", "");
    }

    static String cls(Throwable e)
    {
        while (e instanceof InvocationTargetException && e.getCause() != null)
            e = e.getCause();
        String where = "";
        if (e instanceof RuntimeException || e instanceof Error)
        {
            StackTraceElement[] st = e.getStackTrace();
            if (st.length > 0)
                where = " at " + st[0];
        }
        return e.getClass().getName() + "\t" + clean(e.getMessage() + where);
    }

    static String handle(String[] p) throws Throwable
    {
        switch (p[0])
        {
        case "ZS":
            return zs(p);
        case "JC":
            return jc(p[1], p[2]);
        case "LOAD":
            return load(p[1], p[2]);
        case "W":
            return w(comps.get(p[1]), Integer.parseInt(p[2]), p[3], true);
        case "N":
            return w(comps.get(p[1]), Integer.parseInt(p[2]), p[3], false);
        case "R":
            return r(comps.get(p[1]), Integer.parseInt(p[2]), Integer.parseInt(p[3]), p[4], p[5]);
        case "Q":
            return q(comps.get(p[1]), p);
        case "J":
            return json(comps.get(p[1]), p[2], p[3], p[4], p[5]);
        case "I":
            return fromJson(comps.get(p[1]), p[2], p[3], p[4], p[5]);
        default:
            return Extra.handle(p);
        }
    }

    // ------------------------------------------------------------------ compiler

    static String zs(String[] p) throws Exception
    {
        final String[] args = Arrays.copyOfRange(p, 1, p.length);
        final PrintStream so = System.out, se = System.err;
        final ByteArrayOutputStream bo = new ByteArrayOutputStream();
        final PrintStream ps = new PrintStream(bo, true, "UTF-8");
        boolean ok;
        try
        {
            System.setOut(ps);
            System.setErr(ps);
            ok = zserio.tools.ZserioTool.runTool(args, zserio.tools.ZserioTool.Executor.JAVA_MAIN);
        }
        finally
        {
            System.setOut(so);
            System.setErr(se);
        }
        return (ok ? "ok" : "bad") + "\t" + clean(bo.toString("UTF-8"));
    }

    static String jc(String src, String dst) throws Exception
    {
        final JavaCompiler c = ToolProvider.getSystemJavaCompiler();
        final List<File> files = new ArrayList<>();
        try (java.util.stream.Stream<Path> s = Files.walk(Paths.get(src)))
        {
            s.filter(f -> f.toString().endsWith(".java")).sorted().forEach(f -> files.add(f.toFile()));
        }
        Files.createDirectories(Paths.get(dst));
        final StringWriter sw = new StringWriter();
        final StandardJavaFileManager fm = c.getStandardFileManager(null, Locale.ROOT, StandardCharsets.UTF_8);
        final List<String> opts = Arrays.asList("-proc:none", "-nowarn", "-encoding", "utf8", "-d", dst, "-cp",
                System.getProperty("java.class.path"), "-XDuseUnsharedTable=true");
        final boolean ok = files.isEmpty() || c.getTask(sw, fm, null, opts, null, fm.getJavaFileObjectsFromFiles(files)).call();
        fm.close();
        return (ok ? "ok" : "bad") + "\t" + clean(sw.toString());
    }

    static final class Fld
    {
        String name; String type; boolean arr; boolean opt; boolean ext; Comp comp; String cls;
        Method get, set, used, present;
    }

    static final class Comp
    {
        String id, kind, cname;
        Class<?> c;
        List<Fld> params = new ArrayList<>(), fields = new ArrayList<>(), funcs = new ArrayList<>();
        Constructor<?> ctor, rctor;
    }

    static String cap(String s)
    {
        return Character.toUpperCase(s.charAt(0)) + s.substring(1);
    }

    static String load(String dir, String desc) throws Exception
    {
        if (loader != null)
            loader.close();
        loader = new URLClassLoader(new URL[] {new File(dir).toURI().toURL()}, Server.class.getClassLoader());
        comps.clear();
        compList.clear();
        Comp cur = null;
        final List<Fld> all = new ArrayList<>();
        for (String line : Files.readAllLines(Paths.get(desc), StandardCharsets.UTF_8))
        {
            final String[] t = line.split(" ");
            if (t[0].equals("C"))
            {
                cur = new Comp();
                cur.id = t[1];
                cur.kind = t[2];
                cur.cname = t[3];
                comps.put(cur.id, cur);
                compList.add(cur);
                continue;
            }
            if (cur == null)
                continue;
            final Fld f = new Fld();
            f.name = t[1];
            f.type = t[2];
            if (f.type.indexOf(':') > 0)
            {
                f.cls = f.type.substring(2);
                f.type = f.type.substring(0, 1);
            }
            if (t[0].equals("P"))
                cur.params.add(f);
            else if (t[0].equals("F"))
            {
                f.arr = t[3].equals("1");
                f.opt = t[4].equals("1");
                f.ext = t[5].equals("1");
                cur.fields.add(f);
            }
            else
                cur.funcs.add(f);
            all.add(f);
        }
        for (Fld f : all)
            if (f.type.equals("O"))
                f.comp = comps.get(f.cls);
        for (Comp c : compList)
            resolve(c);
        return "ok\t" + compList.size();
    }

    static void resolve(Comp c) throws Exception
    {
        c.c = Class.forName(c.cname, true, loader);
        for (Constructor<?> k : c.c.getConstructors())
        {
            final Class<?>[] pt = k.getParameterTypes();
            final boolean reader = pt.length > 0 && pt[0] == BitStreamReader.class;
            if (reader && pt.length == c.params.size() + 1)
                c.rctor = k;
            else if (!reader && pt.length == c.params.size() && !(pt.length > 0 && pt[0].getSimpleName().equals("PackingContext")))
                c.ctor = k;
        }
        for (Fld f : c.params)
            f.get = c.c.getMethod("get" + cap(f.name));
        for (Fld f : c.fields)
        {
            final String n = cap(f.name);
            f.get = c.c.getMethod("get" + n);
            for (Method m : c.c.getMethods())
            {
                if (m.getName().equals("set" + n) && m.getParameterCount() == 1)
                    f.set = m;
                if (m.getName().equals("is" + n + "Used") && m.getParameterCount() == 0)
                    f.used = m;
                if (m.getName().equals("is" + n + "Present") && m.getParameterCount() == 0)
                    f.present = m;
            }
        }
        for (Fld f : c.funcs)
            f.get = c.c.getMethod("func" + cap(f.name));
    }

    // ------------------------------------------------------------------ building

    static final class Tok
    {
        final StringTokenizer st;
        final List<Object> reg = new ArrayList<>();
        String peeked;

        Tok(String s)
        {
            st = new StringTokenizer(s, " ");
        }

        String next()
        {
            if (peeked != null)
            {
                final String r = peeked;
                peeked = null;
                return r;
            }
            return st.nextToken();
        }

        String peek()
        {
            if (peeked == null)
                peeked = st.nextToken();
            return peeked;
        }

        void expect(String s)
        {
            final String n = next();
            if (!n.equals(s))
                throw new IllegalStateException("expected " + s + " got " + n);
        }
    }

    static byte[] unhex(String s)
    {
        final byte[] r = new byte[s.length() / 2];
        for (int i = 0; i < r.length; i++)
            r[i] = (byte)Integer.parseInt(s.substring(2 * i, 2 * i + 2), 16);
        return r;
    }

    static String hex(byte[] b)
    {
        final StringBuilder sb = new StringBuilder(b.length * 2);
        for (byte x : b)
        {
            sb.append(Character.forDigit((x >> 4) & 15, 16));
            sb.append(Character.forDigit(x & 15, 16));
        }
        return sb.toString();
    }

    static Object num(BigInteger v, Class<?> c)
    {
        if (c == byte.class || c == Byte.class)
            return v.byteValueExact();
        if (c == short.class || c == Short.class)
            return v.shortValueExact();
        if (c == int.class || c == Integer.class)
            return v.intValueExact();
        if (c == long.class || c == Long.class)
            return v.longValueExact();
        return v;
    }

    static Object enumValue(String cls, String v) throws Throwable
    {
        final Class<?> e = Class.forName(cls, true, loader);
        for (Method m : e.getMethods())
            if (m.getName().equals("toEnum") && m.getParameterCount() == 1 && m.getParameterTypes()[0] != String.class)
                return m.invoke(null, num(new BigInteger(v), m.getParameterTypes()[0]));
        throw new IllegalStateException("toEnum " + cls);
    }

    static Object maskValue(String cls, String v) throws Throwable
    {
        final Class<?> e = Class.forName(cls, true, loader);
        for (Constructor<?> k : e.getConstructors())
        {
            final Class<?>[] pt = k.getParameterTypes();
            if (pt.length == 1 && (pt[0].isPrimitive() || pt[0] == BigInteger.class))
                return k.newInstance(num(new BigInteger(v), pt[0]));
        }
        throw new IllegalStateException("mask ctor " + cls);
    }

    static Object scalar(Tok t, Fld f, Class<?> target) throws Throwable
    {
        switch (f.type.charAt(0))
        {
        case 'I':
            return num(new BigInteger(t.next()), target);
        case 'B':
            return t.next().equals("1");
        case 'F':
            {
                final double d = Double.longBitsToDouble(Long.parseUnsignedLong(t.next().substring(1), 16));
                if (target == float.class || target == Float.class)
                    return (float)d;
                return d;
            }
        case 'S':
            return new String(unhex(t.next().substring(1)), StandardCharsets.UTF_8);
        case 'Y':
            return unhex(t.next().substring(1));
        case 'X':
            {
                final String s = t.next();
                final int c = s.indexOf(':');
                return new BitBuffer(unhex(s.substring(c + 1)), Long.parseLong(s.substring(1, c)));
            }
        case 'E':
            return enumValue(f.cls, t.next());
        case 'M':
            return maskValue(f.cls, t.next());
        case 'O':
            if (t.peek().startsWith("@"))
                return t.reg.get(Integer.parseInt(t.next().substring(1)));
            return build(t, f.comp);
        default:
            throw new IllegalStateException(f.type);
        }
    }

    static Object value(Tok t, Fld f, Class<?> target) throws Throwable
    {
        if (!f.arr)
            return scalar(t, f, target);
        t.expect("[");
        final int n = Integer.parseInt(t.next());
        final Class<?> ct = target.getComponentType();
        final Object arr = Array.newInstance(ct, n);
        for (int i = 0; i < n; i++)
            Array.set(arr, i, scalar(t, f, ct));
        t.expect("]");
        return arr;
    }

    static Object[] params(Tok t, Comp c, Class<?>[] pt, int off) throws Throwable
    {
        final Object[] r = new Object[c.params.size()];
        for (int i = 0; i < r.length; i++)
            r[i] = scalar(t, c.params.get(i), pt[i + off]);
        return r;
    }

    static Object build(Tok t, Comp c) throws Throwable
    {
        return build(t, c, null);
    }

    static Object build(Tok t, Comp c, Object into) throws Throwable
    {
        t.expect("{");
        final Object[] ps = params(t, c, c.ctor.getParameterTypes(), 0);
        final Object o = into != null ? into : c.ctor.newInstance(ps);
        t.reg.add(o);
        if (c.kind.equals("S"))
        {
            for (Fld f : c.fields)
            {
                if (t.peek().equals("-") || t.peek().equals("~"))
                {
                    if (t.next().equals("-") && f.opt)
                        c.c.getMethod("reset" + cap(f.name)).invoke(o);
                    continue;
                }
                f.set.invoke(o, value(t, f, f.set.getParameterTypes()[0]));
            }
        }
        else
        {
            if (t.peek().equals("-"))
                t.next();
            else
            {
                final Fld f = c.fields.get(Integer.parseInt(t.next()));
                f.set.invoke(o, value(t, f, f.set.getParameterTypes()[0]));
            }
        }
        t.expect("}");
        return o;
    }

    // ------------------------------------------------------------------ dumping

    static void dumpScalar(StringBuilder sb, Fld f, Object v) throws Throwable
    {
        switch (f.type.charAt(0))
        {
        case 'I':
            sb.append(v);
            break;
        case 'B':
            sb.append(((Boolean)v) ? "1" : "0");
            break;
        case 'F':
            {
                final double d = ((Number)v).doubleValue();
                if (d != d)
                    sb.append("fNaN");
                else
                {
                    sb.append('f');
                    final String h = Long.toHexString(Double.doubleToRawLongBits(d));
                    for (int i = h.length(); i < 16; i++)
                        sb.append('0');
                    sb.append(h);
                }
            }
            break;
        case 'S':
            sb.append('s').append(hex(((String)v).getBytes(StandardCharsets.UTF_8)));
            break;
        case 'Y':
            sb.append('b').append(hex((byte[])v));
            break;
        case 'X':
            {
                final BitBuffer b = (BitBuffer)v;
                final byte[] d = b.getBuffer().clone();
                final int n = (int)((b.getBitSize() + 7) / 8);
                final byte[] d2 = Arrays.copyOf(d, n);
                if (b.getBitSize() % 8 != 0)
                    d2[n - 1] &= (byte)(0xff << (8 - b.getBitSize() % 8));
                sb.append('x').append(b.getBitSize()).append(':').append(hex(d2));
            }
            break;
        case 'E':
            sb.append(((zserio.runtime.ZserioEnum)v).getGenericValue());
            break;
        case 'M':
            sb.append(((zserio.runtime.ZserioBitmask)v).getGenericValue());
            break;
        case 'O':
            dump(sb, f.comp, v);
            break;
        default:
            throw new IllegalStateException();
        }
    }

    static void dumpValue(StringBuilder sb, Fld f, Object v) throws Throwable
    {
        if (v == null)
        {
            sb.append("null");
            return;
        }
        if (!f.arr)
        {
            dumpScalar(sb, f, v);
            return;
        }
        final int n = Array.getLength(v);
        sb.append("[ ").append(n).append(' ');
        for (int i = 0; i < n; i++)
        {
            dumpScalar(sb, f, Array.get(v, i));
            sb.append(' ');
        }
        sb.append(']');
    }

    static void dump(StringBuilder sb, Comp c, Object o) throws Throwable
    {
        sb.append("{ ");
        for (Fld f : c.params)
        {
            if (f.type.equals("O"))
                sb.append("@");
            else
                dumpScalar(sb, f, f.get.invoke(o));
            sb.append(' ');
        }
        if (c.kind.equals("S"))
        {
            for (Fld f : c.fields)
            {
                if (f.ext && f.present != null && !(Boolean)f.present.invoke(o))
                    sb.append('~');
                else if (f.opt && !(Boolean)f.used.invoke(o))
                    sb.append('-');
                else
                    dumpValue(sb, f, f.get.invoke(o));
                sb.append(' ');
            }
        }
        else
        {
            final int tag = (Integer)c.c.getMethod("choiceTag").invoke(o);
            if (tag < 0)
                sb.append("- ");
            else
            {
                sb.append(tag).append(' ');
                final Fld f = c.fields.get(tag);
                dumpValue(sb, f, f.get.invoke(o));
                sb.append(' ');
            }
        }
        sb.append('|');
        for (Fld f : c.funcs)
        {
            sb.append(' ');
            Object v = null;
            boolean bad = false;
            try
            {
                v = f.get.invoke(o);
            }
            catch (InvocationTargetException e)
            {
                bad = true;
            }
            if (bad || v == null)
                sb.append('!');
            else
                dumpScalar(sb, f, v);
        }
        sb.append(" }");
    }

    static String dump(Comp c, Object o) throws Throwable
    {
        final StringBuilder sb = new StringBuilder();
        dump(sb, c, o);
        return sb.toString();
    }

    // ------------------------------------------------------------------ operations

    static Object read(Comp c, BitStreamReader in, Object[] ps) throws Throwable
    {
        final Object[] a = new Object[ps.length + 1];
        a[0] = in;
        System.arraycopy(ps, 0, a, 1, ps.length);
        return c.rctor.newInstance(a);
    }

    static void pad(BitStreamWriter w, int n) throws IOException
    {
        for (int i = 0; i < n; i++)
            w.writeBits(1, 1);
    }

    static String w(Comp c, int start, String toks, boolean init) throws Throwable
    {
        final StringBuilder r = new StringBuilder("ok");
        final Tok t = new Tok(toks);
        String ph = "build";
        try
        {
            final Object o = build(t, c);
            final zserio.runtime.io.Writer wo = (zserio.runtime.io.Writer)o;
            ph = "init";
            final long end = init ? wo.initializeOffsets(start) : -1;
            ph = "size";
            final int size = ((zserio.runtime.SizeOf)o).bitSizeOf(start);
            ph = "write";
            final ByteArrayBitStreamWriter w = new ByteArrayBitStreamWriter();
            pad(w, start);
            wo.write(w);
            final long pos = w.getBitPosition();
            final byte[] bytes = w.toByteArray();
            r.append("\t").append(end).append("\t").append(size).append("\t").append(pos).append("\t").append(hex(bytes));
            ph = "dump";
            r.append("\t").append(dump(c, o));
            ph = "read";
            final ByteArrayBitStreamReader in = new ByteArrayBitStreamReader(bytes, pos);
            in.setBitPosition(start);
            final Object[] ps = params(new Tok(toks.substring(2)), c, c.ctor.getParameterTypes(), 0);
            final Object o2 = read(c, in, ps);
            r.append("\t").append(in.getBitPosition());
            ph = "dump2";
            r.append("\t").append(dump(c, o2));
            ph = "eq";
            final boolean eq = o.equals(o2) && o2.equals(o);
            r.append("\t").append(eq ? 1 : 0).append("\t").append(o.hashCode()).append("\t").append(o2.hashCode());
            ph = "rewrite";
            final ByteArrayBitStreamWriter w2 = new ByteArrayBitStreamWriter();
            pad(w2, start);
            ((zserio.runtime.io.Writer)o2).write(w2);
            r.append("\t").append(Arrays.equals(w2.toByteArray(), bytes) && w2.getBitPosition() == pos ? "same"
                    : hex(w2.toByteArray()) + ":" + w2.getBitPosition());
            return r.toString();
        }
        catch (Throwable e)
        {
            if (e instanceof IllegalStateException || e instanceof NoSuchElementException)
                throw e;
            return "err\t" + ph + "\t" + cls(e);
        }
    }

    static String json(Comp c, String mode, String indent, String path, String toks) throws Throwable
    {
        String ph = "build";
        try
        {
            final Object o = build(new Tok(toks), c);
            ph = "init";
            ((zserio.runtime.io.Writer)o).initializeOffsets(0);
            ph = "json";
            final boolean none = indent.equals("-");
            final int ind = none ? 0 : Integer.parseInt(indent);
            String js;
            if (mode.equals("N"))
            {
                final StringWriter sw = new StringWriter();
                final zserio.runtime.json.JsonWriter jw = none ? new zserio.runtime.json.JsonWriter(sw)
                                                               : new zserio.runtime.json.JsonWriter(sw, ind);
                jw.setEnumerableFormat(zserio.runtime.json.JsonWriter.EnumerableFormat.NUMBER);
                new zserio.runtime.walker.Walker(jw).walk(o);
                js = sw.toString();
            }
            else if (mode.equals("F"))
            {
                if (none)
                    zserio.runtime.DebugStringUtil.toJsonFile(o, path);
                else
                    zserio.runtime.DebugStringUtil.toJsonFile(o, path, ind);
                js = new String(Files.readAllBytes(Paths.get(path)), StandardCharsets.UTF_8);
            }
            else
                js = none ? zserio.runtime.DebugStringUtil.toJsonString(o)
                          : zserio.runtime.DebugStringUtil.toJsonString(o, ind);
            return "ok\t" + hex(js.getBytes(StandardCharsets.UTF_8));
        }
        catch (Throwable e)
        {
            if (e instanceof IllegalStateException || e instanceof NoSuchElementException)
                throw e;
            return "err\t" + ph + "\t" + cls(e);
        }
    }

    static String fromJson(Comp c, String mode, String path, String hexs, String ptoks) throws Throwable
    {
        final Object[] ps = params(new Tok(ptoks), c, c.ctor.getParameterTypes(), 0);
        String ph = "read";
        try
        {
            final String js = new String(unhex(hexs), StandardCharsets.UTF_8);
            Object o;
            if (mode.equals("F"))
            {
                Files.write(Paths.get(path), unhex(hexs));
                o = zserio.runtime.DebugStringUtil.fromJsonFile(c.c, path, ps);
            }
            else if (mode.equals("N"))
                o = zserio.runtime.DebugStringUtil.fromJsonStream(c.c, new StringReader(js), ps);
            else
                o = zserio.runtime.DebugStringUtil.fromJsonString(c.c, js, ps);
            ph = "dump";
            final String d = dump(c, o);
            ph = "write";
            final ByteArrayBitStreamWriter w2 = new ByteArrayBitStreamWriter();
            ((zserio.runtime.io.Writer)o).write(w2);
            return "ok\t" + d + "\t" + hex(w2.toByteArray()) + ":" + w2.getBitPosition();
        }
        catch (Throwable e)
        {
            return "err\t" + ph + "\t" + cls(e);
        }
    }

    static String r(Comp c, int start, int nbits, String hexs, String ptoks) throws Throwable
    {
        final byte[] bytes = unhex(hexs);
        final Object[] ps = params(new Tok(ptoks), c, c.ctor.getParameterTypes(), 0);
        final ByteArrayBitStreamReader in = new ByteArrayBitStreamReader(bytes, (long)nbits);
        String ph = "read";
        try
        {
            in.setBitPosition(start);
            final Object o = read(c, in, ps);
            final long pos = in.getBitPosition();
            ph = "dump";
            final String d = dump(c, o);
            String h2;
            try
            {
                final ByteArrayBitStreamWriter w2 = new ByteArrayBitStreamWriter();
                pad(w2, start);
                ((zserio.runtime.io.Writer)o).write(w2);
                h2 = hex(w2.toByteArray()) + ":" + w2.getBitPosition();
            }
            catch (Throwable e)
            {
                h2 = "E" + cls(e).replace("\t", " ");
            }
            return "ok\t" + pos + "\t" + d + "\t" + h2;
        }
        catch (Throwable e)
        {
            return "err\t" + ph + "\t" + cls(e);
        }
    }

    /** builds n objects, compares all pairs */
    static String q(Comp c, String[] p) throws Throwable
    {
        final int n = p.length - 3;
        final Object[] o = new Object[n];
        try
        {
            for (int i = 0; i < n; i++)
                o[i] = build(new Tok(p[3 + i]), c);
        }
        catch (Throwable e)
        {
            if (e instanceof IllegalStateException || e instanceof NoSuchElementException)
                throw e;
            return "err\tbuild\t" + cls(e);
        }
        try
        {
            final StringBuilder eq = new StringBuilder(), h = new StringBuilder();
            for (int i = 0; i < n; i++)
            {
                for (int j = 0; j < n; j++)
                    eq.append(o[i].equals(o[j]) ? '1' : '0');
                if (o[i].equals(null) || o[i].equals("x"))
                    return "err\teq\tequals foreign object\t";
                h.append(i == 0 ? "" : ",").append(o[i].hashCode());
                if (o[i].hashCode() != o[i].hashCode())
                    return "err\teq\tunstable hash\t";
            }
            return "ok\t" + eq + "\t" + h + "\t-\tok";
        }
        catch (Throwable e)
        {
            return "err\teq\t" + cls(e);
        }
    }
}
