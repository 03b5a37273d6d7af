import java.util.*;
import java.lang.reflect.*;
import java.nio.charset.StandardCharsets;
import zserio.runtime.ZserioError;
import zserio.runtime.creator.ZserioTreeCreator;
import zserio.runtime.io.BitBuffer;
import zserio.runtime.io.ByteArrayBitStreamWriter;
import zserio.runtime.typeinfo.*;
import zserio.runtime.walker.*;

/** Walker and tree creator operations. */
final class Walk
{
    static String leaf(Object v)
    {
        final StringBuilder sb = new StringBuilder();
        if (v == null)
            return "null";
        if (v instanceof Boolean)
            return (Boolean)v ? "1" : "0";
        if (v instanceof Float || v instanceof Double)
        {
            final double d = ((Number)v).doubleValue();
            return d != d ? "fNaN" : String.format("f%016x", Double.doubleToRawLongBits(d));
        }
        if (v instanceof Number)
            return v.toString();
        if (v instanceof String)
            return "s" + Server.hex(((String)v).getBytes(StandardCharsets.UTF_8));
        if (v instanceof byte[])
            return "b" + Server.hex((byte[])v);
        if (v instanceof BitBuffer)
        {
            final BitBuffer b = (BitBuffer)v;
            final byte[] d = Arrays.copyOf(b.getBuffer(), (int)((b.getBitSize() + 7) / 8));
            if (b.getBitSize() % 8 != 0)
                d[d.length - 1] &= (byte)(0xff << (8 - b.getBitSize() % 8));
            return "x" + b.getBitSize() + ":" + Server.hex(d);
        }
        if (v instanceof zserio.runtime.ZserioEnum)
            return ((zserio.runtime.ZserioEnum)v).getGenericValue().toString();
        if (v instanceof zserio.runtime.ZserioBitmask)
            return ((zserio.runtime.ZserioBitmask)v).getGenericValue().toString();
        return "?" + v.getClass().getName();
    }

    static final class Log implements WalkObserver
    {
        final StringBuilder r = new StringBuilder();

        void add(String s)
        {
            if (r.length() > 0)
                r.append(' ');
            r.append(s);
        }

        static String ix(int i)
        {
            return i == WalkerConst.NOT_ELEMENT ? "-" : "" + i;
        }

        public void beginRoot(Object o) { add("R"); }
        public void endRoot(Object o) { add("r"); }
        public void beginArray(Object a, FieldInfo f) { add("A:" + f.getSchemaName() + ":" + Array.getLength(a)); }
        public void endArray(Object a, FieldInfo f) { add("a:" + f.getSchemaName()); }
        public void beginCompound(Object o, FieldInfo f, int i) { add("C:" + f.getSchemaName() + ":" + ix(i)); }
        public void endCompound(Object o, FieldInfo f, int i) { add("c:" + f.getSchemaName() + ":" + ix(i)); }
        public void visitValue(Object v, FieldInfo f, int i) { add("V:" + f.getSchemaName() + ":" + ix(i) + ":" + leaf(v)); }
    }

    static final class Scripted implements WalkFilter
    {
        final String bits;
        int n = 0;

        Scripted(String bits) { this.bits = bits; }
        boolean next() { return bits.charAt(n++ % bits.length()) == '1'; }
        public boolean beforeArray(Object a, FieldInfo f) { return next(); }
        public boolean afterArray(Object a, FieldInfo f) { return next(); }
        public boolean beforeCompound(Object a, FieldInfo f, int i) { return next(); }
        public boolean afterCompound(Object a, FieldInfo f, int i) { return next(); }
        public boolean beforeValue(Object a, FieldInfo f, int i) { return next(); }
        public boolean afterValue(Object a, FieldInfo f, int i) { return next(); }
    }

    static WalkFilter filter(Iterator<String> p)
    {
        final String s = p.next();
        switch (s.charAt(0))
        {
        case 'D':
            return new DepthWalkFilter(Integer.parseInt(s.substring(1)));
        case 'L':
            return new ArrayLengthWalkFilter(Integer.parseInt(s.substring(1)));
        case 'X':
            return new RegexWalkFilter(new String(Server.unhex(s.substring(1)), StandardCharsets.UTF_8));
        case 'S':
            return new Scripted(s.substring(1));
        case 'N':
            return new DefaultWalkFilter();
        default:
            {
                final List<WalkFilter> l = new ArrayList<>();
                for (int n = Integer.parseInt(s.substring(1)); n > 0; n--)
                    l.add(filter(p));
                return new AndWalkFilter(l);
            }
        }
    }

    static String walk(String[] p) throws Throwable
    {
        String ph = "build";
        try
        {
            final Server.Comp c = Server.comps.get(p[1]);
            final Object o = Server.build(new Server.Tok(p[p.length - 1]), c);
            final StringBuilder r = new StringBuilder("ok");
            for (int i = 2; i < p.length - 1; i++)
            {
                ph = "walk " + p[i];
                final Log log = new Log();
                if (p[i].equals("-"))
                    new Walker(log).walk(o);
                else
                    new Walker(log, filter(Arrays.asList(p[i].split(",")).iterator())).walk(o);
                r.append('\t').append(log.r);
            }
            return r.toString();
        }
        catch (Throwable e)
        {
            return "err\t" + ph + "\t" + Server.cls(e);
        }
    }

    interface Act
    {
        void run();
    }

    static boolean fails(Act a)
    {
        try
        {
            a.run();
        }
        catch (ZserioError e)
        {
            return true;
        }
        return false;
    }

    static final class Copy implements WalkObserver
    {
        final ZserioTreeCreator c;
        Object result;

        Copy(ZserioTreeCreator c) { this.c = c; }
        public void beginRoot(Object o) { c.beginRoot(); }
        public void endRoot(Object o) { result = c.endRoot(); }
        public void beginArray(Object a, FieldInfo f)
        {
            if (!c.getFieldType(f.getSchemaName()).getSchemaName().equals(f.getTypeInfo().getSchemaName()))
                throw new RuntimeException("getFieldType of " + f.getSchemaName());
            c.beginArray(f.getSchemaName());
            if (!c.getElementType().getSchemaName().equals(f.getTypeInfo().getSchemaName()))
                throw new RuntimeException("getElementType of " + f.getSchemaName());
        }
        public void endArray(Object a, FieldInfo f) { c.endArray(); }
        public void beginCompound(Object o, FieldInfo f, int i)
        {
            if (i == WalkerConst.NOT_ELEMENT)
            {
                if (!fails(() -> c.beginArray(f.getSchemaName())) || !fails(() -> c.endArray()) || !fails(() -> c.beginCompoundElement()))
                    throw new RuntimeException("creator accepts an array at " + f.getSchemaName());
                c.beginCompound(f.getSchemaName());
            }
            else
            {
                if (!fails(() -> c.beginCompound(f.getSchemaName())) || !fails(() -> c.endCompound()))
                    throw new RuntimeException("creator accepts a compound at " + f.getSchemaName());
                c.beginCompoundElement();
            }
        }
        public void endCompound(Object o, FieldInfo f, int i)
        {
            if (i == WalkerConst.NOT_ELEMENT)
                c.endCompound();
            else
                c.endCompoundElement();
        }
        public void visitValue(Object v, FieldInfo f, int i)
        {
            if (i == WalkerConst.NOT_ELEMENT)
                c.setValue(f.getSchemaName(), v);
            else
                c.addValueElement(v);
        }
    }

    static String copy(String[] p) throws Throwable
    {
        String ph = "build";
        try
        {
            final Server.Comp c = Server.comps.get(p[1]);
            final Object o = Server.build(new Server.Tok(p[2]), c);
            ph = "create";
            final List<Object> args = new ArrayList<>();
            for (Server.Fld f : c.params)
                args.add(f.get.invoke(o));
            final TypeInfo ti = (TypeInfo)c.c.getMethod("typeInfo").invoke(null);
            final Copy copy = new Copy(new ZserioTreeCreator(ti, args.toArray()));
            new Walker(copy).walk(o);
            ph = "dump";
            final Object n = copy.result;
            final StringBuilder sb = new StringBuilder();
            Server.dump(sb, c, n);
            ph = "write";
            ((zserio.runtime.io.Writer)n).initializeOffsets(0);
            final ByteArrayBitStreamWriter w = new ByteArrayBitStreamWriter();
            ((zserio.runtime.io.Writer)n).write(w);
            return "ok\t" + sb + "\t" + Server.hex(w.toByteArray()) + ":" + w.getBitPosition() + "\t" + (n.equals(o) ? 1 : 0);
        }
        catch (Throwable e)
        {
            return "err\t" + ph + "\t" + Server.cls(e);
        }
    }
}
