import java.util.*;
import zserio.runtime.typeinfo.*;

/** Canonical text of all type information reachable from a type, and of its expressions evaluated on an object. */
final class TInfo
{
    static String name(TypeInfo t)
    {
        return t.getSchemaName();
    }

    static String fixed(TypeInfo t)
    {
        try
        {
            return String.valueOf(t.getBitSize());
        }
        catch (Throwable e)
        {
            return "-";
        }
    }

    static String kind(TypeInfo t)
    {
        switch (t.getSchemaType())
        {
        case STRUCT: return "S";
        case UNION: return "U";
        case CHOICE: return "C";
        case ENUM: return "E";
        case BITMASK: return "M";
        default: return "B";
        }
    }

    static String field(FieldInfo f)
    {
        return f.getSchemaName() + " " + name(f.getTypeInfo()) + " " + f.getTypeArguments().size() + " " + (f.isExtended() ? "x" : "") +
                (f.getAlignment() != null ? "a" + f.getAlignment().getAsInt() : "") + (f.getOffset() != null ? "o" : "") +
                (f.getInitializer() != null ? "i" : "") + (f.isOptional() ? "p" : "") + (f.getOptionalCondition() != null ? "c" : "") +
                (f.getConstraint() != null ? "k" : "") + (f.isArray() ? "A" : "") + (f.getArrayLength() != null ? "L" : "") +
                (f.isPacked() ? "P" : "") + (f.isImplicit() ? "I" : "");
    }

    /** accessors named by the type information have to exist and to have the type it gives */
    static String access(Class<?> c, FieldInfo f)
    {
        try
        {
            Class<?> r = c.getMethod(f.getGetterName()).getReturnType();
            if (r.isArray() && f.isArray())
                r = r.getComponentType();
            final Class<?> e = f.getTypeInfo().getJavaClass();
            if (java.lang.invoke.MethodType.methodType(r).unwrap().returnType() != e && r != e)
                return " MISMATCH:" + r.getName() + "/" + e.getName();
            boolean set = false;
            for (java.lang.reflect.Method m : c.getMethods())
                set = set || m.getName().equals(f.getSetterName()) && m.getParameterCount() == 1;
            if (!set)
                return " NOSETTER";
            if (f.isOptional() && (c.getMethod(f.getIsUsedIndicatorName()).getReturnType() != boolean.class ||
                    c.getMethod(f.getIsSetIndicatorName()).getReturnType() != boolean.class))
                return " NOINDICATOR";
            return "";
        }
        catch (Throwable e)
        {
            return " " + e.getClass().getSimpleName();
        }
    }

    static String val(Object v)
    {
        if (v instanceof Number || v instanceof Boolean)
            return v.toString();
        return "?";
    }

    static void items(StringBuilder r, List<ItemInfo> l)
    {
        for (ItemInfo i : l)
            r.append(" i:").append(i.getSchemaName()).append("=").append(i.getValue()).append(i.isDeprecated() ? "d" : "").append(i.isRemoved() ? "r" : "");
    }

    static String record(TypeInfo t, Deque<TypeInfo> next)
    {
        final String k = kind(t);
        final StringBuilder r = new StringBuilder(name(t) + " " + k);
        if (k.equals("B"))
            return r.append(" ").append(fixed(t)).append(" ").append(t.getSchemaType()).append(" ").append(t.getJavaType()).toString();
        if (k.equals("E") || k.equals("M"))
        {
            r.append(" ").append(name(t.getUnderlyingType())).append(" ").append(t.getUnderlyingTypeArguments().size());
            next.add(t.getUnderlyingType());
            items(r, k.equals("E") ? t.getEnumItems() : t.getBitmaskValues());
            return r.toString();
        }
        for (ParameterInfo p : t.getParameters())
        {
            r.append(" p:").append(p.getSchemaName()).append(" ").append(name(p.getTypeInfo()));
            next.add(p.getTypeInfo());
        }
        for (FieldInfo f : t.getFields())
        {
            r.append(" f:").append(field(f)).append(access(t.getJavaClass(), f));
            next.add(f.getTypeInfo());
        }
        for (FunctionInfo f : t.getFunctions())
        {
            r.append(" u:").append(f.getSchemaName()).append(" ").append(name(f.getTypeInfo()));
            next.add(f.getTypeInfo());
        }
        if (k.equals("C"))
        {
            for (CaseInfo c : t.getCases())
            {
                r.append(" c:").append(c.getField() == null ? "-" : c.getField().getSchemaName());
                for (java.util.function.Supplier<Object> e : c.getCaseExpressions())
                    r.append(",").append(val(e.get()));
            }
        }
        return r.toString();
    }

    static String all(TypeInfo root)
    {
        final Map<String, String> m = new TreeMap<>();
        final Deque<TypeInfo> q = new ArrayDeque<>();
        q.add(root);
        while (!q.isEmpty())
        {
            final TypeInfo t = q.poll();
            if (!m.containsKey(name(t)))
                m.put(name(t), record(t, q));
        }
        return String.join("; ", m.values());
    }

    static String run(String[] p) throws Throwable
    {
        String ph = "info";
        try
        {
            final Server.Comp c = Server.comps.get(p[1]);
            final TypeInfo ti = (TypeInfo)c.c.getMethod("typeInfo").invoke(null);
            final String a = all(ti);
            ph = "build";
            final Object o = Server.build(new Server.Tok(p[2]), c);
            ph = "values";
            final StringBuilder v = new StringBuilder();
            final Set<String> want = new HashSet<>(Arrays.asList(p[3].split(" ")));
            for (FieldInfo f : ti.getFields())
            {
                if (want.contains("c:" + f.getSchemaName()))
                    v.append(" c:").append(f.getSchemaName()).append("=").append(f.getOptionalCondition().test(o));
                if (want.contains("k:" + f.getSchemaName()))
                    v.append(" k:").append(f.getSchemaName()).append("=").append(f.getConstraint().test(o));
                if (want.contains("l:" + f.getSchemaName()))
                    v.append(" l:").append(f.getSchemaName()).append("=").append(f.getArrayLength().applyAsInt(o));
                if (want.contains("i:" + f.getSchemaName()))
                    v.append(" i:").append(f.getSchemaName()).append("=").append(val(f.getInitializer().get()));
            }
            for (FunctionInfo f : ti.getFunctions())
                if (want.contains("u:" + f.getSchemaName()))
                    v.append(" u:").append(f.getSchemaName()).append("=").append(val(f.getFunctionResult().apply(o)));
            return "ok\t" + a + "\t" + v.toString().trim();
        }
        catch (Throwable e)
        {
            return "err\t" + ph + "\t" + Server.cls(e);
        }
    }
}
