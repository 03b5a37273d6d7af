import java.lang.reflect.*;
import java.util.*;

/** generated SQL databases: a list of actions on a file */
final class Sql
{
    static final class Col
    {
        String name;
        Server.Fld f;
        Method get, set, setNull, isNull;
    }

    static final class Table
    {
        String inst, key;
        Object table;
        Class<?> tc, rc, pp;
        List<Col> cols = new ArrayList<>();
        Map<String, Integer> exps = new LinkedHashMap<>();
        List<Server.Fld> expTypes = new ArrayList<>();
        boolean keyString;
    }

    static Server.Fld fld(String tc) throws Throwable
    {
        final Server.Fld f = new Server.Fld();
        f.type = tc.substring(0, 1);
        if (tc.length() > 1)
        {
            f.cls = tc.substring(2);
            if (f.type.equals("O"))
                f.comp = Server.comps.get(f.cls);
        }
        return f;
    }

    static Object scalarText(String tok, Server.Fld f, Class<?> target) throws Throwable
    {
        return Server.scalar(new Server.Tok(tok), f, target);
    }

    static Object provider(Table t, String pp)
    {
        if (t.pp == null)
            return null;
        final Map<String, String[]> vals = new HashMap<>();
        for (String e : pp.split("&"))
        {
            final int i = e.indexOf('>');
            if (i >= 0)
                vals.put(e.substring(0, i), e.substring(i + 1).split("\\^", -1));
        }
        return Proxy.newProxyInstance(Server.loader, new Class<?>[] {t.pp}, (prx, m, a) -> {
            if (!m.getName().startsWith("get") || a == null)
                return null;
            final java.sql.ResultSet rs = (java.sql.ResultSet)a[0];
            String[] v = null;
            if (!t.key.isEmpty())
            {
                String k = null;
                try
                {
                    k = rs.getString(t.key);
                }
                catch (java.sql.SQLException e)
                {
                    k = null;
                }
                if (k != null)
                    v = vals.get(t.keyString ? "s" + Extra.hs(k) : k);
            }
            if (v == null)
                v = vals.get("*");
            final int i = t.exps.get(m.getName());
            return scalarText(v[i], t.expTypes.get(i), m.getReturnType());
        });
    }

    static String[] cols(String s)
    {
        return s.equals("*") ? null : s.split(",");
    }

    static Object row(Table t, String cols, String toks) throws Throwable
    {
        final Object r = t.rc.getDeclaredConstructor().newInstance();
        final String[] v = toks.split("\\^", -1);
        final List<String> sel = cols.equals("*") ? null : Arrays.asList(cols.split(","));
        int i = 0;
        for (Col c : t.cols)
        {
            if (sel != null && !sel.contains(c.name))
                continue;
            final String x = v[i++];
            if (x.equals("-"))
                c.setNull.invoke(r);
            else
                c.set.invoke(r, scalarText(x, c.f, c.set.getParameterTypes()[0]));
        }
        return r;
    }

    static Method find(Class<?> c, String name, int n)
    {
        for (Method m : c.getMethods())
            if (m.getName().equals(name) && m.getParameterCount() == n)
                return m;
        throw new IllegalStateException("no method " + c.getName() + "." + name + "/" + n);
    }

    static String run(String[] p) throws Throwable
    {
        final String[] n = p[2].split("\\|");
        final String mode = p[3], path = p[4];
        final Class<?> dc = Class.forName(n[0] + "." + n[1], true, Server.loader);
        final Map<String, String> reloc = new LinkedHashMap<>();
        for (String e : p[5].split(","))
            if (!e.isEmpty())
                reloc.put(e.substring(0, e.indexOf('>')), e.substring(e.indexOf('>') + 1));
        java.sql.Connection ext = null;
        final Object db;
        if (mode.equals("x"))
        {
            ext = java.sql.DriverManager.getConnection("jdbc:sqlite:" + path);
            int k = 0;
            final Map<String, String> names = new LinkedHashMap<>();
            for (Map.Entry<String, String> e : reloc.entrySet())
            {
                if (k++ == 0)
                    try (java.sql.Statement st = ext.createStatement())
                    {
                        st.executeUpdate("ATTACH DATABASE '" + e.getValue() + "' AS extdb");
                    }
                names.put(e.getKey(), "extdb");
            }
            db = names.isEmpty() ? dc.getConstructor(java.sql.Connection.class).newInstance(ext)
                    : dc.getConstructor(java.sql.Connection.class, Map.class).newInstance(ext, names);
        }
        else
            db = reloc.isEmpty() ? dc.getConstructor(String.class).newInstance(path)
                    : dc.getConstructor(String.class, Map.class).newInstance(path, reloc);
        final StringBuilder out = new StringBuilder("ok");
        try
        {
            final Map<String, Table> ts = new LinkedHashMap<>();
            for (String d : p[6].split(";"))
            {
                final String[] x = d.split("!", -1);
                final Table t = new Table();
                t.inst = x[0];
                t.key = x[2];
                t.table = dc.getMethod("get" + Server.cap(x[0])).invoke(db);
                t.tc = t.table.getClass();
                t.rc = Class.forName(t.tc.getName() + "Row", true, Server.loader);
                for (String c : x[3].split(","))
                {
                    final Col k = new Col();
                    k.name = c.substring(0, c.indexOf('='));
                    k.f = fld(c.substring(c.indexOf('=') + 1));
                    if (k.name.equals(t.key))
                        t.keyString = k.f.type.equals("S");
                    final String cn = Server.cap(k.name);
                    k.get = t.rc.getMethod("get" + cn);
                    k.set = t.rc.getMethod("set" + cn, k.get.getReturnType());
                    k.setNull = t.rc.getMethod("setNull" + cn);
                    k.isNull = t.rc.getMethod("isNull" + cn);
                    t.cols.add(k);
                }
                if (!x[4].isEmpty())
                {
                    t.pp = Class.forName(t.tc.getName() + "$ParameterProvider", true, Server.loader);
                    for (String e : x[4].split(","))
                    {
                        t.exps.put("get" + Server.cap(e.substring(0, e.indexOf('='))), t.expTypes.size());
                        t.expTypes.add(fld(e.substring(e.indexOf('=') + 1)));
                    }
                }
                ts.put(t.inst, t);
            }
            for (int i = 7; i < p.length; i++)
            {
                String r;
                try
                {
                    r = act(dc, db, ts, p[i].split("\\|", -1));
                }
                catch (Throwable e)
                {
                    Throwable c = e;
                    while (c instanceof InvocationTargetException)
                        c = c.getCause();
                    r = "err " + Server.cls(c).replace('\t', ' ').replace('\n', ' ');
                }
                out.append('\t').append(r);
            }
        }
        finally
        {
            dc.getMethod("close").invoke(db);
            if (ext != null)
                ext.close();
        }
        return out.toString();
    }

    static String act(Class<?> dc, Object db, Map<String, Table> ts, String[] a) throws Throwable
    {
        if (a[0].equals("C"))
        {
            if (a.length > 1 && !a[1].isEmpty())
                dc.getMethod("createSchema", Set.class).invoke(db, new HashSet<>(Arrays.asList(a[1].split(","))));
            else
                dc.getMethod("createSchema").invoke(db);
            return "done";
        }
        if (a[0].equals("D"))
        {
            dc.getMethod("deleteSchema").invoke(db);
            return "done";
        }
        if (a[0].equals("V"))
            return validate(dc, db, ts, a[1]);
        final Table t = ts.get(a[1]);
        final int pn = t.pp == null ? 0 : 1;
        if (a[0].equals("c") || a[0].equals("d"))
        {
            t.tc.getMethod(a[0].equals("c") ? "createTable" : "deleteTable").invoke(t.table);
            return "done";
        }
        if (a[0].equals("k"))
        {
            // wo rowid has another method
            t.tc.getMethod("createOrdinaryRowIdTable").invoke(t.table);
            return "done";
        }
        if (a[0].equals("W"))
        {
            final List<Object> rows = new ArrayList<>();
            if (!a[4].isEmpty())
                for (String x : a[4].split(";"))
                    rows.add(row(t, a[2], x));
            if (a[2].equals("*"))
                t.tc.getMethod("write", List.class).invoke(t.table, rows);
            else
                t.tc.getMethod("write", List.class, String[].class).invoke(t.table, rows, cols(a[2]));
            return "done";
        }
        final String cond = Extra.us(a[4]);
        if (a[0].equals("U"))
        {
            final Object r = row(t, a[2], a[5]);
            if (a[2].equals("*"))
                t.tc.getMethod("update", t.rc, String.class).invoke(t.table, r, cond);
            else
                t.tc.getMethod("update", t.rc, String[].class, String.class).invoke(t.table, r, cols(a[2]), cond);
            return "done";
        }
        if (a[0].equals("R"))
        {
            final Object pp = provider(t, a[3]);
            final List<Object> args = new ArrayList<>();
            final List<Class<?>> at = new ArrayList<>();
            if (t.pp != null)
            {
                args.add(pp);
                at.add(t.pp);
            }
            if (!a[2].equals("*"))
            {
                args.add(cols(a[2]));
                at.add(String[].class);
            }
            if (!cond.isEmpty())
            {
                args.add(cond);
                at.add(String.class);
            }
            final List<?> rs = (List<?>)t.tc.getMethod("read", at.toArray(new Class<?>[0])).invoke(t.table, args.toArray());
            final List<String> l = new ArrayList<>();
            for (Object r : rs)
            {
                final StringBuilder sb = new StringBuilder();
                for (Col c : t.cols)
                {
                    if (sb.length() > 0)
                        sb.append('^');
                    if ((Boolean)c.isNull.invoke(r))
                        sb.append('-');
                    else
                        Server.dumpScalar(sb, c.f, c.get.invoke(r));
                }
                l.add(sb.toString());
            }
            Collections.sort(l);
            return "rows " + l.size() + " " + String.join(";", l);
        }
        throw new IllegalStateException(a[0]);
    }

    static String validate(Class<?> dc, Object db, Map<String, Table> ts, String spec) throws Throwable
    {
        final Map<String, Object> pps = new HashMap<>();
        for (String s : spec.split(";"))
            if (!s.isEmpty())
            {
                final String inst = s.substring(0, s.indexOf('='));
                pps.put("get" + Server.cap(inst) + "ParameterProvider", provider(ts.get(inst), s.substring(s.indexOf('=') + 1)));
            }
        Method m = null;
        for (Method x : dc.getMethods())
            if (x.getName().equals("validate"))
                m = x;
        final Object rep;
        if (m.getParameterCount() == 0)
            rep = m.invoke(db);
        else
            rep = m.invoke(db, Proxy.newProxyInstance(Server.loader, m.getParameterTypes(), (prx, q, a) -> pps.get(q.getName())));
        final zserio.runtime.validation.ValidationReport r = (zserio.runtime.validation.ValidationReport)rep;
        final List<String> l = new ArrayList<>();
        for (zserio.runtime.validation.ValidationError e : r.getErrors())
        {
            final StringBuilder k = new StringBuilder();
            if (e.getRowKeyValues() != null)
                for (String x : e.getRowKeyValues())
                    k.append(Extra.hs(x)).append('/');
            l.add(e.getTableName() + "." + e.getFieldName() + ":" + e.getType() + ":" + k);
        }
        return "valid " + r.getNumberOfValidatedTables() + " " + r.getNumberOfValidatedRows() + " " + String.join(";", l);
    }
}
