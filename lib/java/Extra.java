/** Property specific operations on loaded types. */
final class Extra
{
    static String handle(String[] p) throws Throwable
    {
        if (p[0].equals("D"))
            return fresh(p);
        if (p[0].equals("X"))
            return extend(p);
        if (p[0].equals("G"))
            return readOnly(p);
        if (p[0].equals("SQ"))
            return Sql.run(p);
        if (p[0].equals("SV"))
            return service(p);
        if (p[0].equals("PB"))
            return pubsub(p);
        if (p[0].equals("K"))
            return Walk.walk(p);
        if (p[0].equals("Z"))
            return Walk.copy(p);
        if (p[0].equals("T"))
            return TInfo.run(p);
        return "FAIL\tunknown op";
    }

    /** fresh object, and another fresh one */
    static String fresh(String[] p) throws Throwable
    {
        String ph = "build";
        try
        {
            final Server.Comp c = Server.comps.get(p[1]);
            String[] d = new String[2];
            for (int i = 0; i < 2; i++)
            {
                ph = "build";
                final Object o = Server.build(new Server.Tok(p[2]), c);
                ph = "dump";
                final StringBuilder sb = new StringBuilder();
                Server.dump(sb, c, o);
                d[i] = sb.toString();
            }
            return "ok\t" + d[0] + "\t" + d[1];
        }
        catch (Throwable e)
        {
            return "err\t" + ph + "\t" + Server.cls(e);
        }
    }

    static String present(Server.Comp c, Object o) throws Throwable
    {
        String r = "p";
        for (Server.Fld f : c.fields)
        {
            if (f.ext)
                r += (Boolean)f.present.invoke(o) ? "1" : "0";
        }
        return r;
    }

    static String write(Object o, int start) throws Throwable
    {
        final zserio.runtime.io.ByteArrayBitStreamWriter w = new zserio.runtime.io.ByteArrayBitStreamWriter();
        Server.pad(w, start);
        ((zserio.runtime.io.Writer)o).write(w);
        return Server.hex(w.toByteArray()) + ":" + w.getBitPosition();
    }

    /** reads an object, writes it back, sets members one after the other, writes it */
    static String readOnly(String[] p) throws Throwable
    {
        String ph = "read";
        final Server.Comp c = Server.comps.get(p[1]);
        try
        {
            final Object[] ps = Server.params(new Server.Tok(p[5]), c, c.rctor.getParameterTypes(), 1);
            final zserio.runtime.io.ByteArrayBitStreamReader in =
                    new zserio.runtime.io.ByteArrayBitStreamReader(Server.unhex(p[4]), Long.parseLong(p[3]));
            in.setBitPosition(Integer.parseInt(p[2]));
            final Object o = Server.read(c, in, ps);
            String r = "ok\t" + in.getBitPosition();
            ph = "dump";
            r += "\t" + Server.dump(c, o);
            return r + "\tnone";
        }
        catch (Throwable e)
        {
            return "err\t" + ph + "\t" + Server.cls(e);
        }
    }

    static final class Boom extends RuntimeException
    {
        private static final long serialVersionUID = 1L;
    }

    static String cx(Object c)
    {
        return c == null ? "-" : c.toString();
    }

    static Object mk(String ty, String toks) throws Throwable
    {
        return ty.equals("B") ? Server.unhex(toks.substring(1)) : Server.build(new Server.Tok(toks), Server.comps.get(ty));
    }

    static String dmp(String ty, Object o) throws Throwable
    {
        return ty.equals("B") ? "b" + Server.hex((byte[])o) : Server.dump(Server.comps.get(ty), o);
    }

    static String hs(String s)
    {
        return Server.hex(s.getBytes(java.nio.charset.StandardCharsets.UTF_8));
    }

    static String us(String h)
    {
        return new String(Server.unhex(h), java.nio.charset.StandardCharsets.UTF_8);
    }

    static String[][] desc(String d)
    {
        if (d.isEmpty())
            return new String[0][];
        final String[] x = d.split(",");
        final String[][] r = new String[x.length][];
        for (int i = 0; i < x.length; i++)
            r[i] = x[i].split(":");
        return r;
    }

    static void err(java.util.List<String> log, Throwable e)
    {
        while (e instanceof java.lang.reflect.InvocationTargetException)
            e = e.getCause();
        if (e instanceof Boom)
            log.add("err boom");
        else if (e instanceof zserio.runtime.service.ServiceException)
            log.add("err ServiceException");
        else
            log.add("err " + Server.cls(e).replace('\t', ' '));
    }

    static RuntimeException sneak(Throwable e)
    {
        return e instanceof RuntimeException ? (RuntimeException)e : new IllegalStateException(e);
    }

    /** service: implementation, client and a transport which passes bytes only */
    static String service(String[] p) throws Throwable
    {
        final String[] n = p[2].split("\\|");
        final String[][] ms = desc(p[3]);
        final Class<?> gc = Class.forName("zsvglue.Impl_" + n[1], true, Server.loader);
        final zserio.runtime.service.ServiceInterface s = (zserio.runtime.service.ServiceInterface)gc.getDeclaredConstructor().newInstance();
        final java.util.List<String> log = new java.util.ArrayList<>();
        final String[] st = new String[3]; // mode, response, method
        gc.getField("h").set(s, (java.util.function.BiFunction<Integer, Object[], Object>)(i, a) -> {
            try
            {
                log.add("impl " + i + " " + cx(a[1]) + " " + dmp(ms[i][1], a[0]));
                if (st[0].equals("e"))
                    throw new Boom();
                return mk(ms[i][2], st[1]);
            }
            catch (Throwable e)
            {
                throw sneak(e);
            }
        });
        final zserio.runtime.service.ServiceClientInterface tr = (name, req, ctx) -> {
            try
            {
                final Object o = req.getZserioObject();
                log.add("wire " + hs(name) + " " + Server.hex(req.getByteArray()) + " " + cx(ctx) + " obj=" +
                        (o == null ? "none" : dmp(ms[Integer.parseInt(st[2])][1], o)));
                if (st[0].equals("t"))
                    throw new Boom();
                final zserio.runtime.service.ServiceData<?> r = s.callMethod(name, req.getByteArray().clone(), ctx);
                log.add("resp " + Server.hex(r.getByteArray()));
                return r.getByteArray().clone();
            }
            catch (Throwable e)
            {
                throw sneak(e);
            }
        };
        final String cn = n[0] + "." + n[1] + "$" + n[1];
        final Class<?> sc = Class.forName(cn + "Service", true, Server.loader);
        final Class<?> cc = Class.forName(cn + "Client", true, Server.loader);
        final Object client = cc.getConstructor(zserio.runtime.service.ServiceClientInterface.class).newInstance(tr);
        final StringBuilder out = new StringBuilder("ok\t" + hs((String)sc.getMethod("serviceFullName").invoke(null)) + "\t");
        for (String x : (String[])sc.getMethod("methodNames").invoke(null))
            out.append(hs(x)).append(',');
        for (int i = 4; i < p.length; i++)
        {
            final String[] c = p[i].split(";", -1);
            log.clear();
            st[0] = c[0];
            st[1] = c[4];
            st[2] = c[1];
            final Object ctx = c[2].equals("-") ? null : (Object)Integer.valueOf(c[2]);
            try
            {
                if (c[0].equals("u") || c[0].equals("d"))
                    log.add("raw " + Server.hex(s.callMethod(us(c[1]), Server.unhex(c[3]), ctx).getByteArray()));
                else
                {
                    final String[] m = ms[Integer.parseInt(c[1])];
                    java.lang.reflect.Method f = null;
                    for (java.lang.reflect.Method x : cc.getMethods())
                        if (x.getName().equals(m[0] + "Method") && x.getParameterCount() == (ctx == null ? 1 : 2))
                            f = x;
                    final Object q = mk(m[1], c[3]);
                    log.add("got " + dmp(m[2], ctx == null ? f.invoke(client, q) : f.invoke(client, q, ctx)));
                }
            }
            catch (Throwable e)
            {
                err(log, e);
            }
            out.append('\t').append(String.join(" ; ", log));
        }
        return out.toString();
    }

    static final class Broker implements zserio.runtime.pubsub.PubsubInterface
    {
        final java.util.TreeMap<Integer, Object[]> subs = new java.util.TreeMap<>();
        int next = 7;
        final java.util.List<String> log;

        Broker(java.util.List<String> log)
        {
            this.log = log;
        }

        void deliver(String topic, byte[] data)
        {
            for (Object[] s : new java.util.ArrayList<>(subs.values()))
            {
                if (!s[0].equals(topic))
                    continue;
                try
                {
                    ((Callback)s[1]).invoke(topic, data);
                }
                catch (Boom e)
                {
                    log.add("cberr");
                }
            }
        }

        @Override
        public void publish(String topic, byte[] data, Object context)
        {
            log.add("pub " + hs(topic) + " " + Server.hex(data) + " " + cx(context));
            deliver(topic, data);
        }

        @Override
        public int subscribe(String topic, Callback callback, Object context)
        {
            final int id = next;
            next += 5;
            log.add("sub " + hs(topic) + " " + cx(context) + " " + id);
            subs.put(id, new Object[] {topic, callback});
            return id;
        }

        @Override
        public void unsubscribe(int id)
        {
            log.add("unsub " + id);
            subs.remove(id);
        }
    }

    static java.lang.reflect.Method method(Class<?> c, String name, int n)
    {
        for (java.lang.reflect.Method m : c.getMethods())
            if (m.getName().equals(name) && (n < 0 || m.getParameterCount() == n))
                return m;
        return null;
    }

    static String capital(String s)
    {
        return s.substring(0, 1).toUpperCase() + s.substring(1);
    }

    /** pubsub with a broker in memory */
    static String pubsub(String[] p) throws Throwable
    {
        final String[] n = p[2].split("\\|");
        final String[][] ms = desc(p[3]);
        final java.util.List<String> log = new java.util.ArrayList<>();
        final Broker br = new Broker(log);
        final Class<?> pc = Class.forName(n[0] + "." + n[1], true, Server.loader);
        final Object ps = pc.getConstructor(zserio.runtime.pubsub.PubsubInterface.class).newInstance(br);
        final java.util.Map<String, Integer> ids = new java.util.HashMap<>();
        final StringBuilder out = new StringBuilder("ok\t");
        for (String[] m : ms)
            out.append(method(pc, "publish" + capital(m[0]), -1) != null ? '1' : '0')
                    .append(method(pc, "subscribe" + capital(m[0]), -1) != null ? '1' : '0').append(',');
        for (int i = 4; i < p.length; i++)
        {
            final String[] c = p[i].split(";", -1);
            log.clear();
            final Object ctx = c[2].equals("-") ? null : (Object)Integer.valueOf(c[2]);
            try
            {
                if (c[0].equals("U"))
                    pc.getMethod("unsubscribe", int.class).invoke(ps, ids.get(c[1]));
                else if (c[0].equals("T"))
                    br.deliver(us(c[1]), Server.unhex(c[3]));
                else
                {
                    final String[] m = ms[Integer.parseInt(c[1])];
                    final Object a;
                    if (c[0].equals("P"))
                        a = mk(m[1], c[3]);
                    else
                        a = (zserio.runtime.pubsub.PubsubCallback<Object>)(topic, message) -> {
                            try
                            {
                                log.add("cb " + c[3] + " " + hs(topic) + " " + dmp(m[1], message));
                            }
                            catch (Throwable e)
                            {
                                throw sneak(e);
                            }
                            if (c[3].endsWith("!"))
                                throw new Boom();
                        };
                    final java.lang.reflect.Method f =
                            method(pc, (c[0].equals("P") ? "publish" : "subscribe") + capital(m[0]), ctx == null ? 1 : 2);
                    final Object r = ctx == null ? f.invoke(ps, a) : f.invoke(ps, a, ctx);
                    if (c[0].equals("S"))
                    {
                        ids.put(c[3], (Integer)r);
                        log.add("id " + r);
                    }
                }
            }
            catch (Throwable e)
            {
                err(log, e);
            }
            out.append('\t').append(String.join(" ; ", log));
        }
        return out.toString();
    }

    static String extend(String[] p) throws Throwable
    {
        String ph = "read";
        final Server.Comp c = Server.comps.get(p[1]);
        final int start = Integer.parseInt(p[2]);
        try
        {
            final Object[] ps = Server.params(new Server.Tok(p[5]), c, c.ctor.getParameterTypes(), 0);
            zserio.runtime.io.ByteArrayBitStreamReader in =
                    new zserio.runtime.io.ByteArrayBitStreamReader(Server.unhex(p[4]), Long.parseLong(p[3]));
            in.setBitPosition(start);
            final Object o = Server.read(c, in, ps);
            String r = "ok\t" + in.getBitPosition();
            ph = "dump";
            r += "\t" + Server.dump(c, o);
            ph = "write";
            r += "\t" + write(o, start);
            r += "\t" + present(c, o);
            for (int i = 6; i < p.length; i++)
            {
                ph = "set";
                Server.build(new Server.Tok(p[i]), c, o);
                r += "\t" + present(c, o);
            }
            ph = "init";
            ((zserio.runtime.io.Writer)o).initializeOffsets(start);
            ph = "size";
            r += "\t" + ((zserio.runtime.SizeOf)o).bitSizeOf(start);
            ph = "dump2";
            r += "\t" + Server.dump(c, o);
            ph = "write2";
            final String h = write(o, start);
            r += "\t" + h;
            ph = "read2";
            in = new zserio.runtime.io.ByteArrayBitStreamReader(Server.unhex(h.split(":")[0]), Long.parseLong(h.split(":")[1]));
            in.setBitPosition(start);
            final Object o2 = Server.read(c, in, ps);
            return r + "\t" + (o2.equals(o) ? "1" : "0");
        }
        catch (Throwable e)
        {
            return "err\t" + ph + "\t" + Server.cls(e);
        }
    }
}
