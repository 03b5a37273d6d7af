"""Property specific operations of the Python driver."""


def register(drv, ops):
    def op_d(cid, toks):
        """fresh object, and a fresh one after the first was changed in place"""
        c = drv.comps[cid]
        ph = "build"
        try:
            o = drv.build(drv.Tok(toks), c)
            ph = "dump"
            d1 = drv.dump(c, o)
            ph = "change"
            if c.kind == "S":
                for f in c.fields:
                    v = getattr(o, f.prop)
                    if isinstance(v, bytearray):
                        v.extend(b"zz")
                    elif isinstance(v, list):
                        v.append(None)
            ph = "dump2"
            d2 = drv.dump(c, drv.build(drv.Tok(toks), c))
            return "ok\t%s\t%s" % (d1, d2)
        except Exception as e:
            return drv.errs(ph, e)
    ops["D"] = op_d

    def op_g(cid, start, nbits, hexs, ptoks):
        c = drv.comps[cid]
        ph = "read"
        try:
            t = drv.Tok(ptoks)
            ps = [drv.scalar(t, f) for f in c.params]
            rd = drv.zserio.BitStreamReader(bytes.fromhex(hexs), int(nbits))
            rd.bitposition = int(start)
            o = c.cls.from_reader(rd, *ps)
            ph = "dump"
            return "ok\t%d\t%s\tnone" % (rd.bitposition, drv.dump(c, o))
        except Exception as e:
            return drv.errs(ph, e)
    ops["G"] = op_g

    class Boom(Exception):
        pass

    def cx(c):
        return "-" if c is None else str(c)

    def mk(ty, toks):
        if ty == "B":
            return bytes.fromhex(toks[1:])
        return drv.build(drv.Tok(toks), drv.comps[ty])

    def dmp(ty, o):
        return "b" + bytes(o).hex() if ty == "B" else drv.dump(drv.comps[ty], o)

    def glue_class(name):
        import importlib
        pkg, n = name.split("|")
        return getattr(importlib.import_module(pkg + "." + drv.snake(n)), n)

    def op_sv(root, name, desc, *calls):
        """service: implementation, client and a transport which passes bytes only"""
        zserio = drv.zserio
        cls = glue_class(name)
        ms = [m.split(":") for m in desc.split(",") if m]
        log = []
        st = {}

        def impl(i):
            def f(self, request, context=None):
                log.append("impl %d %s %s" % (i, cx(context), dmp(ms[i][1], request)))
                if st["mode"] == "e":
                    raise Boom()
                return mk(ms[i][2], st["resp"])
            return f
        sub = type("Impl", (cls.Service,), {"_%s_impl" % drv.snake(m[0]): impl(i) for i, m in enumerate(ms)})

        class Transport(zserio.ServiceClientInterface):
            def call_method(self, method_name, request, context=None):
                o = request.zserio_object
                log.append("wire %s %s %s obj=%s" % (method_name.encode().hex(), bytes(request.byte_array).hex(), cx(context),
                                                     "none" if o is None else dmp(ms[st["m"]][1], o)))
                if st["mode"] == "t":
                    raise Boom()
                r = s.call_method(method_name, bytes(request.byte_array), context)
                if bytes(r.byte_array) != bytes(r.byte_array):
                    log.append("response changes")
                log.append("resp %s" % bytes(r.byte_array).hex())
                return bytes(r.byte_array)
        s = sub()
        client = cls.Client(Transport())
        out = ["ok", s.service_full_name.encode().hex(), "".join(n.encode().hex() + "," for n in s.method_names)]
        for c in calls:
            mode, m, ctx, req, resp = c.split(";")
            del log[:]
            st.update(mode=mode, resp=resp)
            ctx = None if ctx == "-" else int(ctx)
            a = () if ctx is None else (ctx,)
            try:
                if mode in "ud":
                    r = s.call_method(bytes.fromhex(m).decode(), bytes.fromhex(req), *a)
                    log.append("raw " + bytes(r.byte_array).hex())
                else:
                    st["m"] = int(m)
                    r = getattr(client, drv.snake(ms[int(m)][0]))(mk(ms[int(m)][1], req), *a)
                    log.append("got " + dmp(ms[int(m)][2], r))
            except Boom:
                log.append("err boom")
            except zserio.ServiceException:
                log.append("err ServiceException")
            except Exception as e:
                log.append("err " + repr(e).replace("\n", " ").replace("\t", " "))
            out.append(" ; ".join(log))
        return "\t".join(out)
    ops["SV"] = op_sv

    def op_pb(root, name, desc, *acts):
        """pubsub with a broker in memory"""
        zserio = drv.zserio
        cls = glue_class(name)
        ms = [m.split(":") for m in desc.split(",") if m]
        log = []

        class Broker(zserio.PubsubInterface):
            def __init__(self):
                self.subs = []
                self.next = 7

            def deliver(self, topic, data):
                for i, t, cb in list(self.subs):
                    if t == topic:
                        try:
                            cb(topic, data)
                        except Boom:
                            log.append("cberr")

            def publish(self, topic, data, context=None):
                log.append("pub %s %s %s" % (topic.encode().hex(), bytes(data).hex(), cx(context)))
                self.deliver(topic, bytes(data))

            def subscribe(self, topic, callback, context=None):
                i = self.next
                self.next += 5
                log.append("sub %s %s %d" % (topic.encode().hex(), cx(context), i))
                self.subs.append((i, topic, callback))
                return i

            def unsubscribe(self, subscription_id):
                log.append("unsub %d" % subscription_id)
                self.subs = [x for x in self.subs if x[0] != subscription_id]
        br = Broker()
        ps = cls(br)
        ids = {}
        out = ["ok", "".join("%d%d," % (hasattr(ps, "publish_" + drv.snake(m[0])), hasattr(ps, "subscribe_" + drv.snake(m[0]))) for m in ms)]

        def callback(label, ty):
            def f(topic, message):
                log.append("cb %s %s %s" % (label, topic.encode().hex(), dmp(ty, message)))
                if label.endswith("!"):
                    raise Boom()
            return f
        for c in acts:
            k, m, ctx, arg = c.split(";")
            del log[:]
            ctx = None if ctx == "-" else int(ctx)
            a = () if ctx is None else (ctx,)
            try:
                if k == "U":
                    ps.unsubscribe(ids[m])
                elif k == "T":
                    br.deliver(bytes.fromhex(m).decode(), bytes.fromhex(arg))
                elif k == "P":
                    getattr(ps, "publish_" + drv.snake(ms[int(m)][0]))(mk(ms[int(m)][1], arg), *a)
                else:
                    ids[arg] = getattr(ps, "subscribe_" + drv.snake(ms[int(m)][0]))(callback(arg, ms[int(m)][1]), *a)
                    log.append("id %d" % ids[arg])
            except Boom:
                log.append("err boom")
            except Exception as e:
                log.append("err " + repr(e).replace("\n", " ").replace("\t", " "))
            out.append(" ; ".join(log))
        return "\t".join(out)
    ops["PB"] = op_pb

    def op_x(cid, start, nbits, hexs, ptoks, *sets):
        """reads an object, writes it back, sets members one after the other, writes it"""
        zserio = drv.zserio
        c = drv.comps[cid]
        start = int(start)
        ph = "read"

        def pres(o):
            return "p" + "".join("1" if getattr(o, "is_%s_present" % f.prop)() else "0" for f in c.fields if f.ext)

        def write(o):
            w = zserio.BitStreamWriter()
            drv.pad(w, start)
            o.write(w)
            return "%s:%d" % (bytes(w.byte_array).hex(), w.bitposition)
        try:
            t = drv.Tok(ptoks)
            ps = [drv.scalar(t, f) for f in c.params]
            rd = zserio.BitStreamReader(bytes.fromhex(hexs), int(nbits))
            rd.bitposition = start
            o = c.cls.from_reader(rd, *ps)
            r = [rd.bitposition]
            ph = "dump"
            r.append(drv.dump(c, o))
            ph = "write"
            r.append(write(o))
            r.append(pres(o))
            for s in sets:
                ph = "set"
                drv.build(drv.Tok(s), c, o)
                r.append(pres(o))
            ph = "init"
            o.initialize_offsets(start)
            ph = "size"
            r.append(o.bitsizeof(start))
            ph = "dump2"
            r.append(drv.dump(c, o))
            ph = "write2"
            h = write(o)
            r.append(h)
            ph = "read2"
            rd = zserio.BitStreamReader(bytes.fromhex(h.split(":")[0]), int(h.split(":")[1]))
            rd.bitposition = start
            o2 = c.cls.from_reader(rd, *ps)
            r.append("1" if o2 == o else "0")
            return "ok\t" + "\t".join(str(x) for x in r)
        except Exception as e:
            return drv.errs(ph, e)
    ops["X"] = op_x

    def op_sq(root, name, mode, path, reloc, desc, *acts):
        """generated SQL database: a list of actions on a file"""
        import importlib, apsw
        pkg, n = name.split("|")
        cls = getattr(importlib.import_module(pkg + "." + drv.snake(n)), n)
        reloc = dict(e.split(">") for e in reloc.split(",") if e)
        ext = None
        if mode == "x":
            ext = apsw.Connection(path)
            names = {}
            for k, (t, f) in enumerate(reloc.items()):
                if k == 0:
                    ext.cursor().execute("ATTACH DATABASE '%s' AS extdb" % f)
                names[t] = "extdb"
            db = cls(ext, names) if names else cls(ext)
        else:
            db = cls.from_file(path, reloc) if reloc else cls.from_file(path)

        class Table:
            pass
        ts = {}
        for d in desc.split(";"):
            x = d.split("!")
            t = Table()
            t.inst = x[0]; t.key = x[2]
            t.table = getattr(db, drv.snake(x[0]))
            t.cols = [(c.split("=")[0], drv.Fld(["c", c.split("=")[1]])) for c in x[3].split(",")]
            t.exps = [(e.split("=")[0], drv.Fld(["c", e.split("=")[1]])) for e in x[4].split(",") if e]
            ts[t.inst] = t

        def provider(t, spec, cols):
            vals = {}
            for e in spec.split("&"):
                if ">" in e:
                    vals[e.split(">")[0]] = e.split(">")[1].split("^")
            names = [c for c, _ in t.cols if cols is None or c in cols]
            kf = dict(t.cols).get(t.key)

            def get(i):
                def f(self, row):
                    v = None
                    if t.key and t.key in names:
                        v = vals.get(drv.dscalar(kf, row[names.index(t.key)]))
                    if v is None:
                        v = vals["*"]
                    return drv.scalar(drv.Tok(v[i]), t.exps[i][1])
                return f
            base = t.table.__class__.IParameterProvider
            for e, _ in t.exps:
                assert hasattr(base, drv.snake(e)), "no %s in the parameter provider" % e
            return type("PP", (base,), {drv.snake(e): get(i) for i, (e, _) in enumerate(t.exps)})()

        def mkrow(t, cols, toks):
            v = toks.split("^"); r = []; i = 0
            for c, f in t.cols:
                if cols is not None and c not in cols:
                    r.append(None)
                    continue
                r.append(None if v[i] == "-" else drv.scalar(drv.Tok(v[i]), f))
                i += 1
            return tuple(r)

        def dcol(f, v):
            if v is None:
                return "-"
            if f.type == "B" and v in (0, 1):
                v = bool(v)
            return drv.dscalar(f, v)

        def act(a):
            if a[0] == "C":
                if len(a) > 1 and a[1]:
                    db.create_schema(a[1].split(","))
                else:
                    db.create_schema()
                return "done"
            if a[0] == "D":
                db.delete_schema()
                return "done"
            t = ts[a[1]]
            if a[0] == "c":
                t.table.create_table()
                return "done"
            if a[0] == "k":
                t.table.create_ordinary_rowid_table()
                return "done"
            if a[0] == "d":
                t.table.delete_table()
                return "done"
            cols = None if a[2] == "*" else a[2].split(",")
            if a[0] == "W":
                rows = [mkrow(t, cols, x) for x in a[4].split(";") if x]
                if cols is None:
                    t.table.write(rows)
                else:
                    t.table.write(rows, cols)
                return "done"
            cond = bytes.fromhex(a[4]).decode()
            if a[0] == "U":
                r = mkrow(t, cols, a[5])
                if cols is None:
                    t.table.update(r, cond)
                else:
                    t.table.update_columns(r, cols, cond)
                return "done"
            args = ([provider(t, a[3], cols)] if t.exps else []) + ([] if cols is None else [cols]) + ([cond] if cond else [])
            it = t.table.read(*args) if cols is None else t.table.read_columns(*args)
            l = sorted("^".join(dcol(f, v) for (_, f), v in zip(t.cols, r)) for r in it)
            return "rows %d %s" % (len(l), ";".join(l))
        out = ["ok"]
        try:
            for x in acts:
                try:
                    out.append(act(x.split("|")))
                except Exception as e:
                    import traceback
                    tb = traceback.extract_tb(e.__traceback__)[-1]
                    out.append(("err %s %s at %s:%d" % (type(e).__name__, e, tb.filename.rsplit("/", 1)[-1], tb.lineno)).replace("\n", " ").replace("\t", " "))
        finally:
            db.close()
            if ext is not None:
                ext.close()
        return "\t".join(out)
    ops["SQ"] = op_sq

    # --- walker and tree creator
    import re as _re
    z = drv.zserio

    def leafv(v):
        if v is None:
            return "null"
        if isinstance(v, bool):
            return "1" if v else "0"
        if isinstance(v, int):
            import enum
            return str(v.value) if isinstance(v, enum.Enum) else str(v)
        if isinstance(v, float):
            import struct
            return "fNaN" if v != v else "f%016x" % struct.unpack(">Q", struct.pack(">d", v))[0]
        if isinstance(v, str):
            return "s" + v.encode("utf-8").hex()
        if isinstance(v, (bytes, bytearray)):
            return "b" + bytes(v).hex()
        if isinstance(v, z.BitBuffer):
            n = v.bitsize
            b = bytearray(v.buffer[:(n + 7) // 8])
            if n % 8:
                b[-1] &= 0xff << (8 - n % 8) & 0xff
            return "x%d:%s" % (n, bytes(b).hex())
        if hasattr(v, "value"):
            return str(v.value)
        return "?" + type(v).__name__

    class Log(z.WalkObserver):
        def __init__(self):
            self.r = []

        def begin_root(self, o):
            self.r.append("R")

        def end_root(self, o):
            self.r.append("r")

        def begin_array(self, a, m):
            self.r.append("A:%s:%d" % (m.schema_name, len(a)))

        def end_array(self, a, m):
            self.r.append("a:%s" % m.schema_name)

        def begin_compound(self, o, m, i=None):
            self.r.append("C:%s:%s" % (m.schema_name, "-" if i is None else i))

        def end_compound(self, o, m, i=None):
            self.r.append("c:%s:%s" % (m.schema_name, "-" if i is None else i))

        def visit_value(self, v, m, i=None):
            self.r.append("V:%s:%s:%s" % (m.schema_name, "-" if i is None else i, leafv(v)))

    class Scripted(z.WalkFilter):
        def __init__(self, bits):
            self.bits = bits; self.n = 0

        def nxt(self, *a):
            self.n += 1
            return self.bits[(self.n - 1) % len(self.bits)] == "1"
        before_array = after_array = before_compound = after_compound = before_value = after_value = nxt

    def mkfilter(p):
        s = p.pop(0)
        if s[0] == "D":
            return z.DepthWalkFilter(int(s[1:]))
        if s[0] == "L":
            return z.ArrayLengthWalkFilter(int(s[1:]))
        if s[0] == "X":
            return z.RegexWalkFilter(bytes.fromhex(s[1:]).decode())
        if s[0] == "S":
            return Scripted(s[1:])
        if s[0] == "N":
            return z.walker.DefaultWalkFilter()
        return z.AndWalkFilter([mkfilter(p) for _ in range(int(s[1:]))])

    def op_k(cid, *rest):
        ph = "build"
        try:
            o = drv.build(drv.Tok(rest[-1]), drv.comps[cid])
            r = ["ok"]
            for s in rest[:-1]:
                ph = "walk " + s
                log = Log()
                (z.Walker(log) if s == "-" else z.Walker(log, mkfilter(s.split(",")))).walk(o)
                r.append(" ".join(log.r))
            return "\t".join(r)
        except Exception as e:
            return drv.errs(ph, e)
    ops["K"] = op_k

    def fails(f, *a):
        try:
            f(*a)
        except z.PythonRuntimeException:
            return True
        return False

    class Copy(z.WalkObserver):
        def __init__(self, c):
            self.c = c

        def begin_root(self, o):
            self.c.begin_root()

        def end_root(self, o):
            self.result = self.c.end_root()

        def begin_array(self, a, m):
            if self.c.get_field_type(m.schema_name).schema_name != m.type_info.schema_name:
                raise ValueError("get_field_type of " + m.schema_name)
            self.c.begin_array(m.schema_name)
            if self.c.get_element_type().schema_name != m.type_info.schema_name:
                raise ValueError("get_element_type of " + m.schema_name)

        def end_array(self, a, m):
            self.c.end_array()

        def begin_compound(self, o, m, i=None):
            if i is None:
                if not (fails(self.c.begin_array, m.schema_name) and fails(self.c.end_array) and fails(self.c.begin_compound_element)):
                    raise ValueError("creator accepts an array at " + m.schema_name)
                self.c.begin_compound(m.schema_name)
            else:
                if not (fails(self.c.begin_compound, m.schema_name) and fails(self.c.end_compound)):
                    raise ValueError("creator accepts a compound at " + m.schema_name)
                self.c.begin_compound_element()

        def end_compound(self, o, m, i=None):
            if i is None:
                self.c.end_compound()
            else:
                self.c.end_compound_element()

        def visit_value(self, v, m, i=None):
            if i is None:
                self.c.set_value(m.schema_name, v)
            else:
                self.c.add_value_element(v)

    def op_z(cid, toks):
        c = drv.comps[cid]
        ph = "build"
        try:
            o = drv.build(drv.Tok(toks), c)
            ph = "create"
            copy = Copy(z.ZserioTreeCreator(c.cls.type_info(), *[getattr(o, f.prop) for f in c.params]))
            z.Walker(copy).walk(o)
            n = copy.result
            ph = "dump"
            d = drv.dump(c, n)
            ph = "write"
            w = z.BitStreamWriter()
            n.initialize_offsets(0)
            n.write(w)
            return "ok\t%s\t%s:%d\t%d" % (d, bytes(w.byte_array).hex(), w.bitposition, 1 if n == o else 0)
        except Exception as e:
            return drv.errs(ph, e)
    ops["Z"] = op_z

    # ---------------------------------------------------------------- type information

    TA = z.typeinfo.TypeAttribute
    MA = z.typeinfo.MemberAttribute

    def has(a, k):
        return k in a

    def ti_field(f):
        a = f.attributes
        args = a.get(MA.TYPE_ARGUMENTS, [])
        return "%s %s %d %s" % (f.schema_name, f.type_info.schema_name, len(args), "".join((
            "x" if MA.EXTENDED in a else "", "a%d" % a[MA.ALIGN]() if MA.ALIGN in a else "", "o" if MA.OFFSET in a else "",
            "i" if MA.INITIALIZER in a else "", "p" if MA.OPTIONAL in a else "", "c" if a.get(MA.OPTIONAL) is not None else "",
            "k" if MA.CONSTRAINT in a else "", "A" if MA.ARRAY_LENGTH in a else "", "L" if a.get(MA.ARRAY_LENGTH) is not None else "",
            "P" if MA.PACKED in a else "", "I" if MA.IMPLICIT in a else "")))

    def ti_val(v):
        if isinstance(v, bool):
            return "true" if v else "false"
        return str(v) if isinstance(v, int) else "?"

    def ti_record(t, nxt):
        a = t.attributes
        if TA.UNDERLYING_TYPE in a:
            its = a[TA.ENUM_ITEMS] if TA.ENUM_ITEMS in a else a[TA.BITMASK_VALUES]
            u = a[TA.UNDERLYING_TYPE]
            nxt.append(u)
            return "%s %s %s %d%s" % (t.schema_name, "E" if TA.ENUM_ITEMS in a else "M", u.schema_name,
                                      len(a.get(TA.UNDERLYING_TYPE_ARGUMENTS, [])), "".join(" i:%s=%d%s%s" % (
                i.schema_name, i.py_item.value, "d" if i.is_deprecated else "", "r" if i.is_removed else "") for i in its))
        if TA.FIELDS not in a:
            return "%s B -" % t.schema_name
        r = "%s %s" % (t.schema_name, "C" if TA.CASES in a else "U" if TA.SELECTOR in a else "S")
        for p in a.get(TA.PARAMETERS, []):
            if not isinstance(getattr(t.py_type, p.attributes[MA.PROPERTY_NAME], None), property):
                r += " NOPROPERTY"
            r += " p:%s %s" % (p.schema_name, p.type_info.schema_name); nxt.append(p.type_info)
        for f in a[TA.FIELDS]:
            r += " f:" + ti_field(f); nxt.append(f.type_info)
            if not isinstance(getattr(t.py_type, f.attributes[MA.PROPERTY_NAME], None), property):
                r += " NOPROPERTY"
            if MA.OPTIONAL in f.attributes and not all(callable(getattr(t.py_type, f.attributes[k], None))
                                                       for k in (MA.IS_USED_INDICATOR_NAME, MA.IS_SET_INDICATOR_NAME)):
                r += " NOINDICATOR"
        for f in a.get(TA.FUNCTIONS, []):
            r += " u:%s %s" % (f.schema_name, f.type_info.schema_name); nxt.append(f.type_info)
        if TA.CASES in a:
            for c in a[TA.CASES]:
                r += " c:%s" % ("-" if c.field is None else c.field.schema_name) + "".join("," + ti_val(e()) for e in c.case_expressions)
        return r

    def op_t(cid, toks, wants):
        c = drv.comps[cid]
        ph = "info"
        try:
            ti = c.cls.type_info()
            m = {}
            q = [ti]
            while q:
                t = q.pop(0)
                if t.schema_name not in m:
                    m[t.schema_name] = ti_record(t, q)
            ph = "build"
            o = drv.build(drv.Tok(toks), c)
            ph = "values"
            want = set(wants.split(" "))
            v = []
            for f in ti.attributes[TA.FIELDS]:
                n = f.schema_name
                if "c:" + n in want:
                    v.append("c:%s=%s" % (n, ti_val(bool(f.attributes[MA.OPTIONAL](o)))))
                if "k:" + n in want:
                    v.append("k:%s=%s" % (n, ti_val(bool(f.attributes[MA.CONSTRAINT](o)))))
                if "l:" + n in want:
                    v.append("l:%s=%s" % (n, ti_val(f.attributes[MA.ARRAY_LENGTH](o))))
                if "i:" + n in want:
                    v.append("i:%s=%s" % (n, ti_val(f.attributes[MA.INITIALIZER]())))
            for f in ti.attributes.get(TA.FUNCTIONS, []):
                if "u:" + f.schema_name in want:
                    v.append("u:%s=%s" % (f.schema_name, ti_val(f.attributes[MA.FUNCTION_RESULT](o))))
            return "ok\t%s\t%s" % ("; ".join(m[k] for k in sorted(m)), " ".join(v))
        except Exception as e:
            return drv.errs(ph, e)
    ops["T"] = op_t
