"""P20: SQL tables and databases store and return rows faithfully."""
import sys, common, os, sqlite3, struct, json, tempfile, shutil
from zsv import runner, codec, refcodec, langs, engine, extras, sqlglue
from zsv.gen import GenFail, ValueGen
from zsv.tape import Tape
from zsv.model import *
from zsv.refcodec import Reject, Ambiguous

ROUNDS = 3


class Cell:
    """value of a column: tokens to build it, expected dump, raw SQLite value"""
    def __init__(self, tokens, dump, raw, obj=None):
        self.tokens = tokens; self.dump = dump; self.raw = raw; self.obj = obj


NULL = Cell("-", "-", None)


def s64(v):
    return v - (1 << 64) if v >= 1 << 63 else v


def sqltype(ty):
    k = ty.base().kind
    if k in ("int", "var", "dyn", "bool"):
        return "INTEGER"
    if k == "string":
        return "TEXT"
    if k == "float":
        return "REAL"
    return "BLOB" if langs.tcode(ty) == "O" else "INTEGER"


def ddl(inst, t, rowid=True):
    cols = []
    for c in t.columns:
        if c.virtual:
            continue
        s = c.name
        if not t.using:
            s += " " + sqltype(c.ty)
        if c.sql:
            s += " " + c.sql
        cols.append(s)
    if t.sql:
        cols.append(t.sql)
    return "CREATE %s %s%s(%s)%s" % ("VIRTUAL TABLE" if t.using else "TABLE", inst, " USING " + t.using if t.using else "", ", ".join(cols),
                                     " WITHOUT ROWID" if t.without_rowid and not rowid else "")


def layout(con, db, inst):
    c = con.cursor()
    r = [tuple(x)[1:] for x in c.execute("PRAGMA %s.table_xinfo(%s)" % (db, inst))]
    r.append(sorted(tuple(x)[2:5] for x in c.execute("PRAGMA %s.index_list(%s)" % (db, inst))))
    r += [tuple(x)[2:] for x in c.execute("PRAGMA %s.table_list(%s)" % (db, inst)) if x[0] == db]
    return r


class Hist:
    pass


class P20(codec.SchemaCheck):
    PROPERTY = "P20"
    LANGSET = ("java", "py", "cpp")
    NSCHEMAS = {"quick": 60, "thorough": 1000}
    OPTS = ("-withRangeCheckCode", "-withValidationCode")
    RULE = ("a case is one action of a history on a generated SQLite database (creation of the schema, rows written, rows updated, rows read, validation of "
            "the database or of a copy with one injected corruption); the phases of a history are run by Python, Java and C++ in turn on the same files; "
            "everything read is compared with a model of the tables, the stored cells and the table layout with an independent reading of the files; "
            "non-trivial: distinct, and rows or layout take part")
    ASSUMPTIONS = ["blobs are written with their offsets initialized", "column constraints are NOT NULL, NULL, DEFAULT NULL and primary keys",
                   "order of the rows read without ORDER BY is not judged"]

    def profile(self, idx):
        return dict(unions=1) if False else None

    def schema_for(self, seed, idx, choices=None):
        s, out = codec.gen_schema(choices if choices is not None else (seed, self.PROPERTY, idx), self.profile(idx))
        t = Tape((seed, "P20s", idx))
        ds = extras.add_extras(t, s, services=0, pubsubs=0, tables=t.int(1, 2), fts=True, rules=False, docs=0)
        self.db = [d for d in ds if isinstance(d, extras.Database)][0]
        rs = []
        for _, tab in self.db.tables:
            rs += [c.ty.base().decl for c in tab.columns if langs.tcode(c.ty) == "O"]
        s.roots = list(dict.fromkeys(rs)) or extras.compounds(s)[:1]
        return s, out

    # ------------------------------------------------------------ values
    def cell(self, t, c, exps):
        ty = c.ty
        if langs.tcode(ty) != "O":
            v = ValueGen(t).leaf_simple(ty)
            k = ty.base().kind
            if k == "float" and v == 0:
                v = 0.0         # SQLite stores -0.0 as the integer 0
            tok = langs.sc_tok(ty, v)
            if k == "string" and "\0" in v:
                raise GenFail("nul")
            raw = int(v) if k == "bool" else v
            if isinstance(raw, int):
                raw = s64(raw)
            if k == "float" and v != v:
                raise GenFail("nan")
            return Cell(tok, tok, raw)
        d = ty.base().decl
        for k in range(5):
            try:
                if c.args:
                    ps = [exps[a[1]] if a[0] == "explicit" else a[1].a[0] for a in c.args]
                    g = ValueGen(t); g.budget = 60
                    o = g.compound(d, ps)
                    from zsv.gen import check_offsets
                    check_offsets(o)
                else:
                    ps = []
                    o = ValueGen(t).root(d)
                w = codec.WCase(d, o, 0)
                o2 = refcodec.Decoder(w.data, 8 * len(w.data), 0).compound(d, list(ps))
                if len(w.data) > 4000:
                    continue
                return Cell(w.right_tokens, langs.dump(o2), w.data, (d, ps))
            except (GenFail, Trap, Reject, Ambiguous):
                continue
        raise GenFail("cell")

    def exps(self, t, tab):
        r = {}
        for n, ty, _, _ in sqlglue.explicit_params(tab):
            b = ty.base()
            if b.kind in ("int", "var") and t.chance(70):
                r[n] = min(max(t.int(0, 6), b.lo), b.hi)
            else:
                r[n] = ValueGen(t).leaf_simple(ty)
        return r

    def pp(self, tab, m):
        """parameter provider values: by key and default"""
        ex = sqlglue.explicit_params(tab)
        if not ex:
            return ""
        keyed = m["keyed"]
        s = []
        for k, r in (m["keyexp"].items() if keyed else ()):
            s.append("%s>%s" % (k, "^".join(langs.sc_tok(ty, r[n]) for n, ty, _, _ in ex)))
        s.append("*>%s" % "^".join(langs.sc_tok(ty, m["exp"][n]) for n, ty, _, _ in ex))
        return "&".join(s)

    # ------------------------------------------------------------ histories
    def cases(self, schema, seed, idx):
        out = []
        for k in range(3):
            try:
                out.append(self.history(Tape((seed, "P20h", idx, k)), schema))
            except GenFail:
                continue
        return out

    def history(self, t, schema):
        h = Hist()
        h.d = self.db; h.n = 9
        h.mode = t.pick("ffx")
        h.reloc = [i for i, _ in self.db.tables if t.chance(25)]
        h.black = [i for i, tab in self.db.tables if tab.without_rowid and t.chance(25)]
        h.tabs = {}
        for inst, tab in self.db.tables:
            key = getattr(tab, "key", None)
            h.tabs[inst] = {"tab": tab, "rows": [], "keyed": key is not None and tab.columns[0] is key, "keyexp": {}, "exp": self.exps(t, tab)}
        h.phases = []
        for ph in range(ROUNDS):
            acts = []
            if ph == 0:
                acts.append(("C|" + ",".join(h.black), "done", False))
            for _ in range(t.int(3, 7)):
                a = self.action(t, h)
                if a is not None:
                    acts.append(a)
            acts += [self.read(t, h, i, True) for i in h.tabs]
            snap = {i: [dict(r) for r in m["rows"]] for i, m in h.tabs.items()}
            h.phases.append((acts, snap))
        h.valid = None
        if True:
            h.valid = ";".join("%s=%s" % (i, self.pp(m["tab"], m)) for i, m in h.tabs.items() if sqlglue.explicit_params(m["tab"]))
        h.line = json.dumps([[a[0] for a in acts] for acts, _ in h.phases]) + ",".join(h.reloc) + h.mode
        return h

    def newrow(self, t, m, key=None, cols=None):
        """{column: cell}"""
        tab = m["tab"]; r = {}
        kc = getattr(tab, "key", None)
        exps = m["exp"]
        if kc is not None:
            if key is None:
                for _ in range(8):
                    c = self.cell(t, kc, None)
                    if all(x[kc.name].raw != c.raw for x in m["rows"]):
                        break
                else:
                    raise GenFail("key")
                key = c
            r[kc.name] = key
            if m["keyed"]:
                if key.tokens not in m["keyexp"]:
                    m["keyexp"][key.tokens] = self.exps(t, tab)
                exps = m["keyexp"][key.tokens]
        for c in tab.columns:
            if c is kc:
                continue
            nn = c.sql and "NOT NULL" in c.sql
            if cols is not None and c.name not in cols and not nn:
                r[c.name] = NULL
            elif not nn and t.chance(15):
                r[c.name] = NULL
            else:
                r[c.name] = self.cell(t, c, exps)
        return r

    def subset(self, t, m, need_nn):
        tab = m["tab"]
        if t.chance(50):
            return None
        kc = getattr(tab, "key", None)
        s = [c.name for c in tab.columns if (need_nn and (c is kc or (c.sql and "NOT NULL" in c.sql))) or t.chance(50)]
        if not s:
            s = [tab.columns[0].name]
        return s

    def cond(self, t, m, inst):
        """(sql text, predicate) or None"""
        tab = m["tab"]
        if tab.using:
            return ("", lambda r: True)
        kc = getattr(tab, "key", None)
        opts = [c for c in tab.columns if sqltype(c.ty) in ("INTEGER", "TEXT", "BLOB")]
        c = kc if kc is not None and t.chance(60) else t.pick(opts) if opts else None
        if c is None:
            return ("1=1", lambda r: True)
        n = c.name
        k = t.raw(5)
        if k == 0:
            return ("%s IS NULL" % n, lambda r: r[n].raw is None)
        if k == 1:
            return ("%s IS NOT NULL" % n, lambda r: r[n].raw is not None)
        if sqltype(c.ty) == "BLOB":
            return ("length(%s) > 3" % n, lambda r: r[n].raw is not None and len(r[n].raw) > 3)
        vs = [r[n].raw for r in m["rows"] if r[n].raw is not None]
        v = t.pick(vs) if vs and t.chance(85) else (7 if sqltype(c.ty) == "INTEGER" else "zz")
        q = str(v) if isinstance(v, int) else "'%s'" % v.replace("'", "''")
        if isinstance(v, int) and k == 2:
            if v == -(1 << 63):
                return ("1=1", lambda r: True)
            return ("%s <= %s" % (n, q), lambda r: r[n].raw is not None and r[n].raw <= v)
        if isinstance(v, int) and v == -(1 << 63):
            return ("1=1", lambda r: True)
        return ("%s = %s" % (n, q), lambda r: r[n].raw is not None and r[n].raw == v)

    def read(self, t, h, inst, full=False):
        m = h.tabs[inst]; tab = m["tab"]
        ex = sqlglue.explicit_params(tab)
        cols = None if full or t.chance(50) else self.subset(t, m, False)
        cond = ("", lambda r: True) if full or t.chance(30) else self.cond(t, m, inst)
        if cols is not None and ex and m["keyed"] and tab.key.name not in cols:
            cols = [tab.key.name] + cols
        rows = sorted("^".join(r[c.name].dump if cols is None or c.name in cols else "-" for c in tab.columns) for r in m["rows"] if cond[1](r))
        return ("R|%s|%s|%s|%s" % (inst, "*" if cols is None else ",".join(cols), self.pp(tab, m), cond[0].encode().hex()),
                "rows %d %s" % (len(rows), ";".join(rows)), len(rows) > 0)

    def action(self, t, h):
        inst = t.pick(list(h.tabs))
        m = h.tabs[inst]; tab = m["tab"]
        k = t.pick("WWWWRRUUUX")
        if k == "R":
            return self.read(t, h, inst)
        if k == "X":
            if t.chance(60) or tab.using:
                return None
            # not existing column
            return ("R|%s|%s|%s|" % (inst, "nocolumn", self.pp(tab, m)), "err", True)
        if k == "W":
            cols = self.subset(t, m, True)
            rows = []
            old = list(m["rows"])
            try:
                for _ in range(t.pick([0, 1, 1, 2, 3, 5])):
                    r = self.newrow(t, m, cols=cols)
                    rows.append(r)
                    m["rows"].append(r)     # keys stay distinct
            except GenFail:
                m["rows"][:] = old
                return None
            sel = [c.name for c in tab.columns if cols is None or c.name in cols]
            return ("W|%s|%s|%s|%s" % (inst, "*" if cols is None else ",".join(cols), self.pp(tab, m),
                                      ";".join("^".join(r[n].tokens for n in sel) for r in rows)), "done", bool(rows))
        # update
        if tab.using:
            return None
        cond = self.cond(t, m, inst)
        hit = [r for r in m["rows"] if cond[1](r)]
        cols = self.subset(t, m, False)
        kc = getattr(tab, "key", None)
        ex = sqlglue.explicit_params(tab)
        if kc is not None and (cols is None or kc.name in cols) and len(hit) != 1:
            cols = [c.name for c in tab.columns if c is not kc and t.chance(60)]
        if ex and m["keyed"] and len(hit) != 1 and (cols is None or any(c.args for c in tab.columns if c.name in cols)):
            cols = [c.name for c in tab.columns if c is not kc and not c.args]
        if cols is not None and not cols:
            return None
        try:
            key = None
            exps = dict(m["exp"])
            if kc is not None:
                key = hit[0][kc.name] if len(hit) == 1 else Cell("~none", "", None)
                if m["keyed"] and len(hit) == 1:
                    exps = m["keyexp"][key.tokens]
            new = {}
            for c in tab.columns:
                if cols is not None and c.name not in cols:
                    continue
                nn = c.sql and "NOT NULL" in c.sql
                new[c.name] = key if c is kc else NULL if not nn and t.chance(20) else self.cell(t, c, exps)
        except GenFail:
            return None
        for r in hit:
            r.update(new)
        sel = [c.name for c in tab.columns if cols is None or c.name in cols]
        pp = self.pp(tab, dict(m, keyexp={}, exp=exps)) if ex else ""
        return ("U|%s|%s|%s|%s|%s" % (inst, "*" if cols is None else ",".join(cols), pp, cond[0].encode().hex(),
                                     "^".join(new[n].tokens for n in sel)), "done", bool(hit))

    # ------------------------------------------------------------ running
    def bundle(self, ctx, res, schema, task, langset):
        db = self.db

        class B(codec.Bundle):
            def __init__(b):
                b.w = ctx.worker; b.schema = schema; b.variant = "fast"; b.pr = ctx.worker.project(); b.failed = {}; b.langs = []
                b.pr.write(render(schema))
                ok, out = b.pr.compile(engine.main_file(schema), opts=("-allowImplicitArrays",) + P20.OPTS)
                b.output = out; b.ok = ok
                if not ok:
                    b.failed["zserio"] = out
                    return
                if "py" in langset:
                    b.langs.append("py")
                if "java" in langset:
                    ok, out = b.pr.javac()
                    if ok:
                        b.pr.load_java(schema); b.langs.append("java")
                    else:
                        b.failed["java"] = out
                if "cpp" in langset:
                    schema.cpp_headers = ["%s/%s.h" % (db.pkg.replace(".", "/"), db.name)]
                    src = langs.cpp_driver(schema, schema.roots, extra=sqlglue.cpp_glue(db)).replace(
                        "  return \"FAIL\\tunknown op\";", '  if (p[0] == "SQ") return sq(p);\n  return "FAIL\\tunknown op";')
                    ok, out = b.pr.build_cpp(schema, schema.roots, extra_src=src, flags=("-Wl,--no-as-needed", "-lsqlite3"))
                    if ok:
                        b.langs.append("cpp")
                    else:
                        b.failed["cpp"] = out
        b = B()
        for l, o in b.failed.items():
            if os.environ.get("ZSV_DEBUG"):
                print(l, o[:1500])
        return b

    def line(self, b, lang, h, path, acts, schema):
        tc = {"py": langs.tc_py, "java": langs.tc_java}.get(lang, langs.tc_py)
        return "SQ\t%s\t%s|%s\t%s\t%s\t%s\t%s\t%s" % (langs.gname(schema.roots[0]) if schema.roots else "-", self.db.pkg, self.db.name, h.mode, path,
                                                      ",".join("%s>%s.2" % (i, path) for i in h.reloc), sqlglue.db_desc(self.db, tc), "\t".join(acts))

    def viol(self, res, task, b, lang, what, col, **kw):
        res.violate("%s: %s" % (lang, what), lang=lang, column=col, schema=codec.schema_text(b.schema), task=task,
                    **{k: (v[:3000] if isinstance(v, str) else v) for k, v in kw.items()})

    def judge(self, ctx, res, b, cases, task):
        if not b.langs:
            return
        d = tempfile.mkdtemp(prefix="sq", dir=b.pr.dir)
        dead = set()
        for rnd in range(ROUNDS):
            jobs = {}
            for hi, h in enumerate(cases):
                if hi in dead:
                    continue
                lang = b.langs[(rnd + hi + (task if isinstance(task, int) else 0)) % len(b.langs)]
                jobs.setdefault(lang, []).append((hi, h))
            for lang, hs in jobs.items():
                lines = [self.line(b, lang, h, "%s/h%d.db" % (d, hi), [a[0] for a in h.phases[rnd][0]], b.schema) for hi, h in hs]
                rs, crash = b.run(lang, lines)
                for (hi, h), r, ln in zip(hs, rs, lines):
                    e = ["ok"] + [a[1] for a in h.phases[rnd][0]]
                    g = [x if not (y == "err" and x.startswith("err")) else "err" for x, y in zip(r, e)] + list(r[len(e):])
                    for a in h.phases[rnd][0]:
                        res.case((codec.schema_id(b.schema), hi, rnd, a[0], a[1]), a[2])
                        res.count("action " + {"C": "create", "W": "write", "U": "update", "R": "read"}[a[0][0]])
                    if g != e:
                        dead.add(hi)
                        k = next((i for i, (x, y) in enumerate(zip(e, g)) if x != y), -1)
                        self.viol(res, task, b, lang, "%s phase %d" % (h.phases[rnd][0][k - 1][0][:1] if k > 0 else "status", rnd),
                                  "act " + (h.phases[rnd][0][k - 1][0][:1] if k > 0 else "?"), expected=e[k] if k >= 0 else str(e), observed=g[k] if 0 <= k < len(g) else "\t".join(r),
                                  step=k, request=ln)
                        continue
                    if self.raw(res, task, b, lang, h, "%s/h%d.db" % (d, hi), rnd, ln):
                        dead.add(hi)
                if crash and len(rs) < len(lines):
                    dead.update(hi for hi, _ in hs[len(rs):])
                    self.viol(res, task, b, lang, "driver crashed", "crash", observed=crash, request=lines[len(rs)])
        live = [(hi, h) for hi, h in enumerate(cases) if hi not in dead and h.valid is not None]
        self.validation(res, task, b, d, live)

    def raw(self, res, task, b, lang, h, path, rnd, ln):
        """the files are read without the generated code"""
        con = sqlite3.connect(path)
        try:
            con.execute("ATTACH DATABASE '%s.2' AS two" % path)
            ref = sqlite3.connect(":memory:")
            for inst, m in h.tabs.items():
                tab = m["tab"]
                dbn = "two" if inst in h.reloc else "main"
                other = "main" if dbn == "two" else "two"
                if rnd == 0:
                    ref.execute(ddl(inst, tab, inst in h.black))
                    e = layout(ref, "main", inst); g = layout(con, dbn, inst)
                    res.case((codec.schema_id(b.schema), inst, "layout", str(e)), True)
                    if e != g:
                        self.viol(res, task, b, lang, "layout of table %s" % inst, "layout", expected=str(e), observed=str(g), request=ln)
                        return True
                    if con.execute("SELECT count(*) FROM %s.sqlite_master WHERE name = ?" % other, (inst,)).fetchone()[0]:
                        self.viol(res, task, b, lang, "table %s is in the other file" % inst, "layout", expected="", observed="", request=ln)
                        return True
                names = ", ".join(c.name for c in tab.columns)
                g = sorted(repr(x) for x in con.execute("SELECT %s FROM %s.%s" % (names, dbn, inst)))
                e = sorted(repr(tuple(r[c.name].raw for c in tab.columns)) for r in h.phases[rnd][1][inst])
                if e != g:
                    self.viol(res, task, b, lang, "stored rows of %s" % inst, "stored", expected=str([x for x in e if x not in g]), observed=str([x for x in g if x not in e]), request=ln)
                    return True
            ref.close()
        finally:
            con.close()
        return False

    # ------------------------------------------------------------ validation
    def validation(self, res, task, b, d, live):
        jobs = []
        for hi, h in live:
            path = "%s/h%d.db" % (d, hi)
            keys = {}
            jobs.append((h, path, None, []))
            if h.reloc:
                # tables of the same names in the main file, which are not those of the database
                p2 = "%s/d%d.db" % (d, hi)
                shutil.copyfile(path, p2)
                shutil.copyfile(path + ".2", p2 + ".2")
                con = sqlite3.connect(p2, isolation_level=None)
                for inst in h.reloc:
                    con.execute("CREATE TABLE %s(decoy BLOB)" % inst)
                con.close()
                jobs.append((h, p2, None, []))
                res.count("validation with a table of the same name in the main file")
            t = Tape((task, "corrupt", hi, h.line[:200]))
            for k in range(6):
                p2 = "%s/c%d_%d.db" % (d, hi, k)
                shutil.copyfile(path, p2)
                if os.path.exists(path + ".2"):
                    shutil.copyfile(path + ".2", p2 + ".2")
                try:
                    what = self.corrupt(t, h, p2)
                except sqlite3.Error as e:
                    res.count("corruption refused by SQLite")
                    continue
                if what is not None:
                    jobs.append((h, p2, what[0], what[1]))
        total = len(self.db.tables)
        for lang in [l for l in b.langs if l in ("java", "cpp")]:
            lines = [self.line(b, lang, h, p, ["V|" + h.valid], b.schema) for h, p, w, e in jobs]
            rs, crash = b.run(lang, lines)
            for (h, p, w, e), r, ln in zip(jobs, rs, lines):
                res.case((codec.schema_id(b.schema), lang, w, ln[-300:], h.line[:200]), True)
                res.count("validation " + (w.split(" ")[0] if w else "clean"))
                if w is None:
                    n = sum(len(x) for x in h.phases[-1][1].values())
                    exp = "valid %d %d " % (total, n)
                    got = r[1] if len(r) > 1 else "\t".join(r)
                    if got != exp:
                        self.viol(res, task, b, lang, "validation of written rows", "valid", expected=exp, observed=got, request=ln)
                        break
                else:
                    got = r[1] if len(r) > 1 else "\t".join(r)
                    parts = got.split(" ", 3)
                    errs = parts[3].split(";") if got.startswith("valid ") and len(parts) > 3 and parts[3] else None
                    es = e(lang)
                    bad = None
                    if not got.startswith("valid "):
                        bad = "no report"
                    elif es == "any":
                        pass
                    elif es == "clean":
                        if errs:
                            bad = "unexpected error"
                    else:
                        errs = errs or []
                        if not any(any(x.startswith(y) for y in es) for x in errs):
                            bad = "corruption not reported"
                        elif any(x.split(":")[0].split(".")[0] != es[0].split(".")[0] for x in errs):
                            bad = "error in another table"
                        elif len(errs) > 1 and not w.startswith("layout") and len({x.rsplit(":", 1)[1] for x in errs}) > 1:
                            bad = "more rows reported"
                    if bad:
                        self.viol(res, task, b, lang, "validation: %s (%s)" % (bad, w), "corrupt " + w.split(" ")[0], expected=str(es), observed=got, request=ln, corruption=w)
                        break
            if crash and len(rs) < len(lines):
                self.viol(res, task, b, lang, "driver crashed", "crash", observed=crash, request=lines[len(rs)])

    def corrupt(self, t, h, path):
        """changes the file; (what, function language -> expected error prefixes / "clean" / "any")"""
        inst = t.pick(list(h.tabs))
        m = h.tabs[inst]; tab = m["tab"]
        rows = h.phases[-1][1][inst]
        con = sqlite3.connect(path + (".2" if inst in h.reloc else ""), isolation_level=None)
        try:
            kc = getattr(tab, "key", None)
            k = t.raw(8)
            if k == 0 or tab.using:
                return self.corrupt_layout(t, con, inst, tab, h)
            if kc is None and tab.columns:
                sel = "rowid"
            rs = [r for r in rows]
            if not rs:
                return None
            r = t.pick(rs)
            c = t.pick([c for c in tab.columns if c is not kc] or [None])
            if c is None:
                return None
            if kc is not None:
                where = "%s = ?" % kc.name; arg = r[kc.name].raw
                keys = str(arg).encode().hex() + "/"
            else:
                ids = [x[0] for x in con.execute("SELECT rowid FROM %s" % inst)]
                where = "rowid = ?"; arg = t.pick(ids)
                keys = None
                vals = con.execute("SELECT %s FROM %s WHERE rowid = ?" % (", ".join(x.name for x in tab.columns), inst), (arg,)).fetchone()
                raws = dict(zip([x.name for x in tab.columns], vals))
                r = {n: Cell("", "", v, next((x[n].obj for x in rows if x[n].raw == v), None)) for n, v in raws.items()}

            def put(v):
                con.execute("UPDATE %s SET %s = ? WHERE %s" % (inst, c.name, where), (v, arg))
            pre = "%s.%s:" % (inst, c.name)
            suf = ":" + keys if keys is not None else ""
            st = sqltype(c.ty)
            b = c.ty.base()
            if st == "BLOB":
                return self.corrupt_blob(t, put, r[c.name], c, pre, suf, m, r, kc)
            k = t.raw(4)
            if k == 0:      # another storage class
                v = {"INTEGER": t.pick(["abc", b"\x01\x02", 1.5]), "TEXT": b"\x01\x02", "REAL": t.pick(["abc", b"\x01"])}[st]
                put(v)
                return "type %r in %s" % (v, st), lambda lang: [pre + "INVALID_COLUMN_TYPE" + suf]
            if b.kind in ("int", "var") and not (b.lo <= -(1 << 63) or b.hi >= (1 << 63)):
                v = t.pick([b.lo - 1, b.hi + 1, t.int(b.hi + 1, (1 << 63) - 1) if b.hi + 1 < (1 << 63) else b.lo - 1, -(1 << 63), (1 << 63) - 1])
                if not -(1 << 63) <= v < 1 << 63 or b.lo <= v <= b.hi:
                    return None
                put(v)
                return "range %d of %s" % (v, b.name), lambda lang: [pre + "VALUE_OUT_OF_RANGE" + suf]
            if b.kind == "ref" and isinstance(b.decl, (Enum, Bitmask)):
                u = b.decl.ty.base() if hasattr(b.decl, "ty") else b.decl.base.base()
                if u.kind not in ("int", "var"):
                    return None
                bits = u.bits if u.kind == "int" else 63
                if isinstance(b.decl, Enum) and t.chance(60):
                    live = {x.value for x in b.decl.items}
                    cand = [x for x in (t.int(max(u.lo, -(1 << 62)), min(u.hi, 1 << 62)), max(live) + 1, min(live) - 1, 0, 1) if x not in live and u.lo <= x <= u.hi and x < 1 << 63]
                    if not cand:
                        return None
                    v = t.pick(cand)
                    put(v)
                    return "enum %d" % v, lambda lang: [pre + ("INVALID_ENUM_VALUE" if lang == "java" else "INVALID_VALUE") + suf]
                if u.hi >= 1 << 63 or u.lo <= -(1 << 63):
                    return None
                v = t.pick([u.hi + 1, u.lo - 1])
                put(v)
                return "range %d of %s" % (v, u.name), lambda lang: [pre + "VALUE_OUT_OF_RANGE" + suf, pre + "INVALID"]
            return None
        finally:
            con.close()

    def corrupt_blob(self, t, put, cell, c, pre, suf, m, r, kc):
        if cell.raw is None or cell.obj is None:
            return None
        d, ps = cell.obj
        data = bytearray(cell.raw)
        k = t.raw(4)
        if k == 0 and data:
            data = data[:t.raw(len(data))]
            what = "truncated"
        elif k == 1:
            data += t.bytes(t.int(1, 3))
            what = "longer"
        elif data:
            i = t.raw(8 * len(data))
            data[i // 8] ^= 0x80 >> i % 8
            what = "bit %d" % i
        else:
            return None
        data = bytes(data)
        put(data)
        try:
            dec = refcodec.Decoder(data, 8 * len(data), 0)
            o = dec.compound(d, list(ps))
            pos = dec.r.pos
            v, n, _ = refcodec.encode(o, 0)
        except (Reject, Trap):
            return "blob " + what, lambda lang: "any" if not data else [pre + "BLOB_PARSE_FAILED" + suf, pre + "BLOB_COMPARE_FAILED" + suf]
        except Ambiguous:
            return "blob " + what, lambda lang: "any"
        enc = refcodec.bits_to_bytes(v, n)
        if n == pos and len(data) == (n + 7) // 8 and enc == data:
            return "blob equal " + what, lambda lang: "clean"
        # bits which are skipped (alignment, padding) need not be reported, nor what follows the value
        return "blob " + what, lambda lang: "any"

    def corrupt_layout(self, t, con, inst, tab, h):
        c = t.pick(tab.columns)
        k = t.raw(4)
        pre = "%s.%s:" % (inst, c.name)
        if tab.using:
            # made again without the column; a docid exists in tables of fts4 only
            names = [x.name for x in tab.columns if not x.virtual and x is not c]
            con.execute("DROP TABLE %s" % inst)
            con.execute("CREATE VIRTUAL TABLE %s USING %s(%s)" % (inst, "fts5" if c.virtual else tab.using, ", ".join(names or ["other_column"])))
            return "layout virtual table", lambda lang: [pre + "COLUMN_MISSING"]
        if k == 0:
            con.execute("ALTER TABLE %s RENAME COLUMN %s TO renamed_column" % (inst, c.name))
            return "layout renamed", lambda lang: [pre + "COLUMN_MISSING"]
        if k == 1:
            con.execute("ALTER TABLE %s ADD COLUMN added_column INTEGER" % inst)
            return "layout added", lambda lang: ["%s.added_column:COLUMN_SUPERFLUOUS" % inst]
        # the table is created again with one column changed
        import copy
        t2 = copy.copy(tab); t2.columns = [copy.copy(x) for x in tab.columns]
        c2 = t2.columns[tab.columns.index(c)]
        d = ddl(inst, t2, inst in h.black)
        if k == 2:
            other = {"INTEGER": "TEXT", "TEXT": "BLOB", "REAL": "INTEGER", "BLOB": "TEXT"}[sqltype(c.ty)]
            new = d.replace("(%s %s" % (c.name, sqltype(c.ty)), "(%s %s" % (c.name, other)).replace(" %s %s" % (c.name, sqltype(c.ty)), " %s %s" % (c.name, other))
            exp = "INVALID_COLUMN_TYPE"
        else:
            if c is getattr(tab, "key", None):
                return None
            if c2.sql == "NOT NULL":
                c2.sql = None
            else:
                c2.sql = "NOT NULL"
            new = ddl(inst, t2, inst in h.black)
            exp = "INVALID_COLUMN_CONSTRAINT"
        if new == d:
            return None
        con.execute("DROP TABLE %s" % inst)
        con.execute(new)
        return "layout " + exp, lambda lang: [pre + exp]

    def shrink(self, ctx, v, deadline):
        return v

    def nontrivial(self, c):
        return True

    def sample(self, c):
        return {"history": c.line[:400], "tables relocated": c.reloc}

    def replay(self, ctx, v):
        return self.run(ctx, v["task"])


if __name__ == "__main__":
    sys.exit(runner.main(P20()))
