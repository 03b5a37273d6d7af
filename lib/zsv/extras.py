"""Random services, pubsubs, sql tables and databases, rules and documentation comments on top of a random schema."""
from .model import *


class Extra(Decl):
    """declaration which is neither a value type nor a constant"""


class Method:
    def __init__(self, name, req, resp):
        self.name = name; self.req = req; self.resp = resp; self.doc = None


class Service(Extra):
    kind = "service"

    def __init__(self, name, methods):
        self.name = name; self.methods = methods

    def text(self, r):
        return "service %s\n{\n%s};\n" % (self.name, "".join(
            "%s    %s %s(%s);\n" % (doc_text(m.doc, "    "), r.ty(m.resp), m.name, r.ty(m.req)) for m in self.methods))


class Message:
    def __init__(self, name, ty, topic, expr, pub, sub):
        self.name = name; self.ty = ty; self.topic = topic; self.expr = expr; self.pub = pub; self.sub = sub; self.doc = None


class Pubsub(Extra):
    kind = "pubsub"

    def __init__(self, name, messages):
        self.name = name; self.messages = messages

    def text(self, r):
        return "pubsub %s\n{\n%s};\n" % (self.name, "".join(
            "%s    %stopic(%s) %s %s;\n" % (doc_text(m.doc, "    "), "" if m.pub and m.sub else "publish " if m.pub else "subscribe ",
                                            m.expr if isinstance(m.expr, str) else r.expr(m.expr), r.ty(m.ty), m.name) for m in self.messages))


class Column:
    def __init__(self, name, ty, args=None, sql=None, virtual=False):
        self.name = name; self.ty = ty
        self.args = args            # of a parameterized blob: list of "explicit name" / E / column name
        self.sql = sql; self.virtual = virtual; self.doc = None

    def type_text(self, r):
        s = r.typename(self.ty.decl) if self.ty.kind == "ref" else r.ty(self.ty)
        if self.args:
            s += "(" + ", ".join("explicit " + a[1] if a[0] == "explicit" else r.expr(a[1]) for a in self.args) + ")"
        return s


class Table(Extra):
    kind = "sql_table"

    def __init__(self, name, columns, sql=None, using=None, without_rowid=False):
        self.name = name; self.columns = columns; self.sql = sql; self.using = using; self.without_rowid = without_rowid
        self.template = None        # (template name, [arguments], [parameter names], {column index: parameter})

    def text(self, r):
        head = self.name
        sub = {}
        if self.template:
            head = "%s<%s>" % (self.template[0], ", ".join(self.template[2]))
            sub = self.template[3]
        s = "sql_table %s%s\n{\n" % (head, " using " + self.using if self.using else "")
        for i, c in enumerate(self.columns):
            s += "%s    %s%s %s%s;\n" % (doc_text(c.doc, "    "), "sql_virtual " if c.virtual else "", sub.get(i) or c.type_text(r), c.name,
                                      ' sql %s' % strlit(c.sql) if c.sql else "")
        if self.sql:
            s += "    sql %s;\n" % strlit(self.sql)
        if self.without_rowid:
            s += "    sql_without_rowid;\n"
        s += "};\n"
        if self.template:
            s += "\ninstantiate %s<%s> %s;\n" % (self.template[0], ", ".join(r.ty(a) for a in self.template[1]), self.name)
        return s


class Database(Extra):
    kind = "sql_database"

    def __init__(self, name, tables):
        self.name = name; self.tables = tables      # [(field name, Table)]

    def text(self, r):
        return "sql_database %s\n{\n%s};\n" % (self.name, "".join("    %s %s;\n" % (r.typename(t), n) for n, t in self.tables))


class RuleGroup(Extra):
    kind = "rule_group"

    def __init__(self, name, rules):
        self.name = name; self.rules = rules        # [(id, doc)]

    def text(self, r):
        return "rule_group %s\n{\n%s};\n" % (self.name, "".join("%s    rule %s;\n" % (doc_text(d, "    "), strlit(i)) for i, d in self.rules))


def doc_text(doc, indent=""):
    if not doc:
        return ""
    return "".join(indent + l + "\n" for l in doc.split("\n"))


WORDS = ["tile", "level", "a < b && c > d", "& amp;", "\"quoted\"", "<b>bold</b>", "größe", "日本", "x - y", "100%", "${x}", "#if", "back\\slash",
         "it's", "path/to", "snake_case", "`code`", "*emph*", "1. item", "$$", "{brace}", "&lt;", "<#list>", "#{y}", "[a](https://b.c/d)", "--"]


def random_doc(t, schema, kind):
    def words():
        return " ".join(t.pick(WORDS) for _ in range(t.int(1, 6)))
    k = t.raw(5)
    if k == 0:
        return "/** %s */" % words().replace("*/", "")
    if k == 1:
        s = "/**\n * %s.\n *\n * %s\n" % (words(), words())
        if t.chance(40):
            d = t.pick([d for d in schema.order if isinstance(d, (Compound, Enum, Bitmask))] or [None])
            if d is not None:
                s += " * @see \"%s\" %s.%s\n" % (words().replace('"', "").replace("\\", ""), d.pkg, d.name) if t.chance(50) else " * @see %s.%s\n" % (d.pkg, d.name)
        if t.chance(30):
            s += " * @todo %s\n" % words()
        if t.chance(20):
            s += " * @deprecated\n"
        return s + " */"
    if k == 2:
        return "/*!\n%s\n\n* %s\n* %s\n\n%s\n!*/" % (words(), words(), words(), "    " + words())
    if k == 3:
        return "//! %s\n//! %s" % (words(), words())
    return "// %s" % words()


def add_docs(t, schema, chance=30):
    """documentation comments for declarations, fields and items"""
    for d in schema.order:
        if t.chance(chance):
            d.doc = random_doc(t, schema, "decl")
        for xs in (getattr(d, "fields", ()), getattr(d, "items", ()), getattr(d, "methods", ()), getattr(d, "messages", ()), getattr(d, "columns", ())):
            for x in xs:
                if t.chance(chance // 2):
                    x.doc = random_doc(t, schema, "member")


SQLINTS = [fixed(8, False), fixed(16, True), fixed(32, False), fixed(64, True), fixed(64, False), bitf(1, False), bitf(5, False), bitf(33, False), bitf(13, True),
           bitf(63, False), var("varint16"), var("varuint32"), var("varint64"), var("varuint64"), var("varint"), var("varuint"), var("varsize")]


def compounds(schema, params=False):
    """compounds which may be the whole of a stream"""
    return [d for d in schema.order if isinstance(d, Compound) and (params or not d.params) and not getattr(d, "hidden", False)]


def gen_service(t, schema, name):
    cs = compounds(schema)
    ms = []
    for i in range(t.weighted(((0, 1), (1, 3), (2, 4), (3, 3), (6, 2)))):
        n = t.pick(["power%d", "getTile%d", "x%d", "UpperCase%d", "snake_case_%d", "callMethod%d", "aB%d"]) % i
        ty = [BYTES if t.chance(15) or not cs else ref(t.pick(cs)) for _ in range(2)]
        ms.append(Method(n, *ty))
    return Service(name, ms)


def gen_pubsub(t, schema, name):
    cs = compounds(schema)
    ms = []
    for i in range(t.weighted(((0, 1), (1, 3), (2, 4), (3, 3), (6, 2)))):
        n = t.pick(["power%d", "tile%d", "x%d", "UpperCase%d", "snake_case_%d", "aB%d"]) % i
        if ms and t.chance(10):
            topic = t.pick(ms).topic
        else:
            topic = t.pick(["simple/%d", "a/b/c/%d", "/%d/", "sp ace %d", "quote\"%d", "back\\%d", "ünï%d", "%d"]) % i
        expr = strlit(topic)
        if len(topic) > 2 and t.chance(20):
            expr = strlit(topic[:2]) + " + " + strlit(topic[2:])
        d = t.raw(4)
        ms.append(Message(n, BYTES if t.chance(15) or not cs else ref(t.pick(cs)), topic, expr, d != 1, d != 2))
    return Pubsub(name, ms)


def gen_table(t, schema, name, template_ok=True):
    leaf = [d for d in schema.order if isinstance(d, (Enum, Bitmask))]
    cs = compounds(schema)
    ps = [d for d in compounds(schema, True) if d.params and all(p.ty.base().kind in ("int", "var", "bool", "string", "float") for p in d.params)]
    subs = [d for d in schema.order if isinstance(d, Subtype) and d.ty.base().kind in ("int", "var", "bool", "string", "float")]
    cols = []
    for i in range(t.weighted(((1, 1), (2, 3), (3, 4), (5, 3), (8, 1)))):
        n = t.pick(["colA%d", "tileId%d", "x%d", "snake_case_%d", "MixedCase%d", "aB%d"]) % i
        k = t.raw(12)
        args = None
        if k < 4:
            ty = t.pick(SQLINTS)
        elif k == 4:
            ty = BOOL
        elif k == 5:
            ty = STRING
        elif k == 6:
            ty = t.pick([F16, F32, F64])
        elif k == 7 and leaf:
            ty = ref(t.pick(leaf))
        elif k == 8 and subs:
            ty = ref(t.pick(subs))
        elif k < 10 and ps:
            d = t.pick(ps)
            ty = ref(d)
            args = []
            for p in d.params:
                b = p.ty.base()
                if b.kind in ("int", "var") and t.chance(30):
                    args.append(("const", lit(min(max(3, b.lo), b.hi))))
                else:
                    args.append(("explicit", t.pick(["exp%d_%d", "level%d_%d"]) % (i, len(args)) if t.chance(75) else "shared" + str(b.name).replace(":", "_")))
        elif cs:
            ty = ref(t.pick(cs))
        else:
            ty = t.pick(SQLINTS)
        sql = t.pick([None, None, None, "NOT NULL", "NULL", "DEFAULT NULL"])
        cols.append(Column(n, ty, args, sql))
    # a key which makes rows addressable
    key = Column(t.pick(["id", "keyCol", "k_1"]), t.pick([fixed(8, False), fixed(32, False), fixed(64, True), var("varint32"), STRING, bitf(17, False)]), None, None)
    tab = Table(name, cols)
    if t.chance(75):
        if t.chance(60):
            key.sql = "PRIMARY KEY NOT NULL"
        else:
            tab.sql = "PRIMARY KEY(%s)" % key.name
        cols.insert(0 if t.chance(70) else t.raw(len(cols) + 1), key)
        tab.key = key
        tab.without_rowid = t.chance(20)
    else:
        tab.key = None
    if template_ok and t.chance(20):
        c = t.raw(len(cols))
        if not cols[c].args and cols[c] is not key:
            tab.template = ("Tpl" + name, [cols[c].ty], ["TCOL"], {c: "TCOL"})
    return tab


def gen_fts(t, schema, name):
    n = t.int(1, 3)
    tab = Table(name, [Column("text%d" % i, STRING) for i in range(n)], using=t.pick(["fts4", "fts5"]))
    if tab.using == "fts4" and t.chance(50):
        tab.key = Column("docid", fixed(64, True), virtual=True)
        tab.columns.insert(t.raw(n + 1), tab.key)
    return tab


def add_extras(t, schema, pkg=None, services=1, pubsubs=1, tables=2, fts=True, rules=True, docs=30):
    """adds declarations to the main package; returns them"""
    pkg = pkg or schema.main
    out = []

    def add(d):
        schema.add(d, pkg)
        out.append(d)
        return d
    for i in range(services):
        add(gen_service(t, schema, t.pick(["Service%dX", "My_Service%d", "S%dX"]) % i))
    for i in range(pubsubs):
        add(gen_pubsub(t, schema, t.pick(["Pubsub%dX", "My_Pubsub%d", "P_s%dX"]) % i))
    tabs = []
    for i in range(tables):
        tabs.append(add(gen_table(t, schema, t.pick(["Table%dX", "My_Table%d", "T_%dX"]) % i)))
    if fts and t.chance(50):
        tabs.append(add(gen_fts(t, schema, "FtsTable")))
    if tabs:
        fields = []
        for x in tabs:
            for j in range(t.pick([1, 1, 2])):
                fields.append((t.pick(["%s_f%d", "%sInst%d"]) % (x.name[:1].lower() + x.name[1:], j), x))
        add(Database(t.pick(["World", "The_Database", "D_bX"]), fields))
    if rules and t.chance(40):
        add(RuleGroup("Rules%dX" % t.raw(9), [("rule-%d" % i, random_doc(t, schema, "rule")) for i in range(t.int(1, 3))]))
    if docs:
        add_docs(t, schema, docs)
    return out
