"""Equivalent spellings of a schema: templates, subtypes, qualified names, declaration order, layout and comments.

The result defines the same types with the same names, so that everything generated from it must behave the same."""
import re
from .model import *

TOK = re.compile(r'"(?:\\.|[^"\\\n])*"|/\*.*?\*/|//[^\n]*|@?[A-Za-z_]\w*|\d[\w.]*(?:[eE][+-]?\d+f?)?|\s+|<<|[<>=!]=|&&|\|\||.', re.S)


class EqRenderer(Renderer):
    """renders references by other spellings"""
    def __init__(self, rw, pkg):
        super().__init__(rw.schema, pkg)
        self.rw = rw
        self.binding = None         # inside of a template: {key of a type: template parameter}
        self.home = pkg             # package of the text
        self.tparam_selector = False

    def typename(self, d):
        rw = self.rw; t = rw.t
        if getattr(d, "nest", None) and not self.binding and self.home == d.pkg and t.chance(60):
            return rw.nested(d.nest)
        if self.binding:
            p = self.binding.get(("ref", id(d)))
            if p and t.chance(75):
                return p
        return rw.refname(d, self.home)

    def ty(self, x):
        rw = self.rw; t = rw.t
        key = rw.key(x)
        if self.binding and key is not None and key in self.binding and t.chance(75):
            s = self.binding[key]
            if x.args:
                s += "(" + ", ".join(self.expr(a) for a in x.args) + ")"
            return s
        if key is not None and t.chance(rw.subtype_chance):
            n = rw.subtype(x, self.home)
            if n:
                if x.args:
                    n += "(" + ", ".join(self.expr(a) for a in x.args) + ")"
                return n
        return x.text(self.pkg, self)

    def expr(self, e, prec=0):
        if e.k == "item" and self.tparam_selector and len(e.a) > 2 and e.a[2]:
            return self.typename(e.a[0]) + "." + e.a[0].items[e.a[1]].name
        return super().expr(e, prec)


class Rewriter:
    def __init__(self, t, schema, kinds=None):
        self.t = t; self.schema = schema
        self.n = 0
        self.extra = {p: [] for p in schema.pkgs}       # further declarations
        self.used = {p: set() for p in schema.pkgs}
        self.templated = {}
        self.stats = {}
        self.subtype_chance = t.pick([0, 10, 30])
        self.qual_chance = t.pick([0, 20, 60])
        self.template_chance = t.pick([0, 50, 80, 100])
        self.shuffle = t.chance(60)
        self.layout = t.chance(50)
        self.subs = {}

    def count(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def new(self, p):
        self.n += 1
        return "%s%dQ" % (p, self.n)

    @staticmethod
    def key(x):
        """identity of a type which may be a template argument or the target of a subtype"""
        if x.kind == "dyn":
            return None
        if x.kind == "ref":
            return ("ref", id(x.decl))
        return (x.kind, x.name)

    def refname(self, d, home):
        if d.pkg is not None and (self.t.chance(self.qual_chance) or home != d.pkg and home not in self.schema.pkgs):
            if home != d.pkg or self.t.chance(50):
                self.count("qualified names")
                return d.pkg + "." + d.name
        return d.name

    def subtype(self, x, home):
        """name of a subtype of the type (without arguments), visible in the package"""
        if x.kind == "ref" and not isinstance(x.decl, (Compound, Enum, Bitmask, Subtype)):
            return None
        k = (self.key(x), home)
        if home not in self.schema.pkgs:
            return None
        if k not in self.subs or self.t.chance(20):
            n = self.new("SubT")
            target = self.subs[k] if k in self.subs else self.refname(x.decl, home) if x.kind == "ref" else x.name
            self.extra[home].append("subtype %s %s;\n" % (target, n))
            self.subs[k] = n
            self.count("subtypes")
        return self.subs[k]

    # ------------------------------------------------------------ templates
    def types_of(self, d):
        """types mentioned in a compound which may become template parameters: {key: Ty}"""
        out = {}

        def add(x):
            k = self.key(x)
            if k is not None and not (x.kind == "ref" and x.decl is d):
                out.setdefault(k, x)
        for p in d.params:
            add(p.ty)
        for f in d.fields:
            add(f.ty)
        for f in d.funcs:
            add(f.ret)
        return out

    def argument(self, x, home):
        """template argument for a type"""
        t = self.t
        if t.chance(20):
            n = self.subtype(x, home)
            if n:
                return n
        return self.refname(x.decl, home) if x.kind == "ref" else x.name

    def template(self, d):
        t = self.t
        types = list(self.types_of(d).items())
        if not types:
            return None
        chosen = []
        for _ in range(t.weighted(((5, 1), (4, 2), (2, 3), (1, 5)))):
            c = t.pick(types)
            if c not in chosen:
                chosen.append(c)
        home = d.pkg
        if t.chance(25):
            home = t.pick(list(self.schema.pkgs) + ["zqtpl"])
        names = []
        for i, c in enumerate(chosen):
            names.append(t.pick(["T", "TYPE", "X", "P%d" % i, "Elem"]) + "Q%d" % i)
        r = EqRenderer(self, d.pkg)
        r.home = home
        r.binding = {c[0]: n for c, n in zip(chosen, names)}
        r.tparam_selector = True
        name = "Tpl" + d.name
        text = self.header(r.decl(d), d, "%s<%s>" % (name, ", ".join(names)))
        self.extra.setdefault(home, []).append(text)
        self.used.setdefault(home, set())
        args = [self.argument(c[1], d.pkg) for c in chosen]
        q = name if home == d.pkg and t.chance(70) else home + "." + name
        self.count("templates")
        if home != d.pkg:
            self.count("templates in another package")
        out = "instantiate %s<%s> %s;\n" % (q, ", ".join(args), d.name)
        if t.chance(35):        # the same template once more, for other types which are no less suitable
            alt = []
            for c in chosen:
                n = self.subtype(c[1], d.pkg) or args[chosen.index(c)]
                alt.append(self.other(c[1], n))
            if alt != args:
                self.alts.append((d.pkg, "struct %s { %s<%s> a; };\n" % (self.new("Alt"), q, ", ".join(alt))))
        return out

    def other(self, x, default):
        """another type for a second instantiation"""
        t = self.t
        if x.kind in ("int", "var") and t.chance(60):
            return t.pick(["uint8", "int16", "uint32", "int64", "uint64", "varint", "varuint32", "bit:5", "int:13"])
        if x.kind in ("float",):
            return t.pick(["float16", "float32", "float64"])
        return default

    @staticmethod
    def header(text, d, name):
        """replaces the name in the header of a declaration"""
        return re.sub(r"^(struct|union|choice) %s\b" % d.name, lambda m: m.group(1) + " " + name, text, count=1)

    def nested(self, term):
        """text of a term of nested template instantiations"""
        if isinstance(term, Ty):
            return self.argument(term, self.schema.main)
        return "%s<%s>" % (term[0].name, ", ".join(self.nested(x) for x in term[1]))

    # ------------------------------------------------------------ text
    def files(self):
        t = self.t
        self.alts = []
        self.families = []
        out = {p: [] for p in self.schema.pkgs}
        for pkg, decls in self.schema.pkgs.items():
            for d in decls:
                r = EqRenderer(self, pkg)
                if getattr(d, "nest", None):
                    fam = d.nest[0]
                    if fam not in self.families:
                        self.families.append(fam)
                        out[pkg].append(fam.text())
                    out[pkg].append("instantiate %s %s;\n" % (self.nested(d.nest), d.name))
                    self.count("nested templates")
                    if t.chance(50):
                        self.alts.append((pkg, "struct %s { %s };\n" % (self.new("Alt"), " ".join(
                            "%s a%d;" % (self.nested(x), i) for i, x in enumerate(d.nest_others)))))
                    continue
                if isinstance(d, Compound) and not getattr(d, "rawtext", None) and t.chance(self.template_chance):
                    x = self.template(d)
                    if x:
                        out[pkg].append(x)
                        continue
                out[pkg].append(r.decl(d))
        for pkg, xs in self.extra.items():
            out.setdefault(pkg, [])
            out[pkg] += xs
        self.with_alts = {p: [x for q, x in self.alts if q == p] for p in out}
        return out

    def finish(self, decls, alts):
        t = self.t
        files = {}
        pkgs = list(decls)
        for pkg in pkgs:
            body = list(decls[pkg]) + (self.with_alts[pkg] if alts else [])
            if self.shuffle:
                self.count("shuffled packages")
                for i in range(len(body) - 1, 0, -1):
                    j = t.raw(i + 1)
                    body[i], body[j] = body[j], body[i]
            imports = ["import %s.*;\n" % q for q in pkgs if q != pkg]
            if self.shuffle:
                imports.reverse()
            text = "package %s;\n\n%s\n%s" % (pkg, "".join(imports), "\n".join(body))
            if self.layout:
                text = self.relayout(text)
            files[pkg.replace(".", "/") + ".zs"] = text
        return files

    def relayout(self, text):
        t = self.t
        self.count("other layout")
        seps = [" ", "\n", "\t", "  ", "\r\n", " /* c */ ", " // c\n", "/**/", "/***/", "\n\n/* struct X { uint8 a; }; */\n", " /* \u00e9 */", "\f"]
        out = []
        prev = ""
        for x in TOK.findall(text):
            if x.isspace():
                out.append(t.pick(seps) if t.chance(25) and prev != "/" else x)
            else:
                # tokens which would not merge may stand side by side or apart
                if prev and not prev.isspace() and not (prev == "." or x == "." or prev == "@" or x == ":" or prev == ":") and t.chance(4) \
                        and "/" not in (prev, x) and not (prev in "<>" and x in "<>"):
                    out.append(t.pick(seps))
                out.append(x)
            prev = x
        return "".join(out)


def rewrite(t, schema):
    """(files without and with further instantiations, statistics)"""
    rw = Rewriter(t, schema)
    decls = rw.files()
    st = t.out if hasattr(t, "out") else None
    a = rw.finish(decls, False)
    b = rw.finish(decls, True) if any(rw.with_alts.values()) else None
    return a, b, rw.stats


# ---------------------------------------------------------------- pairs of types with the same encoding

def _subst(e, consts):
    """expression with parameters replaced by constants"""
    if not isinstance(e, E):
        return e
    if e.k == "par":
        c = consts[e.a[0]]
        x = E("const", c, t=e.t, lo=c.value, hi=c.value)
        x.jt = e.jt; x.ct = e.ct
        return x
    x = E(e.k, *[_subst(y, consts) for y in e.a], t=e.t, lo=e.lo, hi=e.hi, d=e.d)
    x.jt = e.jt; x.ct = e.ct
    return x


def _ty_subst(ty, consts):
    if ty.kind == "dyn":
        return Ty("dyn", signed=ty.signed, expr=_subst(ty.expr, consts))
    if ty.kind == "ref" and ty.args:
        return ref(ty.decl, [_subst(a, consts) for a in ty.args])
    return ty


class Pair:
    """a: struct A { x... } and b: an equivalent struct B; conv turns a value of A into a value of B"""
    def __init__(self, a, b, convs, classes):
        self.a = a; self.b = b; self.convs = convs; self.classes = classes

    def conv(self, o):
        vals = []
        for f, v in zip(self.convs, o.vals):
            vals += f(v)
        return SObj(self.b, [], vals)


def _inlined(t, schema, d, k):
    """struct or union without parameters which equals the given one for a constant of each parameter; (Const list, decl)"""
    import copy
    consts = []
    for j, q in enumerate(d.params):
        b = q.ty.base()
        if b.kind not in ("int", "var"):
            return None
        v = t.pick([0, 1, 3, b.lo, b.hi, t.pick([b.lo, b.hi]) // 2])
        v = min(max(v, b.lo), b.hi)
        if v == -(1 << 63):
            v += 1
        consts.append(Const("PAR_%d_%d_Q" % (k, j), q.ty, lit(v), v))
    n = copy.copy(d)
    n.params = []
    n.name = "Inl%dQ" % k
    n.fields = []
    for f in d.fields:
        if f.recursive:
            return None
        g = copy.copy(f)
        g.ty = _ty_subst(f.ty, consts)
        for a in ("arr", "opt", "offset", "constraint"):
            if isinstance(getattr(f, a), E):
                setattr(g, a, _subst(getattr(f, a), consts))
        n.fields.append(g)
    n.funcs = []
    if any(uses_fn(e) for f in d.fields for e in (f.arr, f.opt, f.offset, f.constraint, f.ty.expr) + tuple(f.ty.args)):
        return None
    return consts, n


def uses_fn(e):
    """calls a function of the same compound"""
    if not isinstance(e, E):
        return False
    if e.k == "fn" and e.a[0] is None:
        return True
    return any(uses_fn(x) for x in e.a)


class Family:
    """a template whose instantiations are nested in one another"""
    def __init__(self, name, n, how):
        self.name = name; self.n = n; self.how = how

    def text(self):
        ps = ["N%dQ" % i for i in range(self.n)]
        return "struct %s<%s>\n{\n%s};\n" % (self.name, ", ".join(ps), "".join(
            "    %s%s %s%s;\n" % ("optional " if h == "opt" else "packed " if h == "packed" else "", p, "nf%d" % i, "[]" if h in ("arr", "packed") else "")
            for i, (p, h) in enumerate(zip(ps, self.how))))

    def fields(self, tys):
        return [Field("nf%d" % i, x, arr="auto" if h in ("arr", "packed") else None, packed=h == "packed", opt=True if h == "opt" else None)
                for i, (x, h) in enumerate(zip(tys, self.how))]


def nested_terms(t, schema, pkg, tag, some_type):
    """(structs which are instances of nested templates, three outermost terms of one shape)"""
    fams = []
    for i in range(t.int(1, 3)):
        n = t.int(1, 2)
        fams.append(Family("NFam%s_%dQ" % (tag, i), n, [t.pick(["", "", "", "opt", "arr", "packed"]) for _ in range(n)]))
    leaves = []
    for _ in range(3):
        x = some_type()
        if x.kind in ("int", "var", "bool", "string", "float") or x.kind == "ref":
            leaves.append(x)
    leaves += [fixed(8, False), fixed(16, False), STRING]

    def shape(d):
        f = t.pick(fams)
        return (f, [shape(d - 1) if d and t.chance(75) else None for _ in range(f.n)])

    def fill(s):
        return (s[0], [fill(x) if x else t.pick(leaves) for x in s[1]])

    def keyof(x):
        return Rewriter.key(x) if isinstance(x, Ty) else (x[0].name, tuple(keyof(y) for y in x[1]))
    s = (fams[0], [shape(t.int(0, 2))] + [None] * (fams[0].n - 1))
    tops = [fill(s) for _ in range(3)]
    others = [fill(s) for _ in range(2)]
    made = {}; order = []

    def make(x):
        if isinstance(x, Ty):
            return x
        k = keyof(x)
        if k not in made:
            tys = [make(y) for y in x[1]]
            d = Struct("Nest%s_%dQ" % (tag, len(made)))
            d.fields = x[0].fields(tys)
            d.nest = x; d.nest_others = others
            made[k] = d
            order.append(d)
        return ref(made[k])
    return order, [make(x) for x in tops], tops


def flatten(d):
    """fields of a struct without the structs of nested templates, as far as they are neither optional nor in arrays"""
    out = []
    for f in d.fields:
        if f.ty.kind == "ref" and getattr(f.ty.decl, "nest", None) and not f.arr and f.opt is None:
            out += flatten(f.ty.decl)
        else:
            out.append((f.ty, dict(arr=f.arr, packed=f.packed, opt=f.opt)))
    return out


def flat_value(v, d):
    out = []
    for f, x in zip(d.fields, v.vals):
        if f.ty.kind == "ref" and getattr(f.ty.decl, "nest", None) and not f.arr and f.opt is None:
            out += flat_value(x, f.ty.decl)
        else:
            out.append(x)
    return out


def add_pairs(t, schema, n=2):
    """adds pairs of equivalent types to the schema"""
    pkg = schema.main
    plain = [d for d in schema.order if isinstance(d, Compound) and not d.params and not getattr(d, "noinner", False)
             and not any(f.arr == "implicit" for f in d.fields)]
    param = [d for d in schema.order if isinstance(d, (Struct, Union)) and d.params and not getattr(d, "noinner", False)]
    unions = [d for d in plain if isinstance(d, Union)]
    enums = [d for d in schema.order if isinstance(d, (Enum, Bitmask))]
    simple = [fixed(8, False), fixed(16, True), fixed(64, True), bitf(5, False), bitf(13, True), var("varint32"), var("varuint64"), var("varsize"),
              BOOL, STRING, F16, F32, F64, BYTES, EXTERN]
    pairs = []

    def some_type():
        k = t.raw(10)
        if k < 4 and plain:
            return ref(t.pick(plain))
        if k < 6 and enums:
            return ref(t.pick(enums))
        return t.pick(simple)

    def fld(i, f):
        e = E("fld", i, f)
        e.t = "int"
        return e
    for k in range(n):
        a = Struct("PairA%dQ" % k); b = Struct("PairB%dQ" % k)
        convs = []; classes = []
        extra = []
        for j in range(t.int(1, 4)):
            name = "x%d_%dq" % (k, j)
            kinds = ["auto array", "packed auto array", "optional", "optional array", "string", "bytes", "extern", "bool"]
            kinds += (["union"] * 3 if unions else []) + (["parameter"] * 4 if param else []) + (["enum"] * 2 if enums else [])
            kinds += ["nested templates"] * 2
            kind = t.pick(kinds)
            i = len(b.fields)
            if kind in ("auto array", "packed auto array", "optional array"):
                ty = some_type()
                p = kind[0] == "p" or (kind[0] == "o" and t.chance(50))
                f = Field(name, ty, arr="auto", packed=p, opt=True if kind[0] == "o" else None)
                a.fields.append(f)
                if kind[0] == "o":
                    g = Field("p%s" % name, BOOL)
                    h = Field("n%s" % name, var("varsize"), opt=E("fld", i, g, t="bool"))
                    b.fields += [g, h, Field("y%s" % name, ty, arr=fld(i + 1, h), packed=p, opt=E("fld", i, g, t="bool"))]
                    convs.append(lambda v: [v is not None, None if v is None else len(v), v])
                else:
                    h = Field("n%s" % name, var("varsize"))
                    b.fields += [h, Field("y%s" % name, ty, arr=fld(i, h), packed=p)]
                    convs.append(lambda v: [len(v), v])
            elif kind == "optional":
                ty = some_type()
                a.fields.append(Field(name, ty, opt=True))
                g = Field("p%s" % name, BOOL)
                b.fields += [g, Field("y%s" % name, ty, opt=E("fld", i, g, t="bool"))]
                convs.append(lambda v: [v is not None, v])
            elif kind in ("string", "bytes", "extern"):
                a.fields.append(Field(name, {"string": STRING, "bytes": BYTES, "extern": EXTERN}[kind]))
                h = Field("n%s" % name, var("varsize"))
                bits = kind == "extern"
                b.fields += [h, Field("y%s" % name, bitf(1, False) if bits else fixed(8, False), arr=fld(i, h))]
                if kind == "string":
                    convs.append(lambda v: [len(v.encode()), list(v.encode())])
                elif kind == "bytes":
                    convs.append(lambda v: [len(v), list(v)])
                else:
                    convs.append(lambda v: [v[0], [v[1][q // 8] >> (7 - q % 8) & 1 for q in range(v[0])]])
            elif kind == "bool":
                a.fields.append(Field(name, BOOL))
                b.fields.append(Field("y%s" % name, bitf(1, False)))
                convs.append(lambda v: [int(v)])
            elif kind == "enum":
                d = t.pick(enums)
                arr = t.chance(40)
                f = dict(arr="auto" if arr else None, packed=arr and t.chance(50))
                a.fields.append(Field(name, ref(d), **f))
                b.fields.append(Field("y%s" % name, d.ty, **f))
                convs.append(lambda v: [v])
            elif kind == "nested templates":
                ds, tys, terms = nested_terms(t, schema, pkg, "%d_%d" % (k, j), some_type)
                extra += ds
                for q, x in enumerate(tys):
                    a.fields.append(Field("%s_%d" % (name, q), x))
                    for ty, how in flatten(x.decl):
                        b.fields.append(Field("y%s_%d" % (name, len(b.fields)), ty, **how))
                    convs.append(lambda v, d=x.decl: flat_value(v, d))
            elif kind == "union":
                d = t.pick(unions)
                c = Choice("PairC%d_%dQ" % (k, j), [Param("tagq", var("varsize"))], d.fields)
                c.selector = E("par", 0, c.params[0], t="int")
                c.cases = [([lit(q)], q) for q in range(len(d.fields))]
                extra.append(c)
                arr = t.chance(30)
                h = Field("t%s" % name, var("varsize"))
                s = Struct("PairU%d_%dQ" % (k, j), [], [h, Field("c%s" % name, ref(c, [fld(0, h)]))])
                extra.append(s)
                a.fields.append(Field(name, ref(d), arr="auto" if arr else None))
                b.fields.append(Field("y%s" % name, ref(s), arr="auto" if arr else None))

                def one(v, c=c, s=s):
                    return SObj(s, [], [v.idx, CObj(c, [v.idx], v.idx, v.val)])
                convs.append((lambda v, one=one: [[one(x) for x in v]]) if arr else (lambda v, one=one: [one(v)]))
            else:
                d = t.pick(param)
                x = _inlined(t, schema, d, 10 * k + j)
                if not x:
                    continue
                consts, m = x
                extra += consts + [m]
                a.fields.append(Field(name, ref(d, [c.expr if t.chance(50) else E("const", c, t="int") for c in consts])))
                b.fields.append(Field("y%s" % name, ref(m)))

                def move(v, m=m):
                    return [SObj(m, [], v.vals) if isinstance(v, SObj) else CObj(m, [], v.idx, v.val)]
                convs.append(move)
            classes.append(kind)
        if not a.fields:
            continue
        for d in extra + [a, b]:
            schema.add(d, pkg)
        pairs.append(Pair(a, b, convs, classes))
    return pairs
