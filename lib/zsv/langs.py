"""Bridges a Schema to the generated code: token strings, descriptors, expected dumps, C++ driver source."""
import re, json
from .model import *
from .refcodec import is_compound, use_args


def snake(n):
    if n == n.lower():
        return n
    r = re.sub(r"([a-z])([A-Z])", r"\1_\2", n)
    r = re.sub(r"([0-9A-Z])([A-Z][a-z])", r"\1_\2", r)
    return r.lower()


def cap(s):
    return s[0].upper() + s[1:]


def tcode(t):
    b = t.base()
    k = b.kind
    if k in ("int", "var", "dyn"):
        return "I"
    if k in ("bool", "float", "string", "bytes", "extern"):
        return {"bool": "B", "float": "F", "string": "S", "bytes": "Y", "extern": "X"}[k]
    return {Enum: "E", Bitmask: "M"}.get(type(b.decl), "O")


def jclass(d):
    return d.pkg + "." + gname(d)


def pymod(d):
    return d.pkg + "." + snake(gname(d))


def gname(d):
    return getattr(d, "gen_name", None) or d.name


def cppname(d):
    return "::" + d.pkg.replace(".", "::") + "::" + gname(d)


def compounds(schema):
    return [d for d in schema.order if isinstance(d, Compound) and not getattr(d, "hidden", False)]


def tc_java(t):
    c = tcode(t)
    b = t.base()
    if c in "EM":
        return c + ":" + jclass(b.decl)
    if c == "O":
        return "O:" + gname(b.decl)
    return c


def tc_py(t):
    c = tcode(t)
    b = t.base()
    if c in "EM":
        return c + ":" + pymod(b.decl) + "/" + gname(b.decl)
    if c == "O":
        return "O:" + gname(b.decl)
    return c


def java_desc(schema):
    out = []
    for d in compounds(schema):
        out.append("C %s %s %s" % (gname(d), d.kind[0].upper(), jclass(d)))
        for q in d.params:
            out.append("P %s %s" % (q.name, tc_java(q.ty)))
        for f in d.fields:
            out.append("F %s %s %d %d %d" % (f.name, tc_java(f.ty), f.arr is not None, f.opt is not None, f.extended))
        for fn in d.funcs:
            out.append("N %s %s" % (fn.name, tc_java(fn.ret)))
    return "\n".join(out) + "\n"


def py_desc(schema):
    r = []
    for d in compounds(schema):
        r.append({"id": gname(d), "kind": d.kind[0].upper(), "pymod": pymod(d), "pycls": gname(d),
                  "params": [[q.name, tc_py(q.ty)] for q in d.params],
                  "fields": [[f.name, tc_py(f.ty), int(f.arr is not None), int(f.opt is not None), int(f.extended)]
                             for f in d.fields],
                  "funcs": [[fn.name, tc_py(fn.ret)] for fn in d.funcs]})
    return json.dumps({"comps": r})


# ---------------------------------------------------------------- tokens

def sc_tok(t, v):
    b = t.base()
    k = b.kind
    if k in ("int", "var", "dyn"):
        return str(v)
    if k == "bool":
        return "1" if v else "0"
    if k == "float":
        return "fNaN" if v != v else "f%016x" % f64bits(v)
    if k == "string":
        return "s" + v.encode("utf-8").hex()
    if k == "bytes":
        return "b" + v.hex()
    if k == "extern":
        return "x%d:%s" % (v[0], v[1].hex())
    return str(v)


def build_tokens(o, untouched=None):
    """untouched(o, i): the field is not touched when the object is built (it keeps its default value)"""
    out = []
    reg = {}

    def ptok(t, v):
        if is_compound(t.base()):
            return "@%d" % reg[id(v)]
        return sc_tok(t, v).replace("fNaN", "f7ff8000000000000")

    def val(f, v):
        if f.arr is not None:
            out.append("["); out.append(str(len(v)))
            for x in v:
                one(f.ty, x)
            out.append("]")
        else:
            one(f.ty, v)

    def one(t, v):
        if is_compound(t.base()):
            comp(v)
        else:
            out.append(sc_tok(t, v).replace("fNaN", "f7ff8000000000000"))

    def comp(o):
        reg[id(o)] = len(reg)
        out.append("{")
        for q, v in zip(o.d.params, o.params):
            out.append(ptok(q.ty, v))
        if isinstance(o, SObj):
            nx = 0
            for i, (f, v) in enumerate(zip(o.d.fields, o.vals)):
                if f.extended:
                    if o.ext is not None and nx >= o.ext:
                        out.append("~"); continue
                    nx += 1
                if untouched is not None and untouched(o, i):
                    out.append("~")
                elif v is None:
                    out.append("-")
                else:
                    val(f, v)
        elif o.idx is None:
            out.append("-")
        else:
            out.append(str(o.idx)); val(o.d.fields[o.idx], o.val)
        out.append("}")
    comp(o)
    return " ".join(out)


def param_tokens(d, params):
    return " ".join(sc_tok(q.ty, v).replace("fNaN", "f7ff8000000000000") for q, v in zip(d.params, params))


def dump(o):
    """expected dump of a value object"""
    out = []

    def one(t, v):
        if is_compound(t.base()):
            comp(v)
        else:
            out.append(sc_tok(t, v))

    def val(f, v):
        if f.arr is not None:
            out.append("["); out.append(str(len(v)))
            for x in v:
                one(f.ty, x)
            out.append("]")
        else:
            one(f.ty, v)

    def comp(o):
        out.append("{")
        for q, v in zip(o.d.params, o.params):
            out.append("@" if is_compound(q.ty.base()) else sc_tok(q.ty, v))
        if isinstance(o, SObj):
            nx = 0
            for f, v in zip(o.d.fields, o.vals):
                if f.extended:
                    if o.ext is not None and nx >= o.ext:
                        out.append("~"); continue
                    nx += 1
                if v is None:
                    out.append("-")
                else:
                    val(f, v)
        elif o.idx is None:
            out.append("-")
        else:
            out.append(str(o.idx)); val(o.d.fields[o.idx], o.val)
        out.append("|")
        env = Env(o)
        for fn in o.d.funcs:
            try:
                v = env.eval(fn.expr)
            except Trap:
                out.append("!")
                continue
            out.append(sc_tok(fn.ret, v))
        out.append("}")
    comp(o)
    return " ".join(out)


# ---------------------------------------------------------------- C++ driver source

def cpp_driver(schema, roots, extra=""):
    w = []
    w.append('#include "drv.h"')
    for h in getattr(schema, "cpp_headers", ()):
        w.append('#include "%s"' % h)
    for pkg in schema.pkgs:
        w.append("//PKG %s" % pkg)
    comps = compounds(schema)
    readonly = getattr(schema, "readonly", False)
    pinfo = getattr(schema, "pinfo", False)
    w.append("namespace {")
    for d in comps:
        if pinfo:
            w.append("void pinfo(std::string& r, const %s& o);" % cppname(d))
        w.append("void build(zsv::Tok& t, %s& o);" % cppname(d))
        w.append("void dump(std::string& r, const %s& o);" % cppname(d))

    def rd(c, target):
        if c == "O":
            return "build(t, %s);" % target
        return "zsv::rd%s(t, %s);" % (c, target)

    def put(c, e):
        if c == "O":
            return "dump(r, %s);" % e
        return "zsv::out%s(r, %s);" % (c, e)

    def setfield(f):
        c = tcode(f.ty); n = cap(f.name)
        s = "{ typename std::decay<decltype(o.get%s())>::type v{}; " % n
        if f.arr is not None:
            s += ("t.expect(\"[\"); size_t n = zsv::num<size_t>(t.next()); for (size_t i = 0; i < n; ++i) "
                  "{ typename decltype(v)::value_type e{}; %s v.push_back(std::move(e)); } t.expect(\"]\"); " % rd(c, "e"))
        else:
            s += rd(c, "v") + " "
        return s + "o.set%s(std::move(v)); }" % n

    def outfield(f):
        c = tcode(f.ty); n = cap(f.name)
        if f.arr is not None:
            return ("{ const auto& v = o.get%s(); r += \"[ \"; r += std::to_string(v.size()); r += ' '; "
                    "for (auto&& e : v) { %s r += ' '; } r += \"] \"; }" % (n, put(c, "e")))
        return put(c, "o.get%s()" % n) + " r += ' ';"

    for d in comps:
        if pinfo:
            w.append("void pinfo(std::string& r, const %s& o)\n{" % cppname(d))
            w.append("    (void)o; r += ' '; r += zsv::u2s(o.parsingInfo().getBitPosition()); r += ':'; r += zsv::u2s(o.parsingInfo().getBitSize());")
            if d.kind != "struct":
                w.append("    switch (static_cast<int>(o.choiceTag())) {")
            for i, f in enumerate(d.fields):
                if tcode(f.ty) != "O":
                    continue
                n = cap(f.name)
                x = "for (auto&& e : o.get%s()) pinfo(r, e);" % n if f.arr is not None else "pinfo(r, o.get%s());" % n
                if d.kind == "struct":
                    if f.opt is not None:
                        x = "if (o.is%sUsed()) " % n + x
                    if f.extended:
                        x = "if (o.is%sPresent()) " % n + x
                else:
                    x = "case %d: %s break;" % (i, x)
                w.append("    " + x)
            if d.kind != "struct":
                w.append("    default: break; }")
            w.append("}")
        if readonly:
            w.append("void build(zsv::Tok& t, %s&)\n{ t.next();" % cppname(d))
        else:
            w.append("void build(zsv::Tok& t, %s& o)\n{" % cppname(d))
            w.append('    (void)o; t.expect("{");')
        for q in d.params if not readonly else ():
            w.append("    t.next();")
        if readonly:
            w.append("}")
        elif d.kind == "struct":
            for f in d.fields:
                if f.opt is not None:
                    w.append('    if (t.peek() == "-") { t.next(); o.reset%s(); } else' % cap(f.name))
                w.append("    if (!t.skip()) " + setfield(f))
        else:
            w.append("    if (!t.skip()) switch (zsv::num<int>(t.next())) {")
            for i, f in enumerate(d.fields):
                w.append("    case %d: %s break;" % (i, setfield(f)))
            w.append("    }")
        if not readonly:
            w.append('    t.expect("}");\n}')
        w.append("void dump(std::string& r, const %s& o)\n{" % cppname(d))
        w.append('    (void)o; r += "{ ";')
        for q in d.params:
            c = tcode(q.ty)
            w.append("    " + ('r += "@ ";' if c == "O" else put(c, "o.get%s()" % cap(q.name)) + " r += ' ';"))
        if d.kind == "struct":
            for f in d.fields:
                n = cap(f.name)
                s = "    "
                if f.extended:
                    s += 'if (!o.is%sPresent()) r += "~ "; else ' % n
                if f.opt is not None:
                    s += 'if (!o.is%sUsed()) r += "- "; else ' % n
                w.append(s + "{ " + outfield(f) + " }")
        else:
            w.append("    switch (static_cast<int>(o.choiceTag())) {")
            for i, f in enumerate(d.fields):
                w.append("    case %d: r += \"%d \"; %s break;" % (i, i, outfield(f)))
            w.append('    default: r += "- ";\n    }')
        w.append("    r += '|';")
        for fn in d.funcs:
            c = tcode(fn.ret)
            w.append("    r += ' '; try { %s } catch (const std::exception&) { r += '!'; }" %
                     put(c, "o.%s()" % ("func" + cap(fn.name))))
        w.append('    r += " }";\n}')
    for d in roots:
        n = gname(d)
        w.append("struct K_%s {" % n)
        w.append("    using T = %s;" % cppname(d))
        w.append("    static void build(zsv::Tok& t, T& o) { ::build(t, o); }")
        w.append("    static void dump(std::string& r, const T& o) { ::dump(r, o); }")
        w.append("    struct Params {")
        for i, q in enumerate(d.params):
            w.append("        typename std::decay<decltype(std::declval<const T&>().get%s())>::type p%d{};" % (cap(q.name), i))
        w.append("        explicit Params(zsv::Tok& t) { (void)t;")
        for i, q in enumerate(d.params):
            c = tcode(q.ty)
            if c == "S":
                w.append("            zsv::rdS(t, s%d); p%d = decltype(p%d)(s%d.data(), s%d.size());" % (i, i, i, i, i))
            else:
                w.append("            " + rd(c, "p%d" % i))
        w.append("        }")
        for i, q in enumerate(d.params):
            if tcode(q.ty) == "S":
                w.append("        std::string s%d;" % i)
        if readonly:
            pass
        elif d.params:
            w.append("        void init(T& o) { o.initialize(%s); }" % ", ".join("p%d" % i for i in range(len(d.params))))
        else:
            w.append("        void init(T& o) { zsv::initChildren(o, 0); }")
        w.append("        T* read(zserio::BitStreamReader& in) { return new T(in%s); }" % "".join(
            ", p%d" % i for i in range(len(d.params))))
        w.append("    };")
        w.append("    static void poke(T& o, const T& b) { (void)o; (void)b;")
        if d.kind == "struct" and not readonly:
            for f in d.fields:
                if f.arr is None and tcode(f.ty) != "O" and not f.extended:
                    n2 = cap(f.name)
                    w.append("        " + ("if (o.is%sUsed()) " % n2 if f.opt is not None else "")
                             + "o.set%s(b.get%s());" % (n2, n2))
        w.append("    }")
        w.append("    static std::string present(const T& o) { (void)o; std::string r;")
        if d.kind == "struct":
            for f in d.fields:
                if f.extended:
                    w.append("        r += o.is%sPresent() ? '1' : '0';" % cap(f.name))
        w.append("        return r; }")
        w.append("    static void info(std::string& r, const T& o) { (void)o; %s }" % ("::pinfo(r, o);" if pinfo else "r += \"none\";"))
        w.append("};")
    w.append("} // namespace")
    w.append(extra)
    w.append("int main() {\n return zsv::mainLoop([](const std::vector<std::string>& p) -> std::string {")
    for d in roots:
        n = gname(d)
        w.append('  if (p[1] == "%s") {' % n)
        w.append('    if (p[0] == "G") return zsv::opG<K_%s>(p[5], zsv::num<size_t>(p[2]), zsv::num<size_t>(p[3]), p[4]);' % n)
        if readonly:
            w.append("  }")
            continue
        w.append('    if (p[0] == "W") return zsv::opW<K_%s>(p[3], zsv::num<size_t>(p[2]));' % n)
        w.append('    if (p[0] == "N") return zsv::opW<K_%s>(p[3], zsv::num<size_t>(p[2]), false);' % n)
        w.append('    if (p[0] == "P") return zsv::opP<K_%s>(p[3], p[4], zsv::num<size_t>(p[2]));' % n)
        w.append('    if (p[0] == "Q") return zsv::opQ<K_%s>(p);' % n)
        w.append('    if (p[0] == "R") return zsv::opR<K_%s>(p[5], zsv::num<size_t>(p[2]), zsv::num<size_t>(p[3]), p[4]);' % n)
        for op in getattr(schema, "cpp_ops", ()):
            w.append("    " + op % {"K": "K_" + n})
        w.append("  }")
    w.append('  return "FAIL\\tunknown op";\n });\n}')
    return "\n".join(w) + "\n"
