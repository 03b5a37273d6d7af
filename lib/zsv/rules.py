"""Snippets of schema text that carry one marked place where a documented static rule can be broken.

A snippet is text with groups ⟦good‖good¦bad¦bad⟧.  A group without ¦ is a free choice.  § is replaced by a number that is unique in
the schema.  Every snippet is self-contained: several of them form a valid schema, with one group made bad an invalid one."""
import re

# scope used by the expression rules
SCOPE = """
enum uint8 E§ { AA§, BB§, CC§ };
enum uint8 EO§ { AA§, BB§, CC§ };
bitmask uint16 M§ { PP§, QQ§, RR§ };
bitmask uint16 MO§ { PP§, QQ§, RR§ };
struct S§ { uint32 q; string t; uint16 w[]; function uint32 fq() { return q + 1; } };
const int32 K§ = 3;
const string KS§ = "const";
"""
FIELDS = ("    uint8 a; int32 b; bool c; string s; E§ e; M§ m; float64 f; S§ x; uint16 r[]; bytes y; extern z; bool c2[3]; S§ xs[];\n")


class Ex:
    """random well typed and ill typed expressions over SCOPE and FIELDS"""
    def __init__(self, t):
        self.t = t

    def good(self, k, d=2):
        t = self.t
        g = self.good
        if k == "int":
            o = ["a", "b", "7", "K§", "lengthof(r)", "lengthof(s)", "lengthof(y)", "valueof(e)", "valueof(m)", "valueof(E§.BB§)", "x.q",
                 "r[0]", "x.fq()", "numbits(a)", "0x1F", "101b", "lengthof(xs)", "xs[1].q", "x.w[2]"]
            if d > 0:
                o += ["(%s %s %s)" % (g("int", d - 1), t.pick(["+", "-", "*", "&", "|", "^"]), g("int", d - 1)) for _ in range(3)]
                o += ["(%s %s %s)" % (g("int", d - 1), t.pick(["/", "%"]), t.pick(["a", "b", "7", "K§", "x.q", "r[0]"]))]
                o += ["-" + g("int", 0), "~" + g("int", 0), "numbits(%s)" % g("int", d - 1),
                      "(%s ? %s : %s)" % (g("bool", d - 1), g("int", d - 1), g("int", d - 1)), "r[%s]" % g("int", d - 1),
                      "(%s << %d)" % (g("int", 0), t.int(0, 5)), "(%s >> %d)" % (g("int", 0), t.int(0, 5))]
            return t.pick(o)
        if k == "bool":
            o = ["c", "true", "false", "isset(m, M§.QQ§)", "c2[1]", "(a < 3)", "(e == E§.AA§)", "(f < 1.5)"]
            if d > 0:
                o += ["(%s %s %s)" % (g("int", d - 1), t.pick(["<", "<=", ">", ">=", "==", "!="]), g("int", d - 1)) for _ in range(2)]
                o += ["(%s %s %s)" % (g("bool", d - 1), t.pick(["&&", "||", "==", "!="]), g("bool", d - 1)) for _ in range(2)]
                o += ["!" + g("bool", 0).join("()"), "(%s %s %s)" % (g("float", d - 1), t.pick("<>"), g("float", d - 1)),
                      "(%s == %s)" % (g("enum", d - 1), g("enum", d - 1)), "(%s != %s)" % (g("mask", d - 1), g("mask", d - 1)),
                      "(%s ? %s : %s)" % (g("bool", d - 1), g("bool", d - 1), g("bool", d - 1)),
                      "isset(%s, %s)" % (g("mask", d - 1), g("mask", 0))]
            return t.pick(o)
        if k == "float":
            o = ["f", "1.5", "2.0f"]
            if d > 0:
                o += ["(%s %s %s)" % (g("float", d - 1), t.pick("+-*/"), g(t.pick(["float", "int"]), d - 1)), "-" + g("float", 0)]
            return t.pick(o)
        if k == "enum":
            return t.pick(["e", "E§.AA§", "E§.CC§"] + (["(%s ? e : E§.BB§)" % g("bool", d - 1)] if d > 0 else []))
        if k == "mask":
            o = ["m", "M§.PP§", "M§.RR§"]
            if d > 0:
                o += ["(%s %s %s)" % (g("mask", d - 1), t.pick("|&^"), g("mask", d - 1)), "~" + g("mask", 0)]
            return t.pick(o)
        if k == "string":
            return t.pick(["s", '"lit"', "KS§", 'KS§ + "x"', "x.t"])
        raise AssertionError(k)

    def ill(self):
        """an expression that breaks a typing or naming rule at its top"""
        t = self.t
        g = self.good
        notnum = lambda: t.pick([g("bool"), "s", "e", "m", "x", "r", "y", "z", "E§.AA§", "M§.PP§", "true"])
        notint = lambda: t.pick([notnum(), notnum(), "f", "1.5", "(f + 1)"])
        notbool = lambda: t.pick([g("int"), "s", "e", "m", "f", "x", "r", "y", "z", "1"])
        notmask = lambda: t.pick([g("int"), "s", "e", "f", "x", "r", "c"])
        r = t.raw(24)
        if r == 0:
            return "(%s %s %s)" % (notnum(), t.pick("+-*/%"), g("int"))
        if r == 1:
            return "(%s %s %s)" % (g(t.pick(["int", "float"])), t.pick("+-*/%"), notnum())
        if r == 2:
            return "(%s %s %s)" % (notint(), t.pick(["<<", ">>"]), g("int"))
        if r == 3:
            return "(%s %s %s)" % (g("int"), t.pick(["<<", ">>", "&", "|", "^"]), notint())
        if r == 4:
            return "(%s %s %s)" % (notmask() if t.raw(2) else "1.5", t.pick("&|^"), g("mask"))
        if r == 5:
            return "(%s %s %s)" % (g("bool"), t.pick(["&&", "||"]), notbool())
        if r == 6:
            return "(%s %s %s)" % (notbool(), t.pick(["&&", "||"]), g("bool"))
        if r == 7:
            return "!(%s)" % notbool()
        if r == 8:
            return "~%s" % t.pick(["c", "f", "e", "s", "x", "(%s)" % g("float"), "(%s)" % g("bool")])
        if r == 9:
            return "%s%s" % (t.pick(["-", "+"]), t.pick(["c", "s", "e", "m", "x", "r", "true"]))
        if r == 10:
            k1, k2 = t.pick([("int", "bool"), ("int", "enum"), ("int", "mask"), ("bool", "enum"), ("enum", "mask"), ("int", "string"),
                             ("int", "float"), ("string", "bool"), ("float", "bool"), ("float", "enum")])
            if t.raw(2):
                k1, k2 = k2, k1
            return "(%s %s %s)" % (g(k1), t.pick(["==", "!=", "<", ">", "<=", ">="]), g(k2))
        if r == 11:
            return "(%s %s %s)" % (g("float"), t.pick(["==", "!=", "<=", ">="]), g("float"))
        if r == 12:
            return "(%s %s %s)" % (g("string"), t.pick(["==", "!=", "<", ">", "<=", ">="]), g("string"))
        if r == 13:
            k = t.pick(["int", "bool", "float", "string"])
            return "(%s ? %s : %s)" % (notbool(), g(k), g(k))
        if r == 14:
            k1, k2 = t.pick([("int", "bool"), ("int", "enum"), ("enum", "mask"), ("int", "string"), ("int", "float"), ("bool", "string")])
            return "(%s ? %s : %s)" % (g("bool"), g(k1), g(k2))
        if r == 15:
            return "lengthof(%s)" % t.pick(["a", "f", "c", "e", "m", "x", "1", "r[0]", "xs[0]", "z"])
        if r == 16:
            return "valueof(%s)" % t.pick(["a", "s", "x", "r", "1", "f", "c"])
        if r == 17:
            return "numbits(%s)" % t.pick(["s", "f", "c", "e", "m", "x", "r", "1.5", "true"])
        if r == 18:
            return t.pick(["isset(%s, M§.PP§)" % notmask(), "isset(m, %s)" % notmask(), "isset(m, MO§.PP§)", "isset(MO§.QQ§, m)"])
        if r == 19:
            return t.pick(["a()", "x.q()", "K§()", "a[0]", "x[0]", "s[0]", "x.q[0]", "r[true]", "r[s]", "xs[e].q", "r[1.5]", "K§[0]"])
        if r == 20:
            return t.pick(["x.nope", "a.q", "s.q", "r.q", "xs.q", "xs[0].nope", "x.q.q", "E§.NOPE", "M§.NOPE", "K§.q", "x.nope()", "E§.AA§.BB§"])
        if r == 21:
            return t.pick(["nope", "nope()", "nope[1]", "nope.q", "Nope§.AA§", "(1 + nope)", "fq()"])
        if r == 22:
            return "(c ? e : EO§.AA§)" if t.raw(2) else "(c ? m : MO§.PP§)"
        return t.pick(['(s + "x")', '("x" + s)', "(x.t + s)", '(KS§ + s)', '("x" + 1)', "(1 + KS§)"])

    def bad(self, k, d=2):
        """an expression that looks like kind k with an ill typed part below"""
        t = self.t
        g = self.good
        if d <= 0 or t.chance(40):
            return self.ill()
        b = lambda kk: self.bad(kk, d - 1)
        if k == "int":
            return t.pick([lambda: "(%s %s %s)" % (b("int"), t.pick("+-*/&|^%"), g("int")),
                           lambda: "(%s %s %s)" % (g("int"), t.pick("+-*/&|^%"), b("int")),
                           lambda: "numbits(%s)" % b("int"), lambda: "r[%s]" % b("int"), lambda: "-(%s)" % b("int"), lambda: "~(%s)" % b("int"),
                           lambda: "(%s ? %s : %s)" % (b("bool"), g("int"), g("int")), lambda: "(%s ? %s : %s)" % (g("bool"), b("int"), g("int")),
                           lambda: "(%s ? %s : %s)" % (g("bool"), g("int"), b("int")), lambda: "xs[%s].q" % b("int")])()
        return t.pick([lambda: "(%s %s %s)" % (b("int"), t.pick(["<", "==", ">=", "!="]), g("int")),
                       lambda: "(%s %s %s)" % (g("int"), t.pick(["<", "==", ">=", "!="]), b("int")),
                       lambda: "(%s && %s)" % (g("bool"), b("bool")), lambda: "(%s || %s)" % (b("bool"), g("bool")),
                       lambda: "!(%s)" % b("bool"), lambda: "(%s ? %s : %s)" % (b("bool"), g("bool"), g("bool")),
                       lambda: "(%s ? %s : %s)" % (g("bool"), g("bool"), b("bool")), lambda: "(%s < %s)" % (g("float"), "(1.0 + %s)" % b("int"))])()


INTS = [("uint8", 0, 255), ("uint16", 0, 65535), ("uint32", 0, 2**32 - 1), ("uint64", 0, 2**64 - 1), ("int8", -128, 127),
        ("int16", -2**15, 2**15 - 1), ("int32", -2**31, 2**31 - 1), ("int64", -2**63, 2**63 - 1), ("varuint16", 0, 2**15 - 1),
        ("varuint32", 0, 2**29 - 1), ("varuint64", 0, 2**57 - 1), ("varuint", 0, 2**64 - 1), ("varint16", -(2**14 - 1), 2**14 - 1),
        ("varint32", -(2**28 - 1), 2**28 - 1), ("varint64", -(2**56 - 1), 2**56 - 1), ("varint", -2**63, 2**63 - 1),
        ("varsize", 0, 2**31 - 1)]


def int_type(t):
    if t.chance(35):
        n = t.int(1, 64)
        return ("bit:%d" % n, 0, 2**n - 1) if t.raw(2) else ("int:%d" % n, -2**(n - 1), 2**(n - 1) - 1)
    return t.pick(INTS)


def lit(t, v):
    """text of a constant expression with the value v"""
    k = t.raw(6)
    if k == 1 and v >= 0:
        return "0x%X" % v
    if k == 2 and v > 0:
        return "%d + 1" % (v - 1)
    if k == 3:
        return "%d - 1" % (v + 1)
    if k == 4 and v >= 0:
        return "(%s)" % v
    if k == 5 and v >= 0:
        return "0%o" % v if v else "0"
    return str(v)


def r_range_const(t):
    n, lo, hi = int_type(t)
    return "const %s C§ = ⟦%s‖%s¦%s¦%s⟧;" % (n, lit(t, hi), lit(t, lo), lit(t, hi + t.pick([1, 1, 2, 1 << 70])), lit(t, lo - t.pick([1, 1, 5])))


def r_range_default(t):
    n, lo, hi = int_type(t)
    return "struct D§ { ⟦‖optional ⟧%s v = ⟦%s‖%s¦%s¦%s⟧; };" % (n, lit(t, hi), lit(t, lo), lit(t, hi + 1), lit(t, lo - 1))


def r_range_enum(t):
    n, lo, hi = int_type(t)
    while n == "varsize" and False:
        n, lo, hi = int_type(t)
    if hi - lo < 2:
        return "enum bit:2 E§ { A, B, ⟦C = 3¦C = 4¦C = -1⟧ };"
    if t.raw(3) == 0:
        return "enum %s E§ { A = %s, ⟦B = %s¦B⟧ };" % (n, lit(t, hi), lit(t, lo))
    return "enum %s E§ { A, B = ⟦%s‖%s¦%s¦%s⟧ };" % (n, lit(t, hi), lit(t, lo if lo else 1), lit(t, hi + 1), lit(t, lo - 1))


def r_range_mask(t):
    while True:
        n, lo, hi = int_type(t)
        if lo == 0 and hi > 3:
            break
    v = t.int(1, hi)
    return "bitmask %s M§ { A = ⟦%s‖%s¦%s¦-1⟧ };" % (n, lit(t, v), lit(t, hi), lit(t, hi + 1))


def r_expr(t):
    """an expression at one of the places of a compound"""
    ex = Ex(t)
    kind, text = t.pick([
        ("bool", "struct X§\n{\n%(F)s    uint8 v : ⟦%(g)s¦%(b)s⟧;\n};"),
        ("bool", "struct X§\n{\n%(F)s    uint8 v if ⟦%(g)s¦%(b)s⟧;\n};"),
        ("int", "struct X§\n{\n%(F)s    uint8 v[⟦%(g)s¦%(b)s⟧];\n};"),
        ("int", "struct X§\n{\n%(F)s    packed uint8 v[⟦%(g)s¦%(b)s⟧];\n};"),
        ("int", "struct X§\n{\n%(F)s    function int64 fn() { return ⟦%(g)s¦%(b)s⟧; }\n};"),
        ("bool", "struct X§\n{\n%(F)s    function bool fn() { return ⟦%(g)s¦%(b)s⟧; }\n};"),
        ("int", "struct P§(int64 p) { uint8 v if p > 3; };\nstruct X§\n{\n%(F)s    P§(⟦%(g)s¦%(b)s⟧) v;\n};"),
        ("bool", "struct P§(bool p) { uint8 v if p; };\nstruct X§\n{\n%(F)s    P§(⟦%(g)s¦%(b)s⟧) v[];\n};"),
        ("bool", "struct X§\n{\n%(F)s    extend uint8 v : ⟦%(g)s¦%(b)s⟧;\n};"),
        ("bool", "struct X§\n{\n%(F)s    optional uint8 v[] : ⟦%(g)s¦%(b)s⟧;\n};"),
        ("int", "struct X§\n{\n%(F)s    bit<((⟦%(g)s¦%(b)s⟧) & 7) + a> v;\n};"),
        ("bool", "struct X§<T>\n{\n%(F)s    T v : ⟦%(g)s¦%(b)s⟧;\n};\nstruct Y§ { X§<uint8> v; };"),
        ("int", "struct X§<T>\n{\n%(F)s    T v[⟦%(g)s¦%(b)s⟧];\n};\ninstantiate X§<string> XI§;"),
        ("int", "choice X§(bool sel) on sel\n{\n    case true: uint8 o;\n    case false: string n;\n    function int64 fn() { return ⟦%(n)s¦%(b)s⟧; }\n};"),
        ("bool", "struct O§\n{\n%(F)s};\nstruct X§(O§ o)\n{\n    uint8 v : ⟦%(og)s¦%(ob)s⟧;\n};"),
    ])
    g, b = ex.good(kind), ex.bad(kind)
    mem = re.compile(r"(?<![\w.§\"])(a|b|c|s|e|m|f|x|r|y|z|c2|xs)(?![\w§\"(])")
    pre = lambda s: mem.sub(r"o.\1", s)
    return SCOPE + text % {"F": FIELDS, "g": g, "b": b, "og": pre(g), "ob": pre(b), "n": t.pick(["1", "K§ * 2", "(o > 3 ? 1 : K§)"])}


RULES = [r_range_const, r_range_default, r_range_enum, r_range_mask, r_expr, r_expr, r_expr, r_expr, r_expr, r_expr]

TEXT = r'''
enum uint8 E§ { A = 1, B = 0, ⟦C = 9¦C⟧ };
--
enum int8 E§ { A = 6, B = 4, C, ⟦D = 9¦D⟧, E = 20 };
--
bitmask uint8 M§ { A = 2, B = 1, ⟦C = 16¦C⟧ };
--
choice S§(bool s) on s { case true: case false: uint8 a; ⟦¦default: uint8 b;⟧ };
--
choice S§(bool s) on s { case true: uint8 a; case false: ; ⟦¦default: ;⟧ };
--
struct Emp§ { }; struct NE§ { uint8 a; }; choice Ch§(uint8 p) on p { case 1: uint8 a; default: uint16 b; }; choice ChE§(uint8 p) on p { case 1: uint8 a; default: ; }; choice ChF§(uint8 p) on p { case 1: ; default: uint8 b; }; choice ChI§(uint8 p) on p { case 1: uint8 a; default: implicit uint8 d[]; }; choice ChM§(uint8 p) on p { case 1: uint8 a; default: Emp§ e; }; union Un§ { uint8 a; uint16 b; }; struct S§ { implicit uint8 b[]; ⟦Emp§ x;‖Emp§ x[3];‖uint8 x if lengthof(b) > 5;‖uint8 x[lengthof(b)];‖implicit uint8 x[];‖ChE§(1) x;‖ChF§(1) x;‖ChI§(2) x;‖ChM§(2) x;¦uint8 x;¦uint8 x[];¦uint8 x[2];¦optional uint8 x;¦optional Emp§ x;¦NE§ x;¦Ch§(1) x;¦Un§ x;¦NE§ x[2];¦Emp§ x[];¦string x;⟧ };
--
struct In§ { uint8 a; implicit uint8 b[]; }; choice Al§(uint8 p) on p { case 1: implicit uint8 a[]; default: implicit uint16 b[]; }; choice So§(uint8 p) on p { case 1: implicit uint8 a[]; default: uint16 b; }; choice SoD§(uint8 p) on p { case 1: uint8 a; default: implicit uint16 b[]; }; union Ua§ { implicit uint8 a[]; uint8 b; }; struct S§ { ⟦uint8 x;‖So§(1) x;‖SoD§(1) x;‖Ua§ x;‖In§ x[];¦In§ x;¦Al§(1) x;¦In§ x[2];⟧ uint8 y; };
--
const ⟦uint8‖int16‖varuint⟧ C§ = ⟦1 + 2‖numbits(5)‖lengthof("abc")‖0x7f & 15¦true¦"x"¦1.5¦Unknown§¦1 + true¦!5¦~"a"¦-true¦5 % true¦1 << 2.0¦C§¦1 && true¦lengthof(5)⟧;
--
const bool C§ = ⟦true‖3 > 2‖!false¦1¦"true"¦1.0¦3 + 4¦true & false⟧;
--
const string C§ = ⟦"x"‖"a" + "b"¦1¦true¦"a" + 1¦"a" == "b"⟧;
--
const float64 C§ = ⟦1.5‖1‖1 + 2.5‖-3.0e2¦"1.5"¦true¦1.5 % true⟧;
--
const float16 C§ = ⟦1.5f‖-1¦"1.5"¦false⟧;
--
enum uint8 E§ { A, B }; enum uint8 EO§ { A, B }; const ⟦E§‖E§¦EO§⟧ C§ = E§.A;
--
enum uint8 E§ { A, B }; const E§ C§ = ⟦E§.B¦1¦E§.C¦A¦true⟧;
--
bitmask uint8 M§ { A, B }; const M§ C§ = ⟦M§.A | M§.B‖~M§.A¦3¦M§.C¦M§.A + M§.B¦M§.A && M§.B⟧;
--
struct S§ { uint8 a; }; const ⟦uint8¦S§¦Unknown§⟧ C§ = 1;
--
const uint8 A§ = ⟦3¦B§⟧; const uint8 B§ = A§ + 1;
--
const uint32 A§ = 3; struct S§ { uint32 f[⟦A§¦A§ == 3¦"x"¦1.5⟧]; };
--
subtype ⟦uint8‖string‖bit:7‖float32‖bytes¦Unknown§¦A§⟧ A§; struct S§ { A§ f; };
--
subtype ⟦B§¦uint8 uint8⟧ A§; subtype uint16 B§; struct S§ { A§ f; };
--
subtype B§ A§; subtype C§ B§; subtype ⟦uint16¦A§¦B§¦C§⟧ C§; struct S§ { A§ f; };
--
const uint8 KK§ = 1; subtype ⟦uint8¦KK§⟧ A§; struct S§ { A§ f; };
--
struct S§ { uint8 a; uint16 ⟦b¦a¦A⟧; string c; };
--
struct S§ { uint8 firstOne; uint16 ⟦second¦FirstOne⟧; };
--
struct S§(uint8 p) { uint16 ⟦b¦p¦P⟧; }; struct U§ { S§(3) s; };
--
struct S§(uint8 p, uint8 ⟦q¦p⟧) { uint16 b if p > 1; }; struct U§ { S§(3, 4) s; };
--
struct S§ { uint8 a; function uint8 ⟦fn¦a⟧() { return a; } };
--
struct S§ { uint8 a; function uint8 fn() { return a; } function uint8 ⟦gn¦fn⟧() { return a; } };
--
union S§ { uint8 a; uint16 ⟦b¦a⟧; string c; };
--
choice S§(uint8 s) on s { case 1: uint8 a; case 2: uint8 ⟦b¦a¦s⟧; default: uint8 c; };
--
enum uint8 E§ { A, ⟦B¦A¦a⟧, C };
--
bitmask uint8 M§ { A, ⟦B¦A⟧, C };
--
struct Dup§ { uint8 a; }; ⟦struct‖union⟧ ⟦DupB§¦Dup§¦DUP§⟧ { uint8 a; };
--
enum uint8 Dup§ { A }; const uint8 ⟦DupB§¦Dup§¦DUP§⟧ = 1;
--
⟦struct S§¦struct s§x⟧ { uint8 a; };
--
struct S§ { ⟦uint8‖bit:3‖int:64‖bit:64¦bit:0¦bit:65¦int:0¦int:65¦bit:-1¦Unknown§¦uint7¦S§.x⟧ a; };
--
struct S§ { uint8 n; ⟦bit‖int⟧<⟦n‖n + 1‖8‖64¦true¦"x"¦1.5¦0¦65¦-1¦4294967304¦(1 << 32) + 1¦unknown⟧> a; };
--
struct S§ { uint8 n; uint8 a[⟦n‖n * 2‖5¦true¦"x"¦1.5¦unknown¦S§¦a⟧]; };
--
struct S§ { ⟦uint8 n; uint8 a[n];¦uint8 a[n]; uint8 n;⟧ };
--
struct S§ { ⟦bool n; uint8 a if n;¦uint8 a if n; bool n;⟧ };
--
struct S§ { ⟦uint8 n; bit<n> a;¦bit<n> a; uint8 n;⟧ };
--
struct S§ { ⟦uint8 n; uint8 a : n > 3;¦uint8 a : n > 3; uint8 n;⟧ };
--
struct P§(uint8 p) { uint8 v[p]; }; struct S§ { ⟦uint8 n; P§(n) a;¦P§(n) a; uint8 n;⟧ };
--
struct S§ { uint8 a; uint8 b if ⟦a > 1‖true¦a¦1¦"x"¦a + 1¦unknown¦b > 1¦a = 1⟧; };
--
struct S§ { uint8 a : ⟦a > 1‖true‖a != 5¦a¦1¦"x"¦a + 1¦unknown¦1.5⟧; };
--
struct S§ { uint8 a; ⟦optional ‖¦optional optional ⟧uint8 b; };
--
struct S§ { bool a; ⟦optional uint8 b;‖uint8 b if a;¦optional uint8 b if a;⟧ };
--
struct S§ { uint8 a = ⟦1‖K§¦true¦"x"¦1.5¦256¦-1¦unknown¦b⟧; uint8 b; }; const uint8 K§ = 4;
--
struct S§ { uint8 b; uint8 a ⟦= 4‖¦= b¦= b + 1⟧; };
--
struct S§ { string a = ⟦"x"¦1¦true⟧; bool b = ⟦true‖1 < 2¦1¦"x"⟧; float32 c = ⟦1.5f‖2¦"x"¦true⟧; };
--
enum uint8 E§ { A, B }; enum uint8 EO§ { A, B }; struct S§ { E§ a = ⟦E§.B¦EO§.B¦1¦E§.C⟧; };
--
bitmask uint8 M§ { A, B }; bitmask uint8 MO§ { A, B }; struct S§ { M§ a = ⟦M§.B‖M§.A | M§.B¦MO§.B¦1¦M§.C⟧; };
--
struct S§ { uint8 pre; align(⟦8‖1‖64‖3 * 8¦-1¦true¦"x"¦1.5¦pre¦unknown¦2147483648⟧): uint8 a; };
--
struct S§ { ⟦uint32‖uint8‖uint16‖uint64‖bit:7‖bit:64¦int32¦bool¦string¦varuint32¦float32¦int:7¦varsize¦int8⟧ o; ⟦o⟧: uint8 a; };
--
struct S§ { uint32 o; uint32 o2; ⟦o¦5¦o + 1¦unknown¦"x"¦true⟧: uint8 a; };
--
struct S§ { uint32 o; uint32 o2; o: uint8 a; ⟦o2¦o⟧: uint8 b; };
--
struct S§ { uint32 o[3]; o[⟦@index¦0¦1⟧]: uint8 a[3]; };
--
struct S§ { uint32 o[3]; ⟦¦packed ⟧uint32 o2[3]; o2[@index]: uint8 a[3]; };
--
struct S§ { uint32 o; uint8 x; o: uint8 a; uint8 l[⟦3‖x¦o¦o + 1⟧]; };
--
struct S§ { uint32 o; uint8 x; o: uint8 a; uint8 l if ⟦x > 3¦o > 3⟧; };
--
struct S§ { uint32 o; uint8 x; o: uint8 a; function uint32 fn() { return ⟦x¦o¦o + x⟧; } };
--
const uint32 KO§ = 3; struct S§ { uint32 o; ⟦o¦KO§⟧: uint8 a; };
--
struct S§(uint32 p) { uint32 o; ⟦o¦p⟧: uint8 a; }; struct U§ { S§(3) s; };
--
struct H§ { uint32 o; ⟦uint32¦int32¦varuint32⟧ o2; }; struct S§(H§ p) { ⟦p.o2¦p.o3⟧: uint8 a; }; struct U§ { H§ h; S§(h) s; };
--
struct S§ { ⟦packed uint8 a[];‖uint8 a[];¦packed uint8 a;⟧ };
--
struct S§ { uint8 a; ⟦implicit uint8 b[];‖uint8 b[];¦implicit uint8 b;¦implicit uint8 b[3];¦packed implicit uint8 b[];¦implicit uint8 b[a];⟧ };
--
struct S§ { implicit ⟦uint8‖int16‖bit:8‖bit:16‖float32‖uint64¦varuint16¦bool¦string¦bit:7¦bit:9¦varint¦bytes¦extern¦I§⟧ b[]; }; struct I§ { uint8 a; };
--
struct S§ { ⟦uint8 a; implicit uint8 b[];¦implicit uint8 b[]; uint8 a;⟧ };
--
struct S§ { uint8 a; extend uint8 b; ⟦extend ¦¦optional ⟧uint8 c; };
--
struct S§ { uint8 a; ⟦extend ‖extend optional ‖extend packed ¦extend extend ⟧uint8 b[]; };
--
struct I§ { uint8 a; ⟦¦extend ⟧uint8 b; }; struct S§ { I§ i; uint8 x; };
--
struct I§ { uint8 a; ⟦¦extend ⟧uint8 b; }; struct S§ { uint8 x; I§ i[]; };
--
struct I§ { uint8 a; ⟦¦extend ⟧uint8 b; }; union S§ { I§ i; uint8 x; };
--
struct I§ { uint8 a; ⟦¦extend ⟧uint8 b; }; choice S§(bool c) on c { case true: I§ i; case false: uint8 x; };
--
struct I§ { uint8 a; ⟦¦extend ⟧uint8 b; }; struct W§ { uint8 x; optional I§ i; }; subtype W§ WS§; struct S§ { uint8 x; WS§ w; };
--
struct S§ { uint8 a; ⟦optional S§ s;‖S§ s[];‖S§ s if a > 3;‖S§ s[a];¦S§ s;¦S§ s[3];⟧ };
--
struct A§ { uint8 x; ⟦uint8 b;¦B§ b;¦B§ b[];¦optional B§ b;¦B§ b[2];⟧ }; struct B§ { ⟦uint8 z;⟧ uint16 y; A§ a; };
--
struct A§ { B§ b; }; struct B§ { C§ c; }; struct C§ { ⟦uint8 a;¦A§ a;⟧ };
--
union A§ { uint8 x; ⟦uint8 b;‖A§ b[];¦A§ b;⟧ };
--
choice S§(uint8 s) on ⟦s‖s + 1‖s > 3 ? 1 : 2¦"x"¦1.5¦unknown¦S§⟧ { case 1: uint8 a; case 2: ; };
--
choice S§(uint8 s, bool q) on s { case ⟦1‖1 + 2‖K§¦true¦"x"¦1.5¦s¦unknown⟧: uint8 a; case 200: ; }; const uint8 K§ = 9;
--
choice S§(uint8 s) on s { case 1: case ⟦2¦1¦3 - 2⟧: uint8 a; case ⟦4¦1⟧: uint8 b; default: ; };
--
choice S§(bool s) on s { case true: uint8 a; ⟦case false: uint8 b;‖default: uint8 b;¦case true: uint8 b;¦case 1: uint8 b;¦case false: uint8 b; default: uint8 c;⟧ };
--
enum uint8 E§ { A, B, CX }; enum uint8 EO§ { A, B, CX }; choice S§(E§ s) on s { case ⟦A‖E§.A¦EO§.A¦1¦Z¦true¦E§.Z⟧: uint8 a; case B: ; default: uint16 c; };
--
enum uint8 E§ { A, B }; choice S§(E§ s) on s { case A: uint8 a; case ⟦B¦A¦E§.A⟧: uint8 b; };
--
bitmask uint8 M§ { A, B }; bitmask uint8 MO§ { A, B }; choice S§(M§ s) on s { case ⟦A‖M§.A¦MO§.A¦1¦Z⟧: uint8 a; default: uint8 c; };
--
choice S§(⟦uint8‖int32‖bool‖bit:3‖uint64¦string¦float32¦X§¦bytes⟧ s) on s { ⟦default: uint8 a;⟧ }; struct X§ { uint8 a; };
--
choice S§⟦(uint8 s)¦¦()⟧ on ⟦s⟧ { default: uint8 a; };
--
enum ⟦uint8‖int8‖varuint‖bit:4‖int64‖varint16¦bool¦string¦float32¦S§¦bytes¦Unknown§⟧ E§ { A, B }; struct S§ { uint8 a; };
--
enum uint8 E§ { A = ⟦1‖K§ + 1¦true¦"x"¦1.5¦unknown¦S§¦256¦-1⟧, B = 77 }; const uint8 K§ = 4; struct S§ { uint8 a; };
--
enum uint8 E§ { A = 5, B, C = ⟦7‖4¦6¦5¦2 * 3⟧ };
--
enum ⟦int8‖int:8⟧ E§ { A = ⟦-1‖-128‖127¦-129¦128⟧, B = 0 };
--
enum uint8 E§ { A, ⟦@removed B‖@deprecated B¦@unknown B¦@removed @deprecated B⟧, C };
--
enum uint8 E§ { A, @removed B, C }; struct S§ { E§ e; bool q : ⟦e == E§.A¦e == E§.NOPE⟧; };
--
bitmask ⟦uint8‖bit:5‖varuint32‖uint64‖varsize¦int8¦int:5¦varint¦bool¦string¦float32¦S§¦Unknown§⟧ M§ { A, B }; struct S§ { uint8 a; };
--
bitmask uint8 M§ { A = ⟦1‖0x80‖K§¦-1¦256¦true¦"x"¦1.5¦unknown⟧, B = 64 }; const uint8 K§ = 4;
--
bitmask uint8 M§ { A = 1, B, C = ⟦4‖8¦1¦2⟧ };
--
bitmask bit:2 M§ { A, B⟦¦, C⟧ };
--
struct S§(⟦uint8‖bool‖string‖X§‖E§¦Unknown§⟧ p) { uint8 a; }; struct X§ { uint8 a; }; enum uint8 E§ { A };
--
struct P§(uint8 p, bool q) { uint8 a if q; }; struct S§ { uint8 n; P§(⟦n, true‖3, n > 3¦n¦n, true, 1¦true, n¦n, 5¦"x", true¦unknown, true⟧) a; };
--
struct P§(uint8 p) { uint8 a; }; struct S§ { ⟦P§(3)¦P§¦P§()⟧ a; };
--
struct P§ { uint8 a; }; struct S§ { ⟦P§‖uint8¦P§(3)¦uint8(3)⟧ a; };
--
struct P§(uint8 p) { uint8 a; }; struct S§ { uint8 x; P§(⟦1‖x¦"a"¦true¦1.5¦S§⟧) a[]; };
--
struct H§ { uint8 a; }; struct HO§ { uint8 a; }; struct P§(H§ h) { uint8 v[h.a]; }; struct S§ { H§ h; HO§ ho; P§(⟦h¦ho¦1¦"x"¦true¦h.a⟧) p; };
--
enum uint8 E§ { A, B }; enum uint8 EO§ { A, B }; struct P§(E§ e) { uint8 v if e == E§.A; }; struct S§ { EO§ o; E§ e; P§(⟦E§.A‖e¦EO§.A¦o¦0¦true⟧) p; };
--
struct P§(string s) { uint8 v[lengthof(s)]; }; struct S§ { string q; P§(⟦q¦1¦true⟧) p; };
--
struct S§ { uint8 a; function ⟦uint8‖int32‖uint64¦bool¦string¦Unknown§¦S§⟧ fn() { return ⟦a‖a + 1⟧; } };
--
struct S§ { uint8 a; X§ x; function ⟦X§¦Y§¦uint8¦bool⟧ fn() { return x; } }; struct X§ { uint8 a; }; struct Y§ { uint8 a; };
--
struct S§ { uint8 a; function uint8 fn(⟦¦uint8 x⟧) { return a; } };
--
struct S§ { uint8 a; function uint8 fn() { ⟦return a;¦return;¦a;¦⟧ } };
--
struct S§ { uint8 a; function uint8 f1() { return ⟦a¦f2()⟧; } function uint8 f2() { return f1(); } };
--
struct S§ { uint8 a; function uint8 f1() { return ⟦a¦f1()¦f1() + 1⟧; } };
--
struct T§<X> { ⟦X‖X⟧ a; ⟦uint8¦Unknown§¦Y⟧ b; }; struct U§ { T§<uint8> t; };
--
struct T§<X, Y> { X a; Y b; }; struct U§ { T§<⟦uint8, string¦uint8¦uint8, string, bool¦uint8, Unknown§⟧> t; };
--
struct T§<X> { X a; }; struct U§ { ⟦T§<uint8>¦T§¦T§<>¦uint8<uint8>⟧ t; };
--
struct T§<X> { X a; }; struct N§ { uint8 a; }; subtype N§ NS§; enum uint8 E§ { A }; struct U§<X> { ⟦T§<X>‖T§<uint8>‖N§¦N§<X>¦NS§<uint8>¦E§<X>¦T§⟧ t; };
--
struct N§ { uint8 a; }; struct U§ { ⟦N§¦N§<uint8>⟧ t; };
--
struct T§<X> { X a; }; instantiate T§<uint8> ⟦TI§¦T§¦TJ§⟧; struct TJ§ { uint8 b; };
--
struct T§<X> { X a; }; struct N§ { uint8 a; }; instantiate ⟦T§<uint8>¦N§¦T§¦T§<uint8, uint8>¦Unknown§<uint8>⟧ TI§;
--
struct T§<X> { X a; }; instantiate T§<uint8> TI§; ⟦instantiate T§<uint16> TK§;¦instantiate T§<uint8> TK§;⟧
--
struct T§<X> { X a; uint8 v if a ⟦> 3¦&& true⟧; }; struct U§ { T§<uint8> t; };
--
struct T§<X> { X a; uint8 v if a == X.⟦A¦Z⟧; }; enum uint8 E§ { A, B }; struct U§ { T§<E§> t; };
--
struct T§<X> { X a; function uint8 fn() { return ⟦a.val‖3¦a.nope⟧; } }; struct W§ { uint8 val; }; struct U§ { T§<W§> t; };
--
struct T§<X, ⟦Y¦X⟧> { X a; }; struct U§ { T§<uint8, uint8> t; };
--
sql_table Q§ { uint32 id sql "PRIMARY KEY"; ⟦string‖uint8‖bool‖float64‖bit:5‖B§‖E§¦Unknown§¦QX§¦bytes¦extern⟧ v; }; struct B§ { uint8 a; }; enum uint8 E§ { A }; sql_table QX§ { uint8 a sql "PRIMARY KEY"; };
--
sql_table Q§ { uint32 id sql ⟦"PRIMARY KEY"‖"PRIMARY KEY" + " NOT NULL"¦5¦true¦unknown¦id⟧; };
--
sql_table Q§ { uint32 id sql "PRIMARY KEY"; uint8 ⟦v¦id¦ID⟧; };
--
sql_table Q§ { ⟦uint32 id sql "PRIMARY KEY";¦⟧ };
--
sql_table Q§ { uint32 id ⟦sql "PRIMARY KEY NOT NULL"¦⟧; string v; sql_without_rowid; };
--
sql_table Q§ { uint32 id; string v; sql "PRIMARY KEY(⟦id‖id, v¦nope¦id, nope⟧)"; };
--
sql_table Q§ { uint32 id sql "PRIMARY KEY"; string v; sql "UNIQUE(⟦id‖id, v¦nope⟧)"; };
--
sql_table Q§ { uint32 id sql "PRIMARY KEY"; ⟦¦sql_virtual ⟧string v; };
--
sql_table Q§ using fts4 { ⟦string a; string b;‖string a;¦⟧ };
--
sql_table Q§ using fts4 { string a; ⟦¦sql_without_rowid;⟧ };
--
struct B§(uint8 p) { uint8 a; }; sql_table Q§ { uint32 id sql "PRIMARY KEY"; uint8 n; B§(⟦n‖explicit q‖3¦¦explicit q, 3¦unknown⟧) b; };
--
struct B§(uint8 p) { uint8 a; }; struct BO§(string p) { uint8 a; }; sql_table Q§ { uint32 id sql "PRIMARY KEY"; B§(explicit q) b; BO§(explicit ⟦q2¦q⟧) c; };
--
struct B§(uint8 p) { uint8 a; }; struct S§ { uint8 n; B§(⟦n¦explicit n⟧) b; };
--
sql_table Q§ { uint32 id sql "PRIMARY KEY"; }; sql_database D§ { ⟦Q§ t1;¦uint8 t1;¦Unknown§ t1;¦Q§ t1[];⟧ Q§ t2; };
--
sql_table Q§ { uint32 id sql "PRIMARY KEY"; }; sql_database D§ { Q§ t1; Q§ ⟦t2¦t1¦T1⟧; };
--
sql_table Q§ { uint32 id sql "PRIMARY KEY"; }; sql_database D§ { Q§ t1; }; struct S§ { ⟦uint8¦Q§¦D§⟧ t1; };
--
struct S§ { uint8 a; }; service V§ { ⟦S§‖bytes¦uint8¦string¦Unknown§¦P§¦Q§¦E§⟧ m1(S§); S§ m2(bytes); }; struct P§(uint8 p) { uint8 a; }; sql_table Q§ { uint32 id sql "PRIMARY KEY"; }; enum uint8 E§ { A };
--
struct S§ { uint8 a; }; service V§ { S§ m1(⟦S§‖bytes¦uint8¦string¦Unknown§¦P§¦Q§¦¦S§, S§⟧); }; struct P§(uint8 p) { uint8 a; }; sql_table Q§ { uint32 id sql "PRIMARY KEY"; };
--
struct S§ { uint8 a; }; service V§ { S§ m1(S§); S§ ⟦m2¦m1¦M1⟧(S§); };
--
struct S§ { uint8 a; }; service V§ { S§ m1(S§); }; struct U§ { ⟦uint8¦V§¦PS§⟧ v; }; pubsub PS§ { topic("x") S§ m1; };
--
struct S§ { uint8 a; }; service V§ { S§ m1(S§); }; pubsub PS§ { topic("x") S§ m1; }; sql_table Q§ { uint32 id sql "PRIMARY KEY"; }; sql_database D§ { Q§ t1; }; union U§ { ⟦uint8¦V§¦PS§¦Q§¦D§⟧ v⟦‖[]⟧; };
--
struct S§ { uint8 a; }; service V§ { S§ m1(S§); }; pubsub PS§ { topic("x") S§ m1; }; sql_table Q§ { uint32 id sql "PRIMARY KEY"; }; sql_database D§ { Q§ t1; }; subtype ⟦S§¦V§¦PS§¦D§⟧ T§; struct U§ { T§ t; };
--
struct S§ { uint8 a; }; service V§ { S§ m1(S§); }; pubsub PS§ { topic("x") S§ m1; }; sql_table Q§ { uint32 id sql "PRIMARY KEY"; }; sql_database D§ { Q§ t1; }; struct T§<X> { X t; }; struct U§ { T§<⟦S§¦V§¦PS§¦Q§¦D§⟧> t; };
--
struct S§ { uint8 a; }; service V§ { S§ m1(S§); }; pubsub PS§ { topic("x") S§ m1; }; sql_table Q§ { uint32 id sql "PRIMARY KEY"; }; sql_database D§ { Q§ t1; }; struct U§ { S§ s; function ⟦S§¦V§¦PS§¦Q§¦D§⟧ fn() { return s; } };
--
struct S§ { uint8 a; }; service V§ { S§ m1(S§); }; pubsub PS§ { topic("x") S§ m1; }; sql_table Q§ { uint32 id sql "PRIMARY KEY"; }; sql_database D§ { Q§ t1; }; struct U§(⟦S§¦V§¦PS§¦Q§¦D§⟧ p) { uint8 a; };
--
struct S§ { uint8 a; }; service V§ { S§ m1(S§); }; pubsub PS§ { topic("x") S§ m1; }; sql_table Q§ { uint32 id sql "PRIMARY KEY"; }; sql_database D§ { Q§ t1; }; sql_table U§ { uint32 id sql "PRIMARY KEY"; ⟦S§¦V§¦PS§¦Q§¦D§⟧ v; };
--
struct S§ { uint8 a; }; sql_table Q§ { uint32 id sql "PRIMARY KEY"; }; subtype Q§ QS§; subtype S§ SS§; struct U§ { ⟦SS§¦QS§⟧ v⟦‖[2]⟧; };
--
struct S§ { uint8 a; }; pubsub P§ { topic(⟦"a/b"‖"a" + "b"‖K§¦5¦true¦unknown¦S§⟧) S§ m1; publish topic("x") bytes m2; subscribe topic("y") S§ m3; }; const string K§ = "top";
--
struct S§ { uint8 a; }; pubsub P§ { topic("x") ⟦S§‖bytes¦uint8¦string¦Unknown§¦X§¦Q§⟧ m1; }; struct X§(uint8 p) { uint8 a; }; sql_table Q§ { uint32 id sql "PRIMARY KEY"; };
--
struct S§ { uint8 a; }; pubsub P§ { topic("x") S§ m1; topic("y") S§ ⟦m2¦m1¦M1⟧; };
--
rule_group R§ { rule ⟦"rule-a§"‖"rule-" + "a§"¦5¦true¦unknown¦"rule a§"¦"-rule§"¦"rule-b§"¦"RULE-B§"¦""⟧; rule "rule-b§"; };
--
struct S§ { uint8 a; uint8 b⟦;¦¦,⟧ };
--
struct S§ { uint8 a; }⟦;¦⟧
--
enum uint8 E§ { ⟦A¦¦1¦,⟧ };
--
const uint32 K§ = ⟦0xFF‖077‖101b‖0¦0xG¦08¦102b¦1_0¦"⟧;
--
struct S§ { ⟦string a = "x\n\t\"\\\x41\u0041\0101";¦string a = "x\q";¦string a = "abc;¦string a = 'x';⟧ };
--
struct S§ { ⟦uint8‖string‖bytes‖extern¦struct¦optional¦if¦align¦case¦const⟧ a; };
--
struct S§ { uint8 ⟦a‖fieldA‖sizeOf¦struct¦optional¦uint8¦lengthof¦case¦bool¦on¦packed¦extend¦instantiate⟧; };
--
struct S§ { uint8 a[4]; uint8 b : ⟦a[0] > 1‖lengthof(a) > 2¦a > 1¦a == a¦lengthof(b) > 1¦a[0][1] > 2¦a[] > 1⟧; };
--
struct S§ { uint8 n; uint8 a[]; uint8 b if ⟦n > 2¦a[@index] > 2¦@index > 2⟧; };
--
struct S§ { uint8 n; P§(⟦n‖@index¦@idx⟧) a[]; }; struct P§(uint8 p) { uint8 v; };
--
struct S§ { uint8 n; P§(⟦n‖n + 2¦@index⟧) a; }; struct P§(uint8 p) { uint8 v; };
--
struct S§ { uint8 n; choice§ ⟦c§¦c§ d§⟧; }; subtype uint8 Choice§; subtype Choice§ ChoiceB§;
'''


def imports(t):
    """(files, main, good text, [bad texts]): references to symbols of several packages, resolved as the language guide says"""
    pk = ["lib.p1", "p2", "lib.sub.p3"][:t.int(1, 3)]
    names = ["NA", "NB", "NC", "ND"]
    syms = {p: {n: (t.pick("ce"), 10 * (i + 1) + j) for j, n in enumerate(names) if t.chance(60)} for i, p in enumerate(["a"] + pk)}

    def text(p):
        return "".join("const uint8 %s = %d;\n" % (n, v) if k == "c" else "enum uint8 %s { IT = %d };\n" % (n, v) for n, (k, v) in syms[p].items())
    files = {p.replace(".", "/") + ".zs": "package %s;\n" % p for p in ["a"] + pk}
    for p in pk:
        f = p.replace(".", "/") + ".zs"
        for q in pk:
            if q != p and t.chance(30):
                files[f] += "import %s.*;\n" % q
        files[f] += text(p)
    whole, single, lines = set(), set(), []
    for p in pk:
        k = t.raw(5)
        if k < 2:
            lines.append("import %s.*;\n" % p); whole.add(p)
            if t.chance(25):
                lines.append("import %s.*;\n" % p)
        if k in (1, 2, 3):
            for n in sorted(syms[p]):
                if t.chance(50):
                    lines.append("import %s.%s;\n" % (p, n)); single.add((p, n))
                    if t.chance(20):
                        lines.append("import %s.%s;\n" % (p, n))
    for i in range(len(lines) - 1, 0, -1):
        j = t.raw(i + 1)
        lines[i], lines[j] = lines[j], lines[i]
    files["a.zs"] += "".join(lines) + text("a")
    good, bad = "", []

    def use(ref, k, v, i):
        x = ref if k == "c" else "valueof(%s.IT)" % ref
        return "const uint8 CK%d = 255 + %s - %d; const uint8 CL%d = %s - %d;\n" % (i, x, v, i, x, v)
    i = 0
    for n in names:
        one = {("a", n)} if n in syms["a"] else set()
        one |= {x for x in single if x[1] == n and x[0] not in whole}
        two = {(p, n) for p in whole if n in syms[p]}
        covered = any(x[1] == n and x[0] in whole for x in single)   # such an import is open when other packages have the name
        res = one if one else two
        i += 1
        if len(res) == 1 and not (covered and (one or len(two) > 1)):
            p = next(iter(res))[0]
            good += use(n, *syms[p][n], i)
        elif len(res) != 1 and not covered:
            bad.append(use(n, "c", 0, 900 + i)); bad.append("struct SX%d { %s f; };\n" % (i, n))
    for p in ["a"] + pk:
        for n in names:
            i += 1
            ok = n in syms[p] and (p == "a" or p in whole or (p, n) in single)
            if ok:
                good += use(p + "." + n, *syms[p][n], i)
            else:
                k, v = syms[p].get(n, ("c", 0))
                bad.append(use(p + "." + n, k, v, 900 + i))
    return files, "a.zs", good, bad


def text_rules():
    out = []
    for r in TEXT.split("\n--\n"):
        r = r.strip("\n")
        if "choice§ " in r:
            continue
        out.append(r)
    return out


RULE_TEXTS = text_rules()
GROUP = re.compile("⟦([^⟧]*)⟧")


def instance(t, text, n):
    """(good text, [bad texts]) of a snippet"""
    goods, bads = [], []
    for m in GROUP.finditer(text):
        p = m.group(1).split("¦")
        goods.append(p[0].split("‖"))
        bads.append(p[1:])
    pick = [t.pick(g) for g in goods]

    def build(sub, i=None):
        it = iter(range(len(pick)))

        def f(m):
            k = next(it)
            return sub if k == i else pick[k]
        return GROUP.sub(f, text).replace("§", str(n))
    out = []
    for i, bs in enumerate(bads):
        for b in bs:
            out.append(build(b, i))
    return build(None), out
