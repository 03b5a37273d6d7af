"""Generator of schemas made of expressions: constants folded by the compiler and functions, lengths, conditions evaluated at run time."""
from .model import *
from .gen import *
from .gen import ilit, native_jt, lit_ct, lit_jt, bin_ok, cmp_ok, common_ct, common_jt, fits, typed, Ref, CT, JT, SchemaGen, int_value
from .refcodec import is_compound

SOFT = ("dotf", "dotp", "fn", "elem", "lengthof", "numbits", "index", "valueof")


def nodes(e):
    yield e
    for a in e.a:
        if isinstance(a, E):
            for x in nodes(a):
                yield x


def big_and_soft(e, ret=None):
    """combinations of a BigInteger context and operands for which the Java generator is known not to compile (P30)"""
    big = ret is not None and ret.base().kind in ("int", "var", "dyn") and native_jt(ret.base()) == "B"
    soft = False
    for x in nodes(e):
        big |= x.jt == "B"
        soft |= x.k in SOFT
    return big and soft


class ExprGen(SchemaGen):
    def __init__(self, tape, profile=None):
        SchemaGen.__init__(self, tape, dict(dict(function=100, optional=18, packed=10, array=18, nested=12, offsets=0, indexed=0, align=3,
                                                 constraint=12, default=12, choice=0, union=0, recursion=0, extended=0, implicit=0,
                                                 params=35, dyn=40, enum=12, bitmask=9, removed=0, ncompounds=(1, 1), nfields=(4, 9),
                                                 exprdepth=3), **(profile or {})))

    hide = None

    def gen(self):
        t = self.t
        names = ["zs.pmain", "zs.pa"][:1 + t.chance(30)]
        self.pkgs = names[::-1]
        for i, pk in enumerate(self.pkgs):
            self.pkg = pk
            self.s.pkgs[pk] = []
            self.s.imports[pk] = ["import %s.*;\n" % q for q in self.pkgs[:i]]
            self.gen_enum()
            if t.chance(60):
                self.gen_mask()
            for _ in range(t.int(2, 6)):
                self.gen_const()
            if t.chance(40):
                self.gen_enum()
            d = self.gen_struct()
            self.compounds.append(self.add(d))
        for _ in range(2):
            self.compounds.append(self.add(self.gen_struct()))
        self.s.main = self.pkgs[-1]
        self.pick_roots()
        return self.s

    # ------------------------------------------------------------ exact constant expressions
    def const_value(self, e):
        return Env(None).eval(e)

    def folded(self, e):
        """the compiler does not fold the ternary operator"""
        return not any(x.k == "tern" or x.k == "const" and x.a[0].expr is not None and not self.folded(x.a[0].expr) for x in nodes(e))

    def exact(self, depth):
        """integer expression of literals, constants and enumeration items; intermediate values may have any size"""
        t = self.t
        if depth <= 0 or t.chance(18):
            k = t.raw(6)
            c = [x for x in self.consts if x.ty.base().kind in ("int", "var") and self.folded(x.expr)]
            if k == 0 and c:
                return self.const_ref(t.pick(c))
            if k == 1 and self.enums + self.masks:
                d = t.pick(self.enums + self.masks)
                if d is self.hide:
                    return self.lit_int(t.pick([t.int(0, 99), t.int(0, 99), t.int(64, 71), 512 + t.int(0, 65)]))
                i = E("item", d, t.raw(len(d.items)), t="enum" if isinstance(d, Enum) else "mask", d=d)
                return E("valueof", i, t="int")
            b = t.pick([1, 2, 3, 5, 8, 16, 31, 32, 33, 63, 64])
            return self.lit_int(t.pick([0, 1, (1 << b) - 1, 1 << b - 1, t.int(0, (1 << b) - 1), t.int(0, 12), t.int(0, 12), t.int(64, 71)]))
        k = t.raw(16)
        if k < 10:
            op = t.pick(["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"])
            x = self.exact(depth - 1)
            y = self.lit_int(t.int(0, 40)) if op in ("<<", ">>") else self.exact(depth - 1)
            try:
                v = self.const_value(y)
            except Trap:
                return x
            if op in ("/", "%") and v == 0:
                y = self.lit_int(t.int(1, 9))
            return E("bin", op, x, y, t="int")
        if k == 10:
            return E("un", "-", self.exact(depth - 1), t="int")
        if k == 11:
            return E("un", "~", self.exact(depth - 1), t="int")
        if k == 12:
            return E("un", "+", self.exact(depth - 1), t="int")
        if k == 13:
            return E("paren", self.exact(depth - 1), t="int")
        if k == 14:
            x = self.exact(depth - 1)
            v = self.const_value(x)
            return E("numbits", x if v >= 0 else E("un", "-", x, t="int"), t="int")
        return E("bin", "+", E("paren", self.exact(depth - 1), t="int"), self.exact(depth - 1), t="int")

    def gen_const(self):
        t = self.t
        if t.chance(75):
            e = self.int_expr([], t.int(1, 4))
            v = self.const_value(e)
            tys = [x for x in (fixed(8, True), fixed(8, False), fixed(16, True), fixed(16, False), bitf(5, False), bitf(12, True), fixed(32, True), var("varuint16"), var("varsize"),
                               fixed(32, False), fixed(64, True), fixed(64, False), bitf(63, False), var("varint"), var("varuint")) if x.lo <= v <= x.hi]
            if not tys:
                return
            self.consts.append(self.add(Const(self.tname("CONST_"), t.pick(tys), e, v)))
        elif t.chance(50):
            c = [x for x in self.consts if x.ty is STRING]
            es = [self.const_ref(t.pick(c)) if c and t.chance(40) else string_lit(t, 6) for _ in range(t.int(1, 4))]
            e = es[0]
            for x in es[1:]:
                e = E("bin", "+", e, x, t="string")
            v = self.const_value(e)
            if len(v) < 40:
                self.consts.append(self.add(Const(self.tname("CONST_"), STRING, e, v)))
        else:
            e = self.bool_expr([], 2)
            if not big_and_soft(e):
                self.consts.append(self.add(Const(self.tname("CONST_"), BOOL, e, self.const_value(e))))

    def gen_enum(self):
        """values are folded by the compiler: expressions of any size"""
        d = SchemaGen.gen_enum(self)
        self.hide = d
        for it in d.items:
            if it.expr is not None:
                it.expr = self.exact_for(it.value)
        self.hide = None
        return d

    def gen_mask(self):
        d = SchemaGen.gen_mask(self)
        self.hide = d
        for it in d.items:
            if it.expr is not None:
                it.expr = self.exact_for(it.value)
        self.hide = None
        return d

    def exact_for(self, v):
        """an exact expression with the value v"""
        t = self.t
        x = self.exact(t.int(1, 4))
        n = self.const_value(x)
        if abs(n) > 1 << 200 or t.chance(30):
            return self.lit_int(v)
        return E("bin", "+", x, self.lit_int(v - n), t="int") if t.chance(50) else E("bin", "-", x, self.par(self.lit_int(n - v)), t="int")

    # ------------------------------------------------------------ run time
    def int_type(self, **kw):
        t = self.t
        return SchemaGen.int_type(self, **kw) if kw or t.chance(45) else bitf(t.int(2, 7), t.chance(40))

    def int_leaf(self, refs, lo=None, hi=None):
        t = self.t
        ic = [k for k in self.consts if k.ty.base().kind in ("int", "var")]
        if ic and t.chance(12):
            return self.const_ref(t.pick(ic))
        e = SchemaGen.int_leaf(self, refs)
        return E("paren", e, t="int", lo=e.lo, hi=e.hi) and self.par(e) if t.chance(6) else e

    def par(self, e):
        p = E("paren", e, t=e.t, lo=e.lo, hi=e.hi, d=e.d)
        p.ct, p.jt = e.ct, e.jt
        return p

    def int_expr(self, refs, depth):
        t = self.t
        k = t.raw(20)
        if depth > 0 and k == 0:
            x = self.int_expr(refs, depth - 1)
            if x.ct in ("i32", "i64") and x.jt in ("i", "l") and fits(x, CT[x.ct]):
                e = E("un", "~", x, t="int", lo=-x.hi - 1, hi=-x.lo - 1)
                e.ct, e.jt = x.ct, x.jt
                if fits(e, JT[e.jt]):
                    return e
        elif depth > 0 and k == 1:
            x = self.int_expr(refs, depth - 1)
            if x.ct[0] != "d" and x.k != "un":
                e = E("un", "+", x, t="int", lo=x.lo, hi=x.hi)
                e.ct, e.jt = x.ct, x.jt
                return e
        elif k == 2:
            c = [r for r in refs if r.e.t == "string"]
            if c:
                e = E("lengthof", t.pick(c).e, t="int", lo=0, hi=(1 << 31) - 1)
                e.ct, e.jt = "u64", "i"
                return e
        e = SchemaGen.int_expr(self, refs, depth)
        return self.par(e) if t.chance(8) else e

    def float_expr(self, refs, depth):
        t = self.t
        c = [r for r in refs if r.e.t == "float" and r.ty.base().bits == 64]
        if depth <= 0 or t.chance(25):
            if c and t.chance(75):
                return t.pick(c).e
            return E("lit", *t.pick([(0.5, "0.5"), (2.0, "2.0"), (3.25, "3.25"), (1e10, "1.0e10"), (0.1, "0.1"), (1e-3, "1e-3")]), t="float")
        op = t.pick(["+", "-", "*", "/", "neg"])
        x = self.float_expr(refs, depth - 1)
        if op == "neg":
            return E("un", "-", x, t="float") if x.k != "un" else x
        if op == "/":
            return E("bin", "/", x, E("lit", 2.0, "2.0", t="float"), t="float")
        y = self.float_expr(refs, depth - 1)
        if t.chance(25):
            i = [r.e for r in self.refs_of(refs, "int") if r.e.ct == "i32" and r.e.jt == "i"]
            if i:
                y = t.pick(i)
        return E("bin", op, *((x, y) if t.chance(70) else (y, x)), t="float")

    def bool_expr(self, refs, depth):
        t = self.t
        k = t.raw(14)
        if k == 0:
            c = [r for r in refs if r.e.t == "float" and r.ty.base().bits == 64]
            if c:
                return E("bin", t.pick(["<", ">"]), self.float_expr(refs, 1), t.pick(c).e, t="bool")
        elif k == 2 and depth > 0:
            x = self.bool_expr(refs, depth - 1); y = self.bool_expr(refs, depth - 1)
            return E("bin", t.pick(["==", "!="]), self.par(x), self.par(y), t="bool")
        elif k == 3:
            c = [x for x in self.consts if x.ty is BOOL]
            if c:
                return self.const_ref(t.pick(c))
        elif k == 4 and depth > 0:
            c = self.bool_expr(refs, depth - 1)
            return self.par(E("tern", c, self.bool_expr(refs, depth - 1), self.bool_expr(refs, depth - 1), t="bool"))
        return SchemaGen.bool_expr(self, refs, depth)

    def optional_group(self, d, refs):
        """fields with the same condition which are used in one another; (condition, references for what is evaluated if it holds)"""
        t = self.t
        c = self.bool_expr(refs, 1)
        if not any(x.k in ("fld", "par", "dotf") for x in nodes(c)):
            b = self.refs_of(refs, "bool")
            if not b:
                return None
            c = t.pick(b).e
        c = self.par(c)
        saved = {k: self.p[k] for k in ("optional", "default", "align")}
        self.p.update(optional=0, default=0, align=0)
        inner = list(refs)
        made = []
        for i in range(t.int(2, 4)):
            f = self.gen_field(d, inner)
            made.append(f)
            if t.chance(40):        # twice the same type, so that they can be compared
                g = Field(self.fname(), f.ty)
                if f.arr is None and not is_compound(f.ty.base()) and f.ty.base().kind in ("int", "var", "bool", "ref"):
                    d.fields.append(g)
                    made.append(g)
                    x = typed(E("fld", len(d.fields) - 1, g), g.ty)
                    inner.append(Ref(x, g.ty))
                    y = [r.e for r in inner if r.e.k == "fld" and r.e.a[1] is f]
                    if y and x.t in ("int", "enum", "mask") and t.chance(70):
                        op = t.pick(["==", "!="])
                        e = cmp_ok(op, x, y[0]) if x.t == "int" else E("bin", op, x, y[0], t="bool")
                        h = Field(self.fname(), fixed(8, False))
                        if e:
                            h.opt = E("bin", "&&", c, self.par(e), t="bool")
                            d.fields.append(h)
                            d.funcs.append(Func(self.fname(), BOOL, E("bin", "&&", c, self.par(e), t="bool")))
        for f in made:
            f.opt = c
        self.p.update(saved)
        return c, inner

    def gen_funcs(self, d, refs):
        t = self.t
        n = t.int(4, 9)
        cond = None
        if t.chance(50):
            x = self.optional_group(d, refs)
            if x:
                cond, outer, refs = x[0], refs, x[1]
                n += len(d.funcs)
        for _ in range(n * 3):
            if len(d.funcs) >= n:
                break
            k = t.raw(12)
            if k < 6:
                e = self.int_expr(refs, t.int(1, 4))
                tys = [x for x in (fixed(8, True), fixed(8, False), fixed(16, True), fixed(16, False), fixed(32, True), fixed(32, False),
                                   fixed(64, True), fixed(64, False), bitf(5, False), bitf(33, True), var("varint"), var("varuint32"))
                       if x.lo <= e.lo and e.hi <= x.hi]
                if not tys or e.ct[0] == "d":
                    continue
                ret = t.pick(tys)
            elif k < 9:
                e = self.bool_expr(refs, t.int(1, 3)); ret = BOOL
            elif k == 9:
                e = self.float_expr(refs, 3); ret = F64
            elif k == 10 and any(x.ty is STRING for x in self.consts):
                e = self.const_ref(t.pick([x for x in self.consts if x.ty is STRING])); ret = STRING
            else:
                c = [r for r in refs if r.e.t in ("enum", "mask", "string")]
                if not c:
                    continue
                r = t.pick(c)
                e, ret = r.e, (STRING if r.e.t == "string" else ref(r.e.d))
                if r.e.t == "mask" and t.chance(60):
                    y = t.pick([q.e for q in c if q.e.d is r.e.d] + [E("item", r.e.d, t.raw(len(r.e.d.items)), t="mask", d=r.e.d)])
                    e = E("bin", t.pick("&|^"), e, y, t="mask", d=r.e.d) if t.chance(70) else E("un", "~", e, t="mask", d=r.e.d)
                if r.e.t == "enum" and t.chance(40):
                    y = t.pick([q.e for q in c if q.e.d is r.e.d] + [E("item", r.e.d, t.raw(len(r.e.d.items)), t="enum", d=r.e.d)])
                    e = E("tern", self.bool_expr(refs, 1), e, y, t="enum", d=r.e.d)
            if big_and_soft(e, ret):
                continue
            if cond is not None and any(x.k == "fld" and x.a[1].opt is cond for x in nodes(e)):
                if ret is BOOL:
                    e = E("bin", "&&", cond, self.par(e), t="bool")
                elif ret.base().kind in ("int", "var") and e.jt in ("i", "l") and e.ct in ("i32", "i64"):
                    z = E("tern", cond, self.par(e), self.par(self.lit_int(1)), t="int", lo=min(1, e.lo), hi=max(1, e.hi))
                    z.ct, z.jt = e.ct, e.jt
                    e = z
                else:
                    continue
            f = Func(self.fname(), ret, e)
            d.funcs.append(f)
            if ret.base().kind in ("int", "var", "bool") and t.chance(50):
                x = typed(E("fn", None, f), ret)
                refs = refs + [Ref(x, ret)]
