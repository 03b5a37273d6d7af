"""Random generator of schemas (accepted by the language rules by construction) and of valid values."""
from .model import *
from .refcodec import use_args, is_compound, underlying, int_bits, Encoder, has_offsets


class GenFail(Exception):
    pass


DEFAULT_PROFILE = dict(
    npkg=((70, 1), (20, 2), (10, 3)),
    ncompounds=(2, 6), nfields=(1, 6),
    offsets=12, indexed=10, align=10, optional=18, constraint=12, packed=45, array=35, implicit=2, default=8,
    extended=12, function=25, recursion=8, params=35, subtype=15, dyn=8, choice=25, union=20, enum=14, bitmask=10,
    floats=8, strings=8, externs=5, bytes_=5, bools=8, nested=30, param_offset=8, compound_param=15, negshift=0,
    nan=0, maxlen=6, bigarray=4, exprdepth=2, partial_choice=15, removed=12, fieldparam=0,
)

INT_TYPES = [(3, "int8"), (3, "uint8"), (3, "int16"), (3, "uint16"), (3, "int32"), (3, "uint32"), (3, "int64"),
             (3, "uint64"), (6, "bitn"), (6, "intn"), (6, "var")]


def ctype(lo, hi):
    """C++ arithmetic type after promotion for a value of a field type of the given native size"""
    raise NotImplementedError


I32 = (-(1 << 31), (1 << 31) - 1)
U32 = (0, (1 << 32) - 1)
I64 = (-(1 << 63), (1 << 63) - 1)
U64 = (0, (1 << 64) - 1)
CT = {"i32": I32, "u32": U32, "i64": I64, "u64": U64}


def native_ct(t):
    """promoted C++ type of a field type; ds / du: a dynamic bit field, whose native type follows from the bounds
    which the compiler knows for its length expression"""
    if t.kind == "dyn":
        return "ds" if t.signed else "du"
    bits, signed = native_bits(t)
    if bits < 32:
        return "i32"
    if bits == 32:
        return "i32" if signed else "u32"
    return "i64" if signed else "u64"


def native_bits(t):
    """bits and sign of the smallest native C++ type"""
    if t.kind == "int":
        b = 8 if t.bits <= 8 else 16 if t.bits <= 16 else 32 if t.bits <= 32 else 64
        return b, t.signed
    if t.kind == "dyn":
        return 64, t.signed
    n = {"varint16": 16, "varint32": 32, "varint64": 64, "varint": 64, "varuint16": 16, "varuint32": 32,
         "varuint64": 64, "varuint": 64, "varsize": 32}[t.name]
    return n, t.signed


def native_jt(t):
    """i (int), l (long), B (BigInteger) after promotion"""
    if t.kind == "int":
        if t.signed:
            return "i" if t.bits <= 32 else "l"
        return "i" if t.bits <= 31 else "l" if t.bits <= 63 else "B"
    if t.kind == "dyn":
        return "l" if t.signed else "B"
    return {"varint16": "i", "varint32": "i", "varint64": "l", "varint": "l", "varuint16": "i", "varuint32": "i",
            "varuint64": "l", "varuint": "B", "varsize": "i"}[t.name]


def lit_ct(v):
    if I32[0] <= v <= I32[1]:
        return "i32"
    if v <= I64[1]:
        return "i64"
    return "u64"


def lit_jt(v):
    return "i" if I32[0] <= v <= I32[1] else "l" if v <= I64[1] else "B"


def common_ct(a, b):
    if a[0] == "d" or b[0] == "d":
        return None
    order = ["i32", "u32", "i64", "u64"]
    return order[max(order.index(a), order.index(b))]


def common_jt(a, b):
    return "B" if "B" in (a, b) else "l" if "l" in (a, b) else "i"


def fits(e, rng):
    return rng[0] <= e.lo and e.hi <= rng[1]


JT = {"i": I32, "l": I64, "B": (-(1 << 200), 1 << 200)}


def bin_ok(op, x, y):
    """typed E of an integer operation, or None where some language would leave the exact value"""
    if x.ct[0] == "d" or y.ct[0] == "d":
        if op not in ("&", "%") or x.lo < 0 or y.lo < 0 or y.ct[0] == "d" or not fits(y, I32) or (op == "%" and y.lo == 0):
            return None
        hi = y.hi if op == "&" else y.hi - 1
        jt = common_jt(x.jt, y.jt)
        e = E("bin", op, x, y, t="int", lo=0, hi=hi)
        e.ct, e.jt = "du", jt
        return e
    ct = common_ct(x.ct, y.ct); jt = common_jt(x.jt, y.jt)
    if op in ("<<", ">>"):
        ct, jt = x.ct, x.jt
        if jt == "B" or y.jt == "B":
            return None
        if y.lo < 0 or y.hi > 30:
            return None
        if x.lo < 0:
            return None
        if op == "<<":
            lo, hi = x.lo << y.lo, x.hi << y.hi
        else:
            lo, hi = x.lo >> y.hi, x.hi >> y.lo
    else:
        if not (fits(x, CT[ct]) and fits(y, CT[ct])):
            return None
        if op == "+":
            lo, hi = x.lo + y.lo, x.hi + y.hi
        elif op == "-":
            lo, hi = x.lo - y.hi, x.hi - y.lo
        elif op == "*":
            c = [a * b for a in (x.lo, x.hi) for b in (y.lo, y.hi)]
            lo, hi = min(c), max(c)
        elif op in ("/", "%"):
            if y.lo <= 0 <= y.hi:
                return None
            if op == "/":
                c = [cdiv(a, b) for a in {x.lo, x.hi, max(x.lo, min(0, x.hi))} for b in (y.lo, y.hi)]
                lo, hi = min(c), max(c)
            else:
                m = max(abs(y.lo), abs(y.hi)) - 1
                lo, hi = (-m if x.lo < 0 else 0), (m if x.hi > 0 else 0)
                lo = max(lo, x.lo if x.lo < 0 else 0); hi = min(hi, max(x.hi, 0))
        elif op in ("&", "|", "^"):
            if x.lo < 0 or y.lo < 0:
                # two's complement of the exact values
                if x.lo < -(1 << 62) or y.lo < -(1 << 62) or x.hi >= 1 << 62 or y.hi >= 1 << 62:
                    return None
                n = max(v.bit_length() for v in (x.lo, x.hi, y.lo, y.hi)) + 1
                lo, hi = -(1 << n), (1 << n) - 1
                n -= 1
                lo, hi = -(1 << n), (1 << n) - 1
            elif op == "&":
                lo, hi = 0, min(x.hi, y.hi)
            else:
                lo, hi = 0, (1 << max(x.hi, y.hi).bit_length()) - 1
        else:
            raise AssertionError(op)
    if not (CT[ct][0] <= lo and hi <= CT[ct][1] and JT[jt][0] <= lo and hi <= JT[jt][1]):
        return None
    e = E("bin", op, x, y, t="int", lo=lo, hi=hi)
    e.ct, e.jt = ct, jt
    return e


def cmp_ok(op, x, y):
    if x.ct[0] == "d" or y.ct[0] == "d":
        sign = {"ds", "i32", "i64"}
        if not (x.lo >= 0 and y.lo >= 0) and not (x.ct in sign and y.ct in sign):
            return None
        return E("bin", op, x, y, t="bool")
    ct = common_ct(x.ct, y.ct)
    if not (fits(x, CT[ct]) and fits(y, CT[ct])):
        return None
    return E("bin", op, x, y, t="bool")


def ilit(v):
    e = lit(v)
    e.lo = e.hi = v
    e.ct, e.jt = lit_ct(v), lit_jt(v)
    if v < 0:
        e.ct, e.jt = lit_ct(-v), lit_jt(-v)
        if not (CT[e.ct][0] <= v):
            e.ct = "i64"
    return e


class Ref:
    """something an expression may mention: E plus its (sub)type"""
    __slots__ = ("e", "ty")

    def __init__(self, e, ty):
        self.e = e; self.ty = ty


def typed(e, ty):
    """annotates a reference expression with static type information"""
    b = ty.base()
    if b.kind in ("int", "var", "dyn"):
        e.t = "int"; e.lo, e.hi = b.lo, b.hi
        e.ct, e.jt = native_ct(b), native_jt(b)
    elif b.kind == "bool":
        e.t = "bool"
    elif b.kind == "string":
        e.t = "string"
    elif b.kind == "float":
        e.t = "float"
    elif b.kind == "ref" and isinstance(b.decl, Enum):
        e.t = "enum"; e.d = b.decl
    elif b.kind == "ref" and isinstance(b.decl, Bitmask):
        e.t = "mask"; e.d = b.decl
    elif b.kind == "ref":
        e.t = "obj"; e.d = b.decl
    else:
        e.t = b.kind
    return e


class SchemaGen:
    def __init__(self, tape, profile=None, prefix="zs"):
        self.t = tape
        self.p = dict(DEFAULT_PROFILE)
        if profile:
            assert set(profile) <= set(DEFAULT_PROFILE), set(profile) - set(DEFAULT_PROFILE)
            self.p.update(profile)
        self.s = Schema()
        self.n = 0
        self.top = prefix
        self.consts = []; self.enums = []; self.masks = []; self.subs = []; self.compounds = []
        self.features = set()

    def chance(self, name):
        return self.t.chance(self.p[name])

    # ---------------------------------------------------------------- names
    FORMS = ["a%d", "val%d", "some_value%d", "fieldName%d", "x%dy", "anItem%dX", "u_%d_v", "longFieldNAMEs%d", "tA%db"]
    TFORMS = ["T%d", "Type%d", "My_Type%d", "ABCObj%d", "Rec%dX"]

    def fname(self):
        self.n += 1
        return self.t.pick(self.FORMS) % self.n

    def tname(self, base=None):
        self.n += 1
        return (base + "%d" if base else self.t.pick(self.TFORMS)) % self.n

    # ---------------------------------------------------------------- schema
    def gen(self):
        t = self.t
        npkg = t.weighted(self.p["npkg"])
        names = [self.top + "." + x for x in ("pmain", "pa", "pb")][:npkg]
        if npkg == 1 and t.chance(20):
            names = [self.top]
        self.pkgs = names[::-1]  # main last
        for i, pk in enumerate(self.pkgs):
            self.pkg = pk
            self.s.pkgs[pk] = []
            self.s.imports[pk] = ["import %s.*;\n" % q for q in self.pkgs[:i]]
            last = i == npkg - 1
            for _ in range(t.int(0, 2)):
                self.gen_const()
            if t.chance(70):
                self.gen_enum()
            if t.chance(45):
                self.gen_mask()
            lo, hi = self.p["ncompounds"]
            n = t.int(lo, hi) if last else t.int(0, 2)
            for _ in range(n):
                if self.chance("subtype"):
                    self.gen_subtype()
                self.gen_compound()
        self.s.main = self.pkgs[-1]
        for d in self.compounds:
            for f in d.fields:
                if getattr(f, "offok", False):
                    f.used_as_offset = False   # nobody took it
        self.finish_extended()
        self.pick_roots()
        return self.s

    def add(self, d):
        return self.s.add(d, self.pkg)

    def int_type(self, unsigned=False, minbits=1, maxbits=64, allow_var=True):
        t = self.t
        while True:
            k = t.weighted(INT_TYPES)
            if k == "bitn":
                r = bitf(t.int(max(minbits, 1), maxbits if t.chance(70) else max(minbits, min(maxbits, 6))), False)
            elif k == "intn":
                r = bitf(t.int(max(minbits, 2), maxbits if t.chance(70) else max(minbits, 2, min(maxbits, 6))), True) if maxbits >= 2 else bitf(1, False)
                if t.chance(3) and minbits <= 1:
                    r = bitf(1, True)
            elif k == "var":
                if not allow_var:
                    continue_ = True
                    r = None
                else:
                    r = var(t.pick(list(VAR)))
            else:
                bits = int(k.lstrip("uint"))
                r = fixed(bits, not k.startswith("u"))
                if not minbits <= bits <= maxbits:
                    r = None
            if r is None or (unsigned and r.signed):
                r = fixed(32, False) if minbits <= 32 <= maxbits else bitf(minbits, False)
            return r

    def gen_const(self):
        t = self.t
        k = t.pick(["int", "bool", "string", "float", "int"])
        if k == "int":
            ty = self.int_type()
            v = self.int_value(ty.lo, ty.hi)
            e = self.lit_int(v)
        elif k == "bool":
            ty = BOOL; v = t.chance(50); e = lit(v)
        elif k == "string":
            ty = STRING; e = string_lit(t, 8); v = e.a[0]
        else:
            ty = t.pick([F16, F32, F64]); v = t.pick([0.0, 0.5, 1.0, -2.25, 100.0]); e = self.lit_float(v, ty.bits)
        self.consts.append(self.add(Const(self.tname("CONST_"), ty, e, v)))

    def lit_int(self, v):
        """literal in some notation"""
        t = self.t
        if v < 0:
            e = E("un", "-", self.lit_int(-v), t="int", lo=v, hi=v)
            z = ilit(v)
            e.ct, e.jt = z.ct, z.jt
            return e
        k = t.raw(6)
        text = str(v)
        if k in (3, 5) and "0" in format(v, "o").strip("0"):
            k = 4                   # octal with a zero inside
        if k == 1:
            text = "0x%X" % v
        elif k == 2:
            text = "0x%x" % v
        elif k == 3 and v < 4096:
            text = format(v, "b") + "b"
        elif k == 4:
            text = "0" + "0" * t.weighted([(8, 0), (1, 1), (1, 2)]) + format(v, "o")
        e = ilit(v)
        e.a = (v, text)
        return e

    def lit_float(self, v, bits=64):
        if v < 0:
            return E("un", "-", self.lit_float(-v, bits), t="float")
        text = repr(v) + ("f" if bits < 64 else "")
        return E("lit", v, text, t="float")

    def gen_enum(self):
        t = self.t
        ty = self.int_type(minbits=3)
        if t.chance(10):
            ty = fixed(8, False)
        n = t.int(1, 5)
        items = []
        used = set()
        cur = None
        sub = self.maybe_subtype(ty)
        for i in range(n):
            v = cur + 1 if cur is not None else 0
            e = None
            if t.chance(45) or v in used or v > ty.hi or v < ty.lo:
                for _ in range(10):
                    v = self.int_value(ty.lo, ty.hi)
                    if v not in used:
                        break
                if v in used:
                    continue
                e = self.lit_int(v)
            flag = None
            if i > 0 and self.chance("removed"):
                flag = "removed" if t.chance(60) else "deprecated"
            used.add(v); cur = v
            self.n += 1
            items.append(Item(t.pick(["ITEM_%d", "Val%d", "x%dy", "BigOne%d"]) % self.n, v, e, flag))
        d = self.add(Enum(self.tname(t.pick(["Color%d".replace("%d", ""), "MyEnum", "En_um"])), sub or ty, items))
        self.enums.append(d)
        return d

    def gen_mask(self):
        t = self.t
        ty = self.int_type(unsigned=True, minbits=4)
        bits = 56 if ty.kind == "var" and ty.name == "varuint64" else None
        hi = ty.hi
        n = t.int(1, 4)
        items = []; used = set(); last = None
        for i in range(n):
            e = None
            # implicit value after an explicit 0: known finding P28, always explicit here
            v = 1 if last is None else 1 << last.bit_length()
            if t.chance(40) or v > hi or last == 0:
                v = min(self.int_value(0, hi), hi)
                if v in used:
                    continue
                e = self.lit_int(v)
            if v in used or v > hi:
                continue
            used.add(v); last = v
            self.n += 1
            items.append(Item(t.pick(["FLAG_%d", "Read%d", "w%dx"]) % self.n, v, e))
        if not items:
            self.n += 1
            items.append(Item("FLAG_%d" % self.n, 1))
        d = self.add(Bitmask(self.tname("Mask"), ty, items))
        self.masks.append(d)
        return d

    def maybe_subtype(self, ty):
        if self.chance("subtype"):
            return ref(self.add(Subtype(self.tname("Sub"), ty)))
        return None

    def gen_subtype(self):
        ty = self.field_type([], allow_dyn=False, allow_params=False)
        self.subs.append(self.add(Subtype(self.tname("Sub"), ty)))

    # ---------------------------------------------------------------- expressions
    def refs_of(self, refs, kind):
        return [r for r in refs if r.e.t == kind]

    def int_leaf(self, refs, lo=None, hi=None):
        t = self.t
        c = self.refs_of(refs, "int")
        if c and t.chance(75):
            return t.pick(c).e
        ic = [k for k in self.consts if k.ty.kind in ("int", "var")]
        if ic and t.chance(20):
            k = t.pick(ic)
            return self.const_ref(k)
        v = t.weighted([(6, t.int(0, 9)), (1, 255), (1, 1000), (1, 64 + t.int(0, 7))])
        return self.lit_int(v) if t.chance(40) else ilit(v)

    def const_ref(self, k):
        e = typed(E("const", k), k.ty)
        return e

    def int_expr(self, refs, depth):
        t = self.t
        if depth <= 0 or t.chance(30):
            return self.int_leaf(refs)
        for _ in range(4):
            k = t.raw(14)
            if k < 9:
                op = t.pick(["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "+"])
                x = self.int_expr(refs, depth - 1)
                y = ilit(t.int(1, 7)) if op in ("/", "%", "<<", ">>") else self.int_expr(refs, depth - 1)
                if op in ("<<", ">>") and t.chance(30):
                    y = self.int_leaf(refs)    # a shift by a field, where the range is known to be small
                elif op in ("/", "%") and t.chance(40):
                    y = self.int_leaf(refs)
                    if y.lo == 0:
                        y = bin_ok("+", y, ilit(1))
                    if y is None:
                        continue
                e = bin_ok(op, x, y)
            elif k == 9:
                c = self.bool_expr(refs, depth - 1)
                x = self.int_expr(refs, depth - 1); y = self.int_expr(refs, depth - 1)
                e = self.tern(c, x, y)
            elif k == 10:
                c = [r for r in refs if r.e.t in ("enum", "mask")]
                if not c:
                    continue
                r = t.pick(c)
                u = r.e.d.ty.base()
                o = [x for x in c if x.e.t == r.e.t and x.e.d is r.e.d]
                x = E("tern", self.bool_expr(refs, 0), r.e, t.pick(o).e, t=r.e.t, d=r.e.d) if t.chance(25) else r.e
                e = typed(E("valueof", x), u)
                if r.e.t == "mask":
                    e.lo, e.hi = u.lo, u.hi
            elif k == 11:
                c = [r for r in refs if r.e.t == "array"]
                if not c:
                    continue
                r = t.pick(c)
                e = E("lengthof", r.e, t="int", lo=0, hi=(1 << 31) - 1)
                e.ct, e.jt = "u64", "i"   # size_t
            elif k == 12:
                x = self.int_leaf(refs)
                if x.lo < 0 or x.hi > 1 << 31:
                    continue
                e = E("numbits", x, t="int", lo=0, hi=64)
                e.ct, e.jt = "i32", "i"
            else:
                e = self.neg(self.int_expr(refs, depth - 1))
            if e is not None:
                return e
        return self.int_leaf(refs)

    def neg(self, x):
        if x.k == "un" or x.lo < -(1 << 31) or x.hi > (1 << 31) - 1 or x.ct not in ("i32", "i64"):
            return None
        e = E("un", "-", x, t="int", lo=-x.hi, hi=-x.lo)
        e.ct, e.jt = x.ct, x.jt
        return e if fits(e, CT[e.ct]) and fits(e, JT[e.jt]) else None

    def tern(self, c, x, y):
        ct = common_ct(x.ct, y.ct)
        if ct is None:
            return None
        if not (fits(x, CT[ct]) and fits(y, CT[ct])) or ("B" in (x.jt, y.jt) and x.jt != y.jt):
            return None
        e = E("tern", c, x, y, t="int", lo=min(x.lo, y.lo), hi=max(x.hi, y.hi))
        e.ct, e.jt = ct, common_jt(x.jt, y.jt)
        return e

    def bool_expr(self, refs, depth):
        t = self.t
        for _ in range(4):
            k = t.raw(10)
            if k < 4:
                x = self.int_expr(refs, depth - 1); y = self.int_expr(refs, depth - 2)
                e = cmp_ok(t.pick(["==", "!=", "<", "<=", ">", ">="]), x, y)
                if e is not None:
                    return e
            elif k == 4:
                c = self.refs_of(refs, "bool")
                if c:
                    return t.pick(c).e
            elif k == 5:
                c = self.refs_of(refs, "enum")
                if c:
                    r = t.pick(c)
                    i = t.raw(len(r.e.d.items))
                    if r.e.d.items[i].flag == "removed":
                        continue
                    return E("bin", t.pick(["==", "!="]), r.e, E("item", r.e.d, i, t="enum", d=r.e.d), t="bool")
            elif k == 6:
                c = self.refs_of(refs, "mask")
                if c:
                    r = t.pick(c)
                    i = t.raw(len(r.e.d.items))
                    return E("isset", r.e, E("item", r.e.d, i, t="mask", d=r.e.d), t="bool")
            elif k == 7 and depth > 0:
                return E("bin", t.pick(["&&", "||"]), self.bool_expr(refs, depth - 1), self.bool_expr(refs, depth - 1), t="bool")
            elif k == 8 and depth > 0:
                return E("un", "!", E("paren", self.bool_expr(refs, depth - 1), t="bool"), t="bool")
            elif k == 9:
                return lit(t.chance(50))
        x = self.int_leaf(refs)
        e = cmp_ok("!=", x, ilit(3))
        return e if e is not None else lit(True)

    def small_expr(self, refs, hi, lo=0):
        """integer expression with values in [lo, hi], lo in (0, 1)"""
        t = self.t
        dyn = lo == 1
        for _ in range(8 if dyn else 4):
            k = t.raw(12 if dyn else 7)
            if k == 0:
                return ilit(t.int(lo, hi))
            if k > 4:
                e = self.moved(refs, hi, lo)
                if e is not None:
                    return e
                continue
            c = [r for r in self.refs_of(refs, "int")]
            fit = [r for r in c if r.e.lo >= lo and r.e.hi <= hi]
            if k == 1 and fit:
                return t.pick(fit).e
            if not c:
                continue
            r = t.pick(c).e
            m = 1
            while m * 2 + 1 + lo <= hi:
                m = m * 2 + 1
            if k in (1, 2) and r.lo >= 0 and m + lo <= hi:
                e = bin_ok("&", r, ilit(m))
            elif k == 3 and r.lo >= 0:
                e = bin_ok("%", r, ilit(hi - lo + 1))
            elif k == 4:
                cnd = self.bool_expr(refs, 1)
                e = self.tern(cnd, ilit(t.int(lo, hi)), ilit(t.int(lo, hi)))
            else:
                continue
            if e is None:
                continue
            if lo:
                e = bin_ok("+", e, ilit(lo))
            if e is not None and e.lo >= lo and e.hi <= hi:
                return e
        return ilit(t.int(lo, hi))

    def moved(self, refs, hi, lo):
        """an expression of several operands, moved into [lo, hi] by adding or subtracting a constant, or None"""
        t = self.t
        narrow = [r.e for r in self.refs_of(refs, "int") if r.e.lo >= -40 and r.e.hi <= 70]
        if not narrow or t.chance(30):
            x = self.int_expr(refs, 2)
        else:
            op = t.pick(["neg", "/", "%", "-", "*", ">>", ">>", "<<", "&", "|", "^"])
            x = t.pick(narrow) if op in ("neg", "-", "*", "<<") and t.chance(80) else self.int_leaf(refs)
            y = t.pick(narrow)
            if op == "neg":
                x = self.neg(x)
            else:
                if op in ("/", "%") and y.lo == 0:
                    y = bin_ok("+", y, ilit(1))
                x = y and bin_ok(op, x, y)
        if x is not None and t.chance(25) and x.lo >= 0:
            x = bin_ok(">>", x, ilit(t.int(1, 40)))
        if x is None or x.hi - x.lo > hi - lo or x.hi == x.lo:
            return None
        if x.hi - x.lo < hi - lo and t.chance(50):
            lo = t.int(lo, hi - (x.hi - x.lo))
        d = lo - x.lo
        if d and x.k == "lit":
            return None
        e = x if d == 0 else bin_ok("+", x, ilit(d)) if d > 0 else bin_ok("-", x, ilit(-d))
        return e if e is not None and e.lo >= lo and e.hi <= hi else None

    def arg_expr(self, refs, pty):
        """expression for a parameter of type pty, or None"""
        t = self.t
        b = pty.base()
        if b.kind in ("int", "var"):
            for _ in range(4):
                e = self.int_expr(refs, 1)
                if e.lo >= b.lo and e.hi <= b.hi:
                    return e
            c = [r for r in self.refs_of(refs, "int") if r.e.lo >= b.lo and r.e.hi <= b.hi]
            if c:
                return t.pick(c).e
            return ilit(min(max(t.int(0, 5), b.lo), b.hi))
        if b.kind == "bool":
            return self.bool_expr(refs, 1)
        if b.kind == "string":
            c = self.refs_of(refs, "string")
            return t.pick(c).e if c else lit("abc")
        if b.kind == "float":
            c = [r for r in refs if r.e.t == "float" and r.ty.base().bits <= b.bits]
            return t.pick(c).e if c else self.lit_float(1.5, b.bits)
        if b.kind == "ref":
            c = [r for r in refs if r.e.d is b.decl and r.e.t in ("enum", "mask", "obj")]
            if isinstance(b.decl, Compound):
                return t.pick(c).e if c else None
            if c and t.chance(70):
                return t.pick(c).e
            if isinstance(b.decl, Enum):
                live = [i for i, it in enumerate(b.decl.items) if it.flag != "removed"]
                return E("item", b.decl, t.pick(live), t="enum", d=b.decl)
            if isinstance(b.decl, Bitmask):
                return E("item", b.decl, t.raw(len(b.decl.items)), t="mask", d=b.decl)
        return None

    # ---------------------------------------------------------------- types
    def simple_type(self):
        """type usable as parameter or function result"""
        t = self.t
        k = t.raw(10)
        if k < 5:
            return self.int_type()
        if k == 5:
            return BOOL
        if k in (6, 7) and self.enums:
            return ref(t.pick(self.enums))
        if k == 8 and self.masks:
            return ref(t.pick(self.masks))
        if k == 9 and t.chance(30):
            return STRING
        return fixed(8, False)

    def field_type(self, refs, allow_dyn=True, allow_params=True, allow_compound=True):
        t = self.t
        p = self.p
        opts = [(30, "int"), (p["enum"], "enum"), (p["bitmask"], "mask"), (p["floats"], "float"),
                (p["strings"], "string"), (p["externs"], "extern"), (p["bytes_"], "bytes"), (p["bools"], "bool"),
                (p["subtype"] if self.subs else 0, "sub"), (p["nested"] if allow_compound else 0, "nested"),
                (p["dyn"] if allow_dyn else 0, "dyn")]
        k = t.weighted([o for o in opts if o[0] > 0])
        if k == "enum" and self.enums:
            return ref(t.pick(self.enums))
        if k == "mask" and self.masks:
            return ref(t.pick(self.masks))
        if k == "float":
            return t.pick([F16, F32, F64])
        if k == "string":
            return STRING
        if k == "extern":
            return EXTERN
        if k == "bytes":
            return BYTES
        if k == "bool":
            return BOOL
        if k == "sub":
            s = t.pick(self.subs)
            return ref(s)
        if k == "dyn":
            signed = t.chance(50)
            return Ty("dyn", None, signed=signed, expr=self.small_expr(refs, 64, 1))
        if k == "nested" and self.compounds:
            for _ in range(4):
                d = t.pick(self.compounds)
                if not d.params:
                    return ref(d)
                if not allow_params:
                    continue
                args = [self.arg_expr(refs, q.ty) for q in d.params]
                if all(a is not None for a in args):
                    return ref(d, args)
        return self.int_type()

    # ---------------------------------------------------------------- compounds
    def gen_compound(self):
        t = self.t
        k = t.weighted([(60, "struct"), (self.p["choice"], "choice"), (self.p["union"], "union")])
        if k == "struct":
            d = self.gen_struct()
        elif k == "union":
            d = self.gen_union()
        else:
            d = self.gen_choice()
        self.compounds.append(self.add(d))
        return d

    def gen_params(self, d, force=0):
        t = self.t
        n = max(force, t.int(1, 2) if self.chance("params") else 0)
        for i in range(n):
            ty = None
            if self.chance("compound_param"):
                c = [x for x in self.compounds if isinstance(x, Struct) and not x.params]
                if c:
                    ty = ref(t.pick(c))
            if ty is None:
                ty = self.simple_type()
            d.params.append(Param(self.fname(), ty))

    def param_refs(self, d):
        out = []
        for i, q in enumerate(d.params):
            self.add_refs(out, typed(E("par", i, q), q.ty), q.ty, 2)
        return out

    def add_refs(self, out, e, ty, depth):
        out.append(Ref(e, ty))
        b = ty.base()
        if depth > 0 and b.kind == "ref" and isinstance(b.decl, Struct):
            for j, f in enumerate(b.decl.fields):
                if f.opt is not None or f.used_as_offset or f.extended or f.recursive:
                    continue
                x = E("dotf", e, j, f)
                if f.arr is not None:
                    if f.arr != "implicit":
                        x.t = "array"
                        out.append(Ref(x, f.ty))
                    continue
                typed(x, f.ty)
                if x.t in ("extern", "bytes"):
                    continue
                self.add_refs(out, x, f.ty, depth - 1)
            for j, fn in enumerate(b.decl.funcs):
                if getattr(fn, "safe", True) and fn.ret.base().kind != "ref":
                    x = typed(E("fn", e, fn), fn.ret)
                    out.append(Ref(x, fn.ret))

    def gen_struct(self):
        t = self.t
        d = Struct(self.tname())
        self.gen_params(d)
        refs = self.param_refs(d)
        lo, hi = self.p["nfields"]
        n = t.int(lo, hi)
        i = 0
        while len(d.fields) < n:
            if self.chance("offsets") and len(d.fields) + 1 < n + 1:
                self.gen_offset_pair(d, refs)
            else:
                self.gen_field(d, refs)
        if self.chance("recursion") and not d.params:
            f = Field(self.fname(), ref(d))
            f.recursive = True
            if t.chance(50):
                f.opt = True if t.chance(60) else None
                if f.opt is None:
                    c = self.bool_expr(refs, 1)
                    f.opt = E("bin", "&&", c, self.nontrivial_bool(refs), t="bool")
            else:
                f.arr = "auto"
                f.packed = False
            if f.opt is not None or f.arr is not None:
                d.fields.append(f)
        # implicit array at the very end
        if self.chance("implicit") and not any(f.arr == "implicit" for f in d.fields):
            f = Field(self.fname(), fixed(t.pick([8, 16, 32]), t.chance(50)), arr="implicit")
            d.fields.append(f)
            d.noinner = True
        self.gen_funcs(d, refs)
        return d

    def nontrivial_bool(self, refs):
        c = self.refs_of(refs, "bool")
        if c:
            return self.t.pick(c).e
        return self.bool_expr(refs, 1)

    def contains_tail(self, ty):
        """type whose decoding depends on the end of the stream"""
        b = ty.base()
        return b.kind == "ref" and isinstance(b.decl, Compound) and getattr(b.decl, "tail", False)

    def usable(self, ty):
        b = ty.base()
        return not (b.kind == "ref" and isinstance(b.decl, Compound) and getattr(b.decl, "noinner", False))

    def gen_field(self, d, refs, offset=None, indexed_len=None):
        t = self.t
        ty = self.field_type(refs)
        for _ in range(5):
            if self.usable(ty):
                break
            ty = self.int_type()
        f = Field(self.fname(), ty)
        if indexed_len is not None:
            f.arr = indexed_len
        elif self.chance("array"):
            f.arr = "auto" if t.chance(55) else self.small_expr(refs, self.p["maxlen"])
            # args and widths may use @index only through offsets here
        if f.arr is not None and type_packable(f.ty) and self.chance("packed"):
            f.packed = True
        if f.arr is not None and is_compound(f.ty.base()) and use_args(f.ty) and t.chance(30):
            self.index_arg(f)
        if offset is not None:
            f.offset = offset
        if self.chance("align"):
            f.align = t.pick([1, 2, 4, 8, 16, 32, 64, 3, 7, 24])
        if self.chance("optional"):
            f.opt = True if t.chance(55) else self.bool_expr(refs, self.p["exprdepth"])
        d.fields.append(f)
        idx = len(d.fields) - 1
        fe = E("fld", idx, f)
        if f.arr is not None:
            fe.t = "array"
        else:
            typed(fe, f.ty)
        if f.arr is None and self.chance("constraint"):
            f.constraint = self.constraint(fe, refs)
        if f.arr is None and self.chance("default"):
            self.gen_default(f)
        if f.opt is None:
            if f.arr is not None:
                refs.append(Ref(fe, f.ty))
            elif fe.t not in ("extern", "bytes"):
                self.add_refs(refs, fe, f.ty, 2)
        return f

    def index_arg(self, f):
        args = list(use_args(f.ty))
        b = f.ty.base()
        for i, q in enumerate(b.decl.params):
            pb = q.ty.base()
            if pb.kind in ("int", "var") and pb.hi >= 255 and self.t.chance(60):
                e = E("index", t="int", lo=0, hi=(1 << 31) - 1)
                e.ct, e.jt = "u64", "i"
                if pb.hi < (1 << 31) - 1:
                    pass
                args[i] = e
                break
        f.ty = ref(f.ty.decl, args)

    def gen_default(self, f):
        b = f.ty.base()
        t = self.t
        if b.kind in ("int", "var", "bool", "string", "float") and t.chance(35):
            # a constant, whose type can be wider than the type of the field
            c = [x for x in self.consts if x.ty.base().kind in (("int", "var") if b.kind in ("int", "var") else (b.kind,))]
            c = [x for x in c if b.lo <= x.value <= b.hi] if b.kind in ("int", "var") else [x for x in c if fbits(bits_f(fbits(x.value, b.bits), b.bits), 64) == fbits(x.value, 64)] if b.kind == "float" else c
            if c:
                c = t.pick(c)
                f.default, f.default_value = self.const_ref(c), c.value
                return
        if b.kind in ("int", "var"):
            v = self.int_value(b.lo, b.hi)
            f.default, f.default_value = self.lit_int(v), v
        elif b.kind == "bool":
            v = t.chance(50); f.default, f.default_value = lit(v), v
        elif b.kind == "string":
            e = string_lit(t, 6); f.default, f.default_value = e, e.a[0]
        elif b.kind == "float":
            v = t.pick([0.0, 1.0, -0.5, 2.75, 1000.0]); f.default, f.default_value = self.lit_float(v, b.bits), v
        elif b.kind == "ref" and isinstance(b.decl, Enum):
            live = [i for i, it in enumerate(b.decl.items) if it.flag != "removed"]
            i = t.pick(live)
            f.default = E("item", b.decl, i); f.default_value = b.decl.items[i].value
        elif b.kind == "ref" and isinstance(b.decl, Bitmask):
            i = t.raw(len(b.decl.items))
            f.default = E("item", b.decl, i); f.default_value = b.decl.items[i].value

    def constraint(self, fe, refs):
        t = self.t
        if fe.t == "int":
            k = t.raw(5)
            if k == 0:
                return cmp_ok("!=", fe, ilit(t.int(0, 9)))
            if k == 1:
                a = self.int_value(fe.lo, fe.hi)
                return cmp_ok(t.pick(["<=", ">="]), fe, ilit(a)) if -(1 << 62) < a < (1 << 62) else None
            if k == 2:
                c = [r for r in self.refs_of(refs, "int")]
                if c:
                    return cmp_ok(t.pick(["!=", "<=", ">="]), fe, t.pick(c).e)
            if k == 3 and fe.lo >= 0 and fe.jt != "B":
                m = bin_ok("%", fe, ilit(t.int(2, 5)))
                return cmp_ok("!=", m, ilit(1)) if m is not None else None
            c = cmp_ok("<", fe, ilit(max(fe.lo + 1, min(fe.hi, 100))))
            if c is None:
                return None
            return E("bin", "||", c, self.bool_expr(refs, 1), t="bool")
        if fe.t == "enum":
            i = t.raw(len(fe.d.items))
            if fe.d.items[i].flag == "removed" or len(fe.d.live()) < 2:
                return None
            return E("bin", "!=", fe, E("item", fe.d, i, t="enum", d=fe.d), t="bool")
        if fe.t == "bool":
            return E("bin", "||", fe, self.bool_expr(refs, 1), t="bool")
        if fe.t == "mask":
            i = t.raw(len(fe.d.items))
            return E("isset", fe, E("item", fe.d, i, t="mask", d=fe.d), t="bool")
        return None

    def offset_int(self):
        return self.t.pick([fixed(32, False), fixed(16, False), fixed(64, False), bitf(self.t.int(12, 40), False),
                            fixed(32, False)])

    def gen_offset_pair(self, d, refs):
        t = self.t
        if self.chance("indexed") or t.chance(25):
            # offsets array and indexed field
            n = self.small_expr(refs, self.p["maxlen"])
            of = Field(self.fname(), self.offset_int(), arr="auto" if t.chance(40) else n)
            of.samelen = n
            of.used_as_offset = True
            d.fields.append(of)
            oi = len(d.fields) - 1
            if t.chance(50):
                self.gen_field(d, refs)
            base = E("fld", oi, of)
            arr = n
            off = E("elem", base, E("index", t="int"))
            g = self.gen_field(d, refs, offset=off, indexed_len=arr)
            g.opt = None
            of.aligned_with = g
            return
        c = [(r, j) for r in refs for j in ()]
        # nested header: an earlier struct field with an unsigned fixed member
        hdrs = []
        for r in refs:
            if r.e.t == "obj" and isinstance(r.e.d, Struct) and r.e.k in ("fld", "par"):
                for j, f in enumerate(r.e.d.fields):
                    if f.arr is None and f.opt is None and not f.extended and f.constraint is None and f.default is None \
                            and f.ty.kind == "int" and not f.ty.signed and f.ty.bits >= 12 and getattr(f, "offok", False):
                        hdrs.append((r.e, j, f))
        if hdrs and t.chance(60):
            e, j, f = t.pick(hdrs)
            f.offok = False   # one user only
            f.used_as_offset = True
            if t.chance(50):
                self.gen_field(d, refs)
            self.gen_field(d, refs, offset=E("dotf", e, j, f))
            self.features.add("nested offset")
            return
        of = Field(self.fname(), self.offset_int())
        if t.chance(25) and not any(getattr(f, "offok", False) for f in d.fields):
            # leave it for somebody else (a header offset)
            of.offok = True
            of.used_as_offset = True
            d.fields.append(of)
            return
        of.used_as_offset = True
        d.fields.append(of)
        oi = len(d.fields) - 1
        for _ in range(t.int(0, 2)):
            self.gen_field(d, refs)
        self.gen_field(d, refs, offset=E("fld", oi, of))

    def member(self, d, refs):
        """field of a choice or union"""
        t = self.t
        ty = self.field_type(refs)
        for _ in range(5):
            if self.usable(ty):
                break
            ty = self.int_type()
        f = Field(self.fname(), ty)
        if self.chance("array"):
            f.arr = "auto" if t.chance(60) else self.small_expr(refs, self.p["maxlen"])
            if type_packable(f.ty) and self.chance("packed"):
                f.packed = True
        d.fields.append(f)
        if f.arr is None and self.chance("constraint"):
            f.constraint = self.constraint(typed(E("fld", len(d.fields) - 1, f), f.ty), refs)
        return f

    def gen_union(self):
        d = Union(self.tname())
        self.gen_params(d)
        refs = self.param_refs(d)
        for _ in range(self.t.int(1, 4)):
            self.member(d, refs)
        self.gen_funcs(d, refs)
        return d

    def gen_choice(self):
        t = self.t
        d = Choice(self.tname())
        k = t.weighted([(4, "int"), (2, "bool"), (4 if self.enums else 0, "enum"), (1 if self.masks else 0, "mask")])
        if k == "int":
            ty = self.int_type()
        elif k == "bool":
            ty = BOOL
        elif k == "enum":
            ty = ref(t.pick(self.enums))
        else:
            ty = ref(t.pick(self.masks))
        self.gen_params(d)
        d.params.insert(0, Param(self.fname(), ty))
        refs = self.param_refs(d)
        sel = refs[0].e
        d.selector = sel
        if k == "int":
            vals = []
            for _ in range(t.int(1, 4)):
                v = self.int_value(ty.lo, ty.hi) if t.chance(40) else min(max(t.int(0, 6), ty.lo), ty.hi)
                if v not in vals:
                    vals.append(v)
            labels = [ilit(v) for v in vals]
            for c in self.consts:
                # constants as labels, whose type can be wider than the selector's
                if c.ty.base().kind in ("int", "var") and ty.lo <= c.value <= ty.hi and c.value not in vals and t.chance(35):
                    vals.append(c.value); labels.append(self.const_ref(c))
            total = False
            if ty.lo == 0 and ty.hi <= 3 and len(vals) == ty.hi + 1:
                total = True
        elif k == "bool":
            vals = t.shuffle([False, True])
            if t.chance(20):
                vals = vals[:1]
            labels = [lit(v) for v in vals]
            total = len(vals) == 2
        elif k == "enum":
            live = [i for i, it in enumerate(ty.decl.items) if it.flag != "removed"]
            ids = t.shuffle(live)[:t.int(1, len(live))]
            labels = [E("item", ty.decl, i, True) for i in ids]
            total = len(ids) == len(ty.decl.items)
        else:
            ids = t.shuffle(list(range(len(ty.decl.items))))[:t.int(1, len(ty.decl.items))]
            labels = [E("item", ty.decl, i, True) for i in ids]
            total = False
        i = 0
        while i < len(labels):
            n = 2 if t.chance(25) else 1
            ls = labels[i:i + n]; i += n
            if t.chance(15):
                d.cases.append((ls, None))
            else:
                self.member(d, refs)
                d.cases.append((ls, len(d.fields) - 1))
        if not total and not (self.chance("partial_choice")):
            if t.chance(30):
                d.default = ("empty",)
            else:
                self.member(d, refs)
                d.default = ("field", len(d.fields) - 1)
        if not d.fields:
            self.member(d, refs)
            d.cases[0] = (d.cases[0][0], 0)
        self.gen_funcs(d, refs)
        return d

    def gen_funcs(self, d, refs):
        t = self.t
        while self.chance("function") and len(d.funcs) < 3:
            for _ in range(3):
                k = t.raw(4)
                if k < 2:
                    e = self.int_expr(refs, self.p["exprdepth"])
                    tys = [x for x in (fixed(32, True), fixed(64, True), fixed(64, False), fixed(16, False), fixed(8, True),
                                       bitf(5, False)) if x.lo <= e.lo and e.hi <= x.hi]
                    if not tys:
                        continue
                    ret = t.pick(tys)
                elif k == 2:
                    e = self.bool_expr(refs, self.p["exprdepth"]); ret = BOOL
                else:
                    c = [r for r in refs if r.e.t in ("enum", "mask", "string")]
                    if not c:
                        continue
                    r = t.pick(c)
                    e, ret = r.e, (STRING if r.e.t == "string" else ref(r.e.d))
                d.funcs.append(Func(self.fname(), ret, e))
                break

    def finish_extended(self):
        """adds extended fields to structs nobody else uses"""
        used = set()
        for d in self.compounds:
            for f in d.fields:
                b = f.ty.base()
                if b.kind == "ref":
                    used.add(id(b.decl))
            for q in d.params:
                b = q.ty.base()
                if b.kind == "ref":
                    used.add(id(b.decl))
        for s in self.subs:
            b = s.ty.base()
            if b.kind == "ref":
                used.add(id(b.decl))
        for d in self.compounds:
            if isinstance(d, Struct) and id(d) not in used and not getattr(d, "noinner", False) and self.chance("extended"):
                self.pkg = d.pkg
                # own package only: everything visible from there
                vis = self.pkgs[:self.pkgs.index(d.pkg) + 1]
                refs = self.param_refs(d)
                n = self.t.int(1, 3)
                save = (self.enums, self.masks, self.subs, self.compounds, self.consts)
                self.enums = [x for x in self.enums if x.pkg in vis]
                self.masks = [x for x in self.masks if x.pkg in vis]
                self.consts = [x for x in self.consts if x.pkg in vis]
                self.subs = [x for x in self.subs if x.pkg in vis]
                # only types declared before (keeps the order of declarations free of cycles)
                pos = self.s.order.index(d)
                self.compounds = [x for x in self.compounds if x.pkg in vis and self.s.order.index(x) < pos]
                self.subs = [x for x in self.subs if self.s.order.index(x) < pos]
                for _ in range(n):
                    f = self.gen_field(d, refs)
                    f.extended = True
                self.enums, self.masks, self.subs, self.compounds, self.consts = save
                d.noinner = True
                d.has_ext = True

    def pick_roots(self):
        for d in self.compounds:
            if all(not is_compound(q.ty.base()) for q in d.params):
                if self.uses_open_offset(d):
                    pass
                self.s.roots.append(d)

    def uses_open_offset(self, d):
        return False

    # ---------------------------------------------------------------- values
    def int_value(self, lo, hi):
        return int_value(self.t, lo, hi)

    def string_value(self, n, plain=False):
        return string_value(self.t, n, plain)


def int_value(t, lo, hi):
    k = t.raw(8)
    if k <= 1:
        v = t.int(0, 9)
    elif k == 2:
        v = hi - t.int(0, 2)
    elif k == 3:
        v = lo + t.int(0, 2)
    elif k == 4:
        v = 1 << t.int(0, max(hi.bit_length() - 1, 0))
        v += t.int(-1, 1)
    elif k == 5:
        v = -t.int(0, 9)
    else:
        n = (hi - lo).bit_length()
        v = lo + t.bits(n) % (hi - lo + 1)
    return min(max(v, lo), hi)


UNI = ["é", "ß", "漢", "😀", "\u0000", "\n", "\"", "\\", "'", "\u007f", "\u2028", "\ufffd", "Ω"]


def string_value(t, n, plain=False):
    k = t.int(0, n)
    s = ""
    for _ in range(k):
        if plain or not t.chance(15):
            s += chr(t.int(97, 122)) if t.chance(70) else t.pick([" ", "A", "Z", "0", "9", "_", "-", "%", "{", "/"])
        else:
            s += t.pick(UNI)
    return s


ESCAPED = [("\n", "\\n"), ("\t", "\\t"), ("\"", "\\\""), ("\\", "\\\\"), ("\r", "\\r"), ("A", "\\x41"), ("\x07", "\\x07"), ("\"", "\\x22"), ("\\", "\\x5c"), ("\n", "\\x0a"),
           ("\u00e9", "\\u00e9"), ("b", "\\u0062"), ("\u6f22", "\\u6F22"), ("\"", "\\u0022"), ("\n", "\\u000A"), ("\x7f", "\\x7F"), ("\u00e9", "\u00e9"), ("\u6f22", "\u6f22"), ("'", "'"), ("$", "$"), ("\u2028", "\\u2028")]


def string_lit(t, n):
    """a string literal: its value, and its text with escape sequences"""
    v = string_value(t, n, plain=True)
    x = v
    if t.chance(30):
        v = x = ""
        for _ in range(t.int(1, n)):
            a, b = t.pick(ESCAPED) if t.chance(40) else (t.pick("abf019 xu"),) * 2
            v += a; x += b
    return E("lit", v, '"%s"' % x, t="string")


FLOAT_POOL = [0.0, 1.0, -1.0, 0.5, -0.0, 2.5, 1e-3, 65504.0, float("inf"), float("-inf"), 2.0 ** -24, -2.0 ** -14, 3.14159]


def float_value(t, bits, nan=False):
    if t.chance(60):
        v = t.pick(FLOAT_POOL)
        v = bits_f(fbits(v, bits), bits)
    else:
        v = bits_f(t.bits(bits), bits)
    if v != v:
        return float("nan") if nan else 1.0
    return v


class ValueGen:
    """valid values of root types"""
    prefer_default = 0      # % of fields with a default that get it

    def __init__(self, tape, profile=None, nan=False, small=False):
        self.t = tape
        self.p = dict(DEFAULT_PROFILE)
        if profile:
            assert set(profile) <= set(DEFAULT_PROFILE), set(profile) - set(DEFAULT_PROFILE)
            self.p.update(profile)
        self.nan = nan
        self.budget = 400
        self.depth = 0

    def root(self, d):
        """SObj/CObj of a root type, with offsets assigned for position 0"""
        for _ in range(12):
            try:
                self.budget = 400
                self.depth = 0
                params = [self.leaf_simple(q.ty) for q in d.params]
                o = self.compound(d, params)
                check_offsets(o)
                return o
            except (GenFail, Trap):
                continue
        raise GenFail()

    def leaf_simple(self, ty, width=None):
        t = self.t
        b = ty.base()
        k = b.kind
        if k in ("int", "var"):
            return int_value(t, b.lo, b.hi)
        if k == "dyn":
            n, s = width
            return int_value(t, -(1 << n - 1), (1 << n - 1) - 1) if s else int_value(t, 0, (1 << n) - 1)
        if k == "bool":
            return t.chance(50)
        if k == "float":
            return float_value(t, b.bits, self.nan)
        if k == "string":
            return string_value(t, 12)
        if k == "bytes":
            return t.bytes(t.int(0, 9))
        if k == "extern":
            n = t.int(0, 40)
            v = t.bits(n)
            return (n, (v << (-n % 8)).to_bytes((n + 7) // 8, "big"))
        d = b.decl
        if isinstance(d, Enum):
            return t.pick(d.live()).value
        if isinstance(d, Bitmask):
            v = 0
            for it in d.items:
                if t.chance(50):
                    v |= it.value
            return v
        raise AssertionError(k)

    def leaf(self, ty, env):
        b = ty.base()
        if is_compound(b):
            params = [env.eval(a) for a in use_args(ty)]
            return self.compound(b.decl, params)
        self.budget -= 1
        return self.leaf_simple(ty, int_bits(b, env) if b.kind == "dyn" else None)

    def array(self, d, o, f):
        t = self.t
        env = Env(o)
        if isinstance(f.arr, E):
            n = env.eval(f.arr)
            if n < 0:
                raise GenFail()
        elif hasattr(f, "aligned_with"):
            n = Env(o).eval(f.aligned_with.arr)
            if t.chance(10):
                n += 1
        else:
            n = t.int(0, self.p["maxlen"])
            if t.chance(self.p["bigarray"]) and self.budget > 200:
                n = t.int(0, 60)
        if self.budget < 0 and not isinstance(f.arr, E) and not hasattr(f, "aligned_with"):
            n = 0
        if f.recursive and self.depth > 3:
            n = 0
        elif f.recursive:
            n = min(n, 2)
        if n > 400:
            raise GenFail()
        b = f.ty.base()
        if b.kind in ("int", "var") and n > 1 and not f.used_as_offset:
            return self.int_seq(b, n)
        return [self.leaf(f.ty, Env(o, i)) for i in range(n)]

    def int_seq(self, b, n):
        t = self.t
        self.budget -= n
        k = t.raw(6)
        if k == 5:      # jumps around a power of two next to one end of the range
            j = t.int(0, (b.hi - b.lo).bit_length())
            a, sg = t.pick([(b.hi, -1), (b.lo, 1), (max(b.lo, 0), 1), (int_value(t, b.lo, b.hi), 1)])
            c = [a] + [min(max(a + sg * x, b.lo), b.hi) for x in (1 << j, (1 << j) - 1, 1)]
            return [c[i & 1] if j & 1 else t.pick(c) for i in range(n)]
        cur = int_value(t, b.lo, b.hi)
        if k == 0:
            return [int_value(t, b.lo, b.hi) for _ in range(n)]
        out = []
        step = t.pick([0, 1, 2, 7, 100, 1 << 20, 1 << 40, 1 << 62, 1 << 63])
        for i in range(n):
            out.append(min(max(cur, b.lo), b.hi))
            if k == 1:
                pass
            elif k == 2:
                cur = out[-1] + step
            elif k == 3:
                cur = out[-1] + t.int(-3, 3)
            else:
                cur = t.pick([b.lo, b.hi, cur])
        return out

    def field(self, d, o, i, f, put):
        env = Env(o)
        if f.arr is not None:
            put(self.array(d, o, f))
            return
        if f.used_as_offset:
            put(0)
            return
        if f.default is not None and self.prefer_default and self.t.chance(self.prefer_default):
            put(f.default_value)
            if f.constraint is None or env.eval(f.constraint):
                return
        for k in range(12):
            put(self.leaf(f.ty, env))
            if f.constraint is None or env.eval(f.constraint):
                return
        # candidates
        b = f.ty.base()
        if b.kind in ("int", "var"):
            for v in [b.lo, b.hi, 0, 2, 3, 50] + [x for x in o_vals(o) if isinstance(x, int)]:
                if b.lo <= v <= b.hi:
                    put(v)
                    if env.eval(f.constraint):
                        return
        if b.kind == "ref" and isinstance(b.decl, Bitmask):
            v = 0
            for it in b.decl.items:
                v |= it.value
            put(v)
            if env.eval(f.constraint):
                return
        raise GenFail()

    def compound(self, d, params):
        t = self.t
        self.depth += 1
        try:
            if self.depth > 12:
                raise GenFail()
            if isinstance(d, Struct):
                o = SObj(d, params, [None] * len(d.fields))
                env = Env(o)
                for i, f in enumerate(d.fields):
                    if f.opt is True:
                        if not t.chance(60) or (f.recursive and self.depth > 3):
                            continue
                    elif f.opt is not None:
                        if not env.eval(f.opt):
                            continue
                        if f.recursive and self.depth > 6:
                            raise GenFail()
                    def put(v):
                        o.vals[i] = v
                    self.field(d, o, i, f, put)
                return o
            o = CObj(d, params, None, None)
            if isinstance(d, Union):
                o.idx = t.raw(len(d.fields))
            else:
                idx = d.select(Env(o))
                if idx == -1:
                    raise GenFail()
                o.idx = idx
            if o.idx is not None:
                def put(v):
                    o.val = v
                self.field(d, o, o.idx, d.fields[o.idx], put)
            return o
        finally:
            self.depth -= 1


def o_vals(o):
    return o.vals if isinstance(o, SObj) else [o.val]


def check_offsets(o):
    """offsets must fit into their fields"""
    if not has_offsets(o.d):
        return
    e = Encoder(64, assign=True)
    e.compound(o)
    def walk(x):
        if isinstance(x, SObj):
            for f, v in zip(x.d.fields, x.vals):
                if f.used_as_offset:
                    for z in (v if isinstance(v, list) else [v]):
                        if z is not None and z > f.ty.base().hi:
                            raise GenFail()
                elif isinstance(v, (SObj, CObj)):
                    walk(v)
                elif isinstance(v, list):
                    for z in v:
                        walk(z)
        elif isinstance(x, CObj) and isinstance(x.val, (SObj, CObj, list)):
            for z in (x.val if isinstance(x.val, list) else [x.val]):
                walk(z)
    walk(o)
