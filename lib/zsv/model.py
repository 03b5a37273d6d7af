"""Schema model: types, declarations, expressions (with a reference evaluator) and the renderer to zserio text."""
import struct as _struct

VAR = {  # name: (signed, value bits per byte position, lo, hi)
    "varint16": (True, [6, 8], -(2**14 - 1), 2**14 - 1),
    "varint32": (True, [6, 7, 7, 8], -(2**28 - 1), 2**28 - 1),
    "varint64": (True, [6] + [7] * 6 + [8], -(2**56 - 1), 2**56 - 1),
    "varint": (True, [6] + [7] * 7 + [8], -(2**63), 2**63 - 1),
    "varuint16": (False, [7, 8], 0, 2**15 - 1),
    "varuint32": (False, [7, 7, 7, 8], 0, 2**29 - 1),
    "varuint64": (False, [7] * 7 + [8], 0, 2**57 - 1),
    "varuint": (False, [7] * 8 + [8], 0, 2**64 - 1),
    "varsize": (False, [7, 7, 7, 7, 8], 0, 2**31 - 1),
}
FLOATS = {"float16": 16, "float32": 32, "float64": 64}


class Ty:
    __slots__ = ("kind", "name", "bits", "signed", "expr", "decl", "args", "lo", "hi")

    def __init__(self, kind, name=None, bits=None, signed=False, expr=None, decl=None, args=()):
        self.kind = kind; self.name = name; self.bits = bits; self.signed = signed
        self.expr = expr; self.decl = decl; self.args = list(args)
        if kind == "int":
            self.lo, self.hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
        elif kind == "var":
            self.signed, _, self.lo, self.hi = VAR[name]
        elif kind == "dyn":
            self.lo, self.hi = (-(1 << 63), (1 << 63) - 1) if signed else (0, (1 << 64) - 1)
        else:
            self.lo = self.hi = None

    def base(self):
        """resolves subtypes (a subtype's arguments come from the use)"""
        t = self
        while t.kind == "ref" and isinstance(t.decl, Subtype):
            t = t.decl.ty
        return t

    def text(self, pkg=None, r=None):
        if self.kind == "int":
            return self.name
        if self.kind == "dyn":
            return "%s<%s>" % ("int" if self.signed else "bit", r.expr(self.expr))
        if self.kind in ("var", "bool", "string", "extern", "bytes", "float"):
            return self.name
        s = r.typename(self.decl)
        if self.args:
            s += "(" + ", ".join(r.expr(a) for a in self.args) + ")"
        return s


def fixed(bits, signed):
    if bits in (8, 16, 32, 64):
        return Ty("int", ("int%d" if signed else "uint%d") % bits, bits, signed)
    return bitf(bits, signed)


def bitf(bits, signed):
    return Ty("int", ("int:%d" if signed else "bit:%d") % bits, bits, signed)


def var(name):
    return Ty("var", name)


BOOL = Ty("bool", "bool"); STRING = Ty("string", "string"); EXTERN = Ty("extern", "extern"); BYTES = Ty("bytes", "bytes")
F16 = Ty("float", "float16", 16); F32 = Ty("float", "float32", 32); F64 = Ty("float", "float64", 64)


def ref(decl, args=()):
    return Ty("ref", None, decl=decl, args=args)


# ---------------------------------------------------------------- declarations

class Decl:
    pkg = None
    doc = None


class Const(Decl):
    def __init__(self, name, ty, expr, value):
        self.name = name; self.ty = ty; self.expr = expr; self.value = value


class Subtype(Decl):
    def __init__(self, name, ty):
        self.name = name; self.ty = ty


class Item:
    def __init__(self, name, value, expr=None, flag=None):
        self.name = name; self.value = value; self.expr = expr; self.flag = flag; self.doc = None  # flag: removed/deprecated


class Enum(Decl):
    def __init__(self, name, ty, items):
        self.name = name; self.ty = ty; self.items = items

    def live(self):
        return [i for i in self.items if i.flag != "removed"]


class Bitmask(Decl):
    def __init__(self, name, ty, items):
        self.name = name; self.ty = ty; self.items = items


class Param:
    def __init__(self, name, ty):
        self.name = name; self.ty = ty


class Func:
    def __init__(self, name, ret, expr):
        self.name = name; self.ret = ret; self.expr = expr


class Field:
    def __init__(self, name, ty, arr=None, packed=False, opt=None, extended=False, align=None, offset=None,
                 constraint=None, default=None, default_value=None):
        self.name = name; self.ty = ty
        self.arr = arr            # None | "auto" | "implicit" | E
        self.packed = packed; self.opt = opt  # None | True | E
        self.extended = extended; self.align = align
        self.offset = offset      # None | E path (may contain @index)
        self.constraint = constraint; self.default = default; self.default_value = default_value
        self.used_as_offset = False
        self.doc = None
        self.recursive = False

    @property
    def offset_indexed(self):
        return self.offset is not None and has_index(self.offset)


class Compound(Decl):
    def __init__(self, name, params=(), fields=(), funcs=()):
        self.name = name; self.params = list(params); self.fields = list(fields); self.funcs = list(funcs)
        self.template = None

    def packable(self):
        for f in self.fields:
            if f.ty.kind == "ref" and f.ty.base().decl is self:
                continue
            if field_packable(f):
                return True
        return False


class Struct(Compound):
    kind = "struct"


class Union(Compound):
    kind = "union"

    def packable(self):
        return bool(self.fields)


class Choice(Compound):
    kind = "choice"

    def __init__(self, name, params=(), fields=(), funcs=(), selector=None, cases=(), default=None):
        super().__init__(name, params, fields, funcs)
        self.selector = selector
        self.cases = list(cases)   # [(list of label E, field index | None)]
        self.default = default     # None (no default) | ("empty",) | ("field", index)

    def select(self, env):
        """index of the selected field, None for an empty case, -1 for no case"""
        v = env.eval(self.selector)
        for labels, idx in self.cases:
            for l in labels:
                if env.eval(l) == v:
                    return idx
        if self.default is None:
            return -1
        return self.default[1] if self.default[0] == "field" else None


def type_packable(t):
    b = t.base()
    if b.kind in ("int", "dyn", "var"):
        return True
    if b.kind == "ref":
        d = b.decl
        if isinstance(d, (Enum, Bitmask)):
            return True
        return d.packable()
    return False


def field_packable(f):
    if f.used_as_offset or f.arr == "implicit":
        return False
    return type_packable(f.ty)


class Schema:
    """decls in rendering order; pkgs: {pkg: [decl]}"""
    def __init__(self):
        self.pkgs = {}      # name -> list of decls
        self.order = []     # all decls in dependency order
        self.roots = []     # types whose values are exercised
        self.main = None
        self.imports = {}   # pkg -> list of import lines

    def add(self, decl, pkg):
        decl.pkg = pkg
        self.pkgs.setdefault(pkg, []).append(decl)
        self.order.append(decl)
        return decl


# ---------------------------------------------------------------- expressions

class Trap(Exception):
    """expression has no value (unset member, division by zero, ...)"""


class E:
    __slots__ = ("k", "a", "t", "lo", "hi", "d", "jt", "ct")

    def __init__(self, k, *a, t=None, lo=None, hi=None, d=None):
        self.k = k; self.a = a; self.t = t; self.lo = lo; self.hi = hi; self.d = d
        self.jt = self.ct = None


def lit(v, text=None):
    if isinstance(v, bool):
        return E("lit", v, text, t="bool")
    if isinstance(v, int):
        if v < 0 and text is None:
            return E("un", "-", E("lit", -v, None, t="int", lo=-v, hi=-v), t="int", lo=v, hi=v)
        return E("lit", v, text, t="int", lo=v, hi=v)
    if isinstance(v, float):
        return E("lit", v, text, t="float")
    return E("lit", v, text, t="string")


def has_index(e):
    if e.k == "index":
        return True
    return any(has_index(x) for x in e.a if isinstance(x, E))


class SObj:
    """value of a struct"""
    __slots__ = ("d", "params", "vals", "ext")

    def __init__(self, d, params, vals):
        self.d = d; self.params = params; self.vals = vals
        self.ext = None  # number of present extended fields (None = all)


class CObj:
    """value of a choice or union: idx = field index or None"""
    __slots__ = ("d", "params", "idx", "val")

    def __init__(self, d, params, idx, val):
        self.d = d; self.params = params; self.idx = idx; self.val = val


def cdiv(a, b):
    if b == 0:
        raise Trap("division by zero")
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b >= 0) else -q


def cmod(a, b):
    return a - b * cdiv(a, b)


def numbits(n):
    if n == 0:
        return 0
    if n == 1:
        return 1
    return (n - 1).bit_length()


class Env:
    __slots__ = ("obj", "index")

    def __init__(self, obj, index=None):
        self.obj = obj; self.index = index

    def eval(self, e):
        k = e.k; a = e.a
        if k == "lit":
            return a[0]
        if k == "fld":
            return self.getfield(self.obj, a[0])
        if k == "par":
            return self.obj.params[a[0]]
        if k == "dotf":
            return self.getfield(self.eval(a[0]), a[1])
        if k == "dotp":
            return self.eval(a[0]).params[a[1]]
        if k == "elem":
            arr = self.eval(a[0]); i = self.eval(a[1])
            if not 0 <= i < len(arr):
                raise Trap("index")
            return arr[i]
        if k == "index":
            return self.index
        if k == "fn":
            o = self.obj if a[0] is None else self.eval(a[0])
            return Env(o).eval(a[1].expr)
        if k == "const":
            return a[0].value
        if k == "item":
            return a[0].items[a[1]].value
        if k == "un":
            v = self.eval(a[1])
            op = a[0]
            if op == "-":
                return -v
            if op == "+":
                return v
            if op == "!":
                return not v
            if op == "~":
                if e.t == "mask":
                    return ~v & e.d.ty.base().hi
                return ~v
        if k == "bin":
            op = a[0]
            if op == "&&":
                return bool(self.eval(a[1])) and bool(self.eval(a[2]))
            if op == "||":
                return bool(self.eval(a[1])) or bool(self.eval(a[2]))
            x = self.eval(a[1]); y = self.eval(a[2])
            if op == "+":
                return x + y
            if op == "-":
                return x - y
            if op == "*":
                return x * y
            if op == "/":
                if isinstance(x, float) or isinstance(y, float):
                    if y == 0:
                        raise Trap("fdiv")
                    return x / y
                return cdiv(x, y)
            if op == "%":
                return cmod(x, y)
            if op == "<<":
                return x << y
            if op == ">>":
                return x >> y
            if op == "&":
                return x & y
            if op == "|":
                return x | y
            if op == "^":
                return x ^ y
            if op == "==":
                return x == y
            if op == "!=":
                return x != y
            if op == "<":
                return x < y
            if op == "<=":
                return x <= y
            if op == ">":
                return x > y
            if op == ">=":
                return x >= y
        if k == "tern":
            return self.eval(a[1]) if self.eval(a[0]) else self.eval(a[2])
        if k == "lengthof":
            v = self.eval(a[0])
            if isinstance(v, str):
                return len(v.encode("utf-8", "surrogatepass"))
            return len(v)
        if k == "valueof":
            return self.eval(a[0])
        if k == "numbits":
            return numbits(self.eval(a[0]))
        if k == "isset":
            m = self.eval(a[1])
            return (self.eval(a[0]) & m) == m
        if k == "paren":
            return self.eval(a[0])
        raise AssertionError(k)

    @staticmethod
    def getfield(o, i):
        if isinstance(o, CObj):
            if o.idx != i:
                raise Trap("inactive choice member")
            return o.val
        v = o.vals[i]
        if v is None:
            raise Trap("unset member")
        return v


PREC = {"||": 1, "&&": 2, "|": 3, "^": 4, "&": 5, "==": 6, "!=": 6, "<": 7, "<=": 7, ">": 7, ">=": 7,
        "<<": 8, ">>": 8, "+": 9, "-": 9, "*": 10, "/": 10, "%": 10}


class Renderer:
    def __init__(self, schema, pkg, qualify=lambda d: None):
        self.schema = schema; self.pkg = pkg; self.owner = None
        self.qualify = qualify

    def typename(self, d):
        q = self.qualify(d)
        return q if q else d.name

    def expr(self, e, prec=0):
        k = e.k; a = e.a
        if k == "lit":
            if a[1] is not None:
                return a[1]
            v = a[0]
            if isinstance(v, bool):
                return "true" if v else "false"
            if isinstance(v, int):
                return str(v)
            if isinstance(v, float):
                return repr(v)
            return strlit(v)
        if k == "paren":
            return "(" + self.expr(a[0]) + ")"
        if k == "fld":
            return a[1].name
        if k == "par":
            return a[1].name
        if k == "dotf" or k == "dotp":
            return self.expr(a[0], 20) + "." + a[2].name
        if k == "elem":
            return self.expr(a[0], 20) + "[" + self.expr(a[1]) + "]"
        if k == "index":
            return "@index"
        if k == "fn":
            return (self.expr(a[0], 20) + "." if a[0] is not None else "") + a[1].name + "()"
        if k == "const":
            return self.typename(a[0])
        if k == "item":
            short = len(a) > 2 and a[2]
            n = a[0].items[a[1]].name
            return n if short else self.typename(a[0]) + "." + n
        if k == "un":
            s = self.expr(a[1], 15)
            if a[0] in "+-" and s[:1] == a[0]:
                s = " " + s
            s = a[0] + s
            return "(" + s + ")" if prec > 15 else s
        if k == "bin":
            p = PREC[a[0]]
            s = self.expr(a[1], p) + " " + a[0] + " " + self.expr(a[2], p + 1)
            return "(" + s + ")" if prec > p else s
        if k == "tern":
            s = self.expr(a[0], 1) + " ? " + self.expr(a[1], 1) + " : " + self.expr(a[2], 0)
            return "(" + s + ")" if prec > 0 else s
        if k in ("lengthof", "valueof", "numbits"):
            return k + "(" + self.expr(a[0]) + ")"
        if k == "isset":
            return "isset(" + self.expr(a[0]) + ", " + self.expr(a[1]) + ")"
        raise AssertionError(k)

    # ------------------------------------------------------------ declarations

    def ty(self, t):
        return t.text(self.pkg, self)

    def field(self, f, choice=False):
        s = f.doc + "\n    " if f.doc and not choice else ""
        if f.align is not None:
            s += "align(%s): " % f.align
        if f.offset is not None:
            s += self.expr(f.offset) + ": "
        if f.extended:
            s += "extend "
        if f.opt is True:
            s += "optional "
        if f.packed:
            s += "packed "
        if f.arr == "implicit":
            s += "implicit "
        s += self.ty(f.ty) + " " + f.name
        if f.arr is not None:
            s += "[%s]" % (self.expr(f.arr) if isinstance(f.arr, E) else "")
        if f.default is not None:
            s += " = " + self.expr(f.default)
        if f.opt not in (None, True):
            s += " if " + self.expr(f.opt)
        if f.constraint is not None:
            s += " : " + self.expr(f.constraint)
        return s + ";"

    def decl(self, d):
        if d.doc:
            return d.doc + "\n" + self.decl1(d)
        return self.decl1(d)

    def decl1(self, d):
        out = []
        if hasattr(d, "text"):
            return d.text(self)
        if isinstance(d, Const):
            return "const %s %s = %s;\n" % (self.ty(d.ty), d.name, self.expr(d.expr))
        if isinstance(d, Subtype):
            return "subtype %s %s;\n" % (self.ty(d.ty), d.name)
        if isinstance(d, (Enum, Bitmask)):
            out.append("%s %s %s" % ("enum" if isinstance(d, Enum) else "bitmask", self.ty(d.ty), d.name))
            out.append("{")
            out.append(",\n".join("    " + (i.doc + "\n    " if i.doc else "") + (("@" + i.flag + " ") if i.flag else "") + i.name +
                                  (" = " + self.expr(i.expr) if i.expr is not None else "") for i in d.items))
            out.append("};\n")
            return "\n".join(out)
        if getattr(d, "rawtext", None):
            return d.rawtext
        params = ""
        if d.params:
            params = "(" + ", ".join(self.ty(p.ty) + " " + p.name for p in d.params) + ")"
        targs = getattr(d, "targs", "")
        if isinstance(d, Choice):
            out.append("choice %s%s%s on %s" % (d.name, targs, params, self.expr(d.selector)))
        else:
            out.append("%s %s%s%s" % (d.kind, d.name, targs, params))
        out.append("{")
        if isinstance(d, Choice):
            for labels, idx in d.cases:
                s = "    " + " ".join("case %s:" % self.expr(l) for l in labels)
                out.append(s + (" " + self.field(d.fields[idx], True) if idx is not None else " ;"))
            if d.default is not None:
                out.append("    default:" + (" " + self.field(d.fields[d.default[1]], True) if d.default[0] == "field" else " ;"))
        else:
            for f in d.fields:
                out.append("    " + self.field(f))
        for fn in d.funcs:
            out.append("    function %s %s()\n    {\n        return %s;\n    }" % (self.ty(fn.ret), fn.name, self.expr(fn.expr)))
        out.append("};\n")
        return "\n".join(out)


def strlit(s):
    r = '"'
    for c in s:
        if c in '"\\':
            r += "\\" + c
        elif 32 <= ord(c) < 127:
            r += c
        elif ord(c) < 0x10000:
            r += "\\u%04x" % ord(c)
        else:
            r += c
    return r + '"'


def render(schema):
    """{relative file name: text}"""
    files = {}
    for pkg, decls in schema.pkgs.items():
        r = Renderer(schema, pkg)
        out = ["package %s;\n" % pkg]
        for line in schema.imports.get(pkg, []):
            out.append(line)
        for d in decls:
            out.append(r.decl(d))
        files[pkg.replace(".", "/") + ".zs"] = "\n".join(out)
    return files


# ---------------------------------------------------------------- floats

def f64bits(x):
    return _struct.unpack(">Q", _struct.pack(">d", x))[0]


def bits_f64(b):
    return _struct.unpack(">d", _struct.pack(">Q", b))[0]


def f32bits(x):
    if x != x:
        return 0x7fc00000
    try:
        return _struct.unpack(">I", _struct.pack(">f", x))[0]
    except OverflowError:
        return 0x7f800000 | (0x80000000 if x < 0 else 0)


def bits_f32(b):
    return _struct.unpack(">f", _struct.pack(">I", b))[0]


def f16bits(x):
    """nearest half, ties to even, of a double that is exactly a float32 (or float16)"""
    if x != x:
        return 0x7e00
    try:
        return _struct.unpack(">H", _struct.pack(">e", x))[0]
    except OverflowError:
        return 0x7c00 | (0x8000 if x < 0 else 0)


def bits_f16(b):
    return _struct.unpack(">e", _struct.pack(">H", b))[0]


def fbits(x, n):
    return f16bits(x) if n == 16 else f32bits(x) if n == 32 else f64bits(x)


def bits_f(b, n):
    return bits_f16(b) if n == 16 else bits_f32(b) if n == 32 else bits_f64(b)
