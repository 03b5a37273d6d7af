"""Reference JSON document of a value object, comparison with exported text, rendering in other styles."""
import json, struct, re
from .model import *
from .refcodec import is_compound, underlying

NUMRE = re.compile(r"-?(0|[1-9]\d*)(\.\d+)?([eE][+-]?\d+)?\Z", re.A)


class Num(str):
    pass


class Open(Exception):
    """the guide does not say what such a value looks like"""


def doc(o):
    """tree: ("obj", [[key, node]...], struct decl or None) ("arr", [...]) ("int", v, ty, field) ("flt", v, bits) ("bool", v) ("str", s)
    ("enum", decl, v) ("mask", decl, v) ("null",)"""
    def leaf(ty, v, f):
        b = ty.base()
        if is_compound(b):
            return comp(v)
        k = b.kind
        if k == "ref":
            return ("enum" if isinstance(b.decl, Enum) else "mask", b.decl, int(v))
        if k == "float":
            return ("flt", v, b.bits)
        if k == "bool":
            return ("bool", bool(v))
        if k == "string":
            return ("str", v)
        if k == "bytes":
            return ("obj", [["buffer", ("arr", [("int", x, None) for x in v], None)]], "bytes")
        if k == "extern":
            n, d = v
            return ("obj", [["buffer", ("arr", [("int", x, None) for x in d[:(n + 7) // 8]], n)], ["bitSize", ("int", n, None)]], "extern")
        return ("int", int(v), b)

    def val(f, v):
        if f.arr is not None:
            return ("arr", [leaf(f.ty, x, f) for x in v], f)
        return leaf(f.ty, v, f)

    def comp(o):
        m = []
        if isinstance(o, SObj):
            nx = sum(1 for f in o.d.fields if f.extended)
            if o.ext is not None and o.ext < nx:
                raise Open
            for f, v in zip(o.d.fields, o.vals):
                m.append([f.name, ("null", f.default is None) if v is None else val(f, v)])
        elif o.idx is not None:
            f = o.d.fields[o.idx]
            m.append([f.name, val(f, o.val)])
        return ("obj", m, o.d)
    return comp(o)


def mask_text(d, v):
    """(names that match, exact)"""
    names = []; chk = 0
    for it in d.items:
        x = int(it.value)
        if (x != 0 and v & x == x) or (x == 0 and v == 0):
            names.append(it.name); chk |= x
    return names, bool(names) and chk == v


def rnd(v, bits):
    if bits == 64:
        return v
    try:
        return struct.unpack(">f", struct.pack(">f", v))[0] if bits == 32 else struct.unpack(">e", struct.pack(">e", v))[0]
    except OverflowError:
        return None


class Mismatch(Exception):
    pass


def parse(text):
    def const(x):
        return ("const", x)
    return json.loads(text, object_pairs_hook=lambda p: ("obj", p), parse_int=lambda s: ("num", s), parse_float=lambda s: ("num", s),
                      parse_constant=const)


def compare(n, g, numeric, exactf, path="$"):
    def bad(why):
        raise Mismatch("%s: expected %s, got %s" % (path, why, str(g)[:200]))
    k = n[0]
    if k == "obj":
        if not (isinstance(g, tuple) and g[0] == "obj"):
            bad("an object")
        if [x[0] for x in g[1]] != [x[0] for x in n[1]]:
            bad("members %s" % [x[0] for x in n[1]])
        for (key, c), (_, gc) in zip(n[1], g[1]):
            compare(c, gc, numeric, exactf, path + "." + key)
    elif k == "arr":
        if not isinstance(g, list) or len(g) != len(n[1]):
            bad("an array of %d" % len(n[1]))
        for i, (c, gc) in enumerate(zip(n[1], g)):
            if isinstance(n[2], int) and i == len(n[1]) - 1 and n[2] % 8:
                # unused bits of the last byte are open
                if not (isinstance(gc, tuple) and gc[0] == "num" and gc[1].isdigit() and int(gc[1]) < 256
                        and int(gc[1]) >> 8 - n[2] % 8 == c[1] >> 8 - n[2] % 8):
                    bad("byte %d" % c[1])
                continue
            compare(c, gc, numeric, exactf, "%s[%d]" % (path, i))
    elif k == "int":
        if not (isinstance(g, tuple) and g[0] == "num" and g[1] == str(n[1])):
            bad(n[1])
    elif k == "flt":
        if n[1] != n[1]:
            if g != ("const", "NaN"):
                bad("NaN")
        elif n[1] in (float("inf"), float("-inf")):
            if g != ("const", "Infinity" if n[1] > 0 else "-Infinity"):
                bad(n[1])
        else:
            if not (isinstance(g, tuple) and g[0] == "num"):
                bad(n[1])
            v = float(g[1])
            if not exactf:
                v = rnd(v, n[2])
            if v is None or struct.pack(">d", v) != struct.pack(">d", n[1]):
                bad(repr(n[1]))
    elif k == "bool":
        if g is not n[1]:
            bad(n[1])
    elif k == "str":
        if g != n[1] or not isinstance(g, str):
            bad(ascii(n[1]))
    elif k == "null":
        if g is not None:
            bad("null")
    elif numeric:
        if g != ("num", str(n[2])):
            bad(n[2])
    elif k == "enum":
        w = next(it.name for it in n[1].items if int(it.value) == n[2])
        if g != w or not isinstance(g, str):
            bad(w)
    elif k == "mask":
        names, exact = mask_text(n[1], n[2])
        if not isinstance(g, str):
            bad("a string")
        if exact:
            ok = g == " | ".join(names)
        elif names:
            ok = g.startswith("%d /*" % n[2]) and g.endswith("*/") and (" | ".join(names) + " ") in g
        else:
            ok = g == "%d /* no match */" % n[2]
        if not ok:
            bad("%s %s of %d" % (names, exact, n[2]))


# ---------------------------------------------------------------- rendering

def qstr(t, s):
    o = ['"']
    for c in s:
        v = ord(c)
        if c in '"\\':
            o.append("\\" + c)
        elif v < 0x20:
            short = {8: "\\b", 12: "\\f", 10: "\\n", 13: "\\r", 9: "\\t"}
            o.append(short[v] if v in short and t.raw(3) else t.pick(["\\u%04x", "\\u%04X"]) % v)
        elif v < 0x100 and t.raw(20) == 0:
            o.append(t.pick(["\\u%04x", "\\u%04X"]) % v)
        else:
            o.append(c)
    return "".join(o) + '"'


def fnum(t, v, bits):
    if v != v:
        return "NaN"
    if v in (float("inf"), float("-inf")):
        return "Infinity" if v > 0 else "-Infinity"
    s = repr(v)
    k = t.raw(4)
    if k == 0 and "e" not in s:
        return s + "0" * t.int(1, 5)
    if k == 1:
        s = "%.17e" % v
        return s.replace("e", t.pick("eE"))
    if k == 2 and v == int(v) and abs(v) < 1e15:
        return "%d.0e0" % int(v) if v or str(v)[0] != "-" else "-0.0e0"
    return s


def ordered(d):
    """members of such objects have to keep their order: arguments of types may depend on earlier fields"""
    return not isinstance(d, Struct) or any(f.ty.base().kind == "ref" and f.ty.base().decl.__class__ in (Struct, Choice, Union)
                                            and f.ty.base().decl.params for f in d.fields)


def render(n, t, opts):
    """opts: set of 'ws', 'shuffle', 'drop', 'numenum'"""
    def ws():
        return "".join(t.pick(" \t\n\r") for _ in range(t.raw(4))) if "ws" in opts and t.raw(3) == 0 else ""

    def go(n):
        return ws() + body(n) + ws()

    def body(n):
        k = n[0]
        if k == "obj":
            ms = [m for m in n[1] if not ("drop" in opts and m[1][0] == "null" and m[1][1] and t.raw(2))]
            if "shuffle" in opts and (n[2] == "extern" or (not isinstance(n[2], str) and not ordered(n[2]))):
                ms = t.shuffled(ms)
            return "{" + (",".join(ws() + qstr(t, key) + ws() + ":" + go(c) for key, c in ms) or ws()) + "}"
        if k == "arr":
            return "[" + (",".join(go(c) for c in n[1]) or ws()) + "]"
        if k == "int":
            return str(n[1])
        if k == "flt":
            return fnum(t, n[1], n[2])
        if k == "bool":
            return "true" if n[1] else "false"
        if k == "null":
            return "null"
        if k == "str":
            return qstr(t, n[1])
        if "numenum" in opts and t.raw(2):
            return str(n[2])
        if k == "enum":
            return qstr(t, next(it.name for it in n[1].items if int(it.value) == n[2]))
        names, exact = mask_text(n[1], n[2])
        if not exact or t.raw(8) == 0:
            return '"%d%s"' % (n[2], t.pick(["", " /* no match */", " /* partial match: A | B */"]))
        return qstr(t, " | ".join(t.shuffled(names) if t.raw(2) else names))
    return go(n)


def raw(n, opts=()):
    return n


def leaves(n, out=None, path=()):
    """paths of all nodes"""
    out = [] if out is None else out
    out.append((path, n))
    if n[0] == "obj":
        for i, m in enumerate(n[1]):
            leaves(m[1], out, path + (i,))
    elif n[0] == "arr":
        for i, c in enumerate(n[1]):
            leaves(c, out, path + (i,))
    return out


def replace(n, path, new):
    if not path:
        return new
    i = path[0]
    if n[0] == "obj":
        ms = [list(m) for m in n[1]]
        ms[i][1] = replace(ms[i][1], path[1:], new)
        return ("obj", ms, n[2])
    cs = list(n[1])
    cs[i] = replace(cs[i], path[1:], new)
    return ("arr", cs, n[2])


def wrong(t, n):
    """a node which does not fit where n is; None if there is none. The type of n decides."""
    k = n[0]
    pool = {"obj": [("int", 1, None), ("str", "x"), ("bool", True), ("arr", [], None)],
            "arr": [("int", 1, None), ("str", "x"), ("bool", False), ("obj", [], "x"), ("flt", 1.5, 64)],
            "int": [("str", "7"), ("bool", True), ("obj", [], "x"), ("arr", [], None), ("flt", 1.5, 64), ("str", "abc")],
            "flt": [("str", "abc"), ("bool", True), ("obj", [], "x"), ("arr", [], None)],
            "bool": [("int", 1, None), ("str", "true"), ("obj", [], "x"), ("arr", [], None)],
            "str": [("int", 1, None), ("bool", True), ("obj", [], "x"), ("arr", [], None), ("flt", 1.5, 64)],
            "enum": [("bool", True), ("obj", [], "x"), ("arr", [], None), ("flt", 1.5, 64), ("str", "noSuchItem"), ("str", "")],
            "mask": [("bool", True), ("obj", [], "x"), ("arr", [], None), ("flt", 1.5, 64), ("str", "noSuchItem")]}.get(k)
    if pool is None:
        return None
    if k == "int":
        ty = n[2]
        if ty is None:
            if t.raw(2):
                return ("int", t.pick([-1, 256, 1 << 16, 1 << 32, 1 << 64, 256 + n[1]]), None)
        elif ty.kind != "dyn" and t.raw(3):
            lo, hi = underlying(ty).lo, underlying(ty).hi
            w = hi - lo + 1
            return ("int", t.pick([hi + 1, lo - 1, n[1] + w, n[1] - w, n[1] + (1 << 64), n[1] - (1 << 64), hi + (1 << 32), lo - (1 << 32), 10 ** 25]), None)
    if k == "enum" and t.raw(3) == 0:
        vals = {int(it.value) for it in n[1].items}
        u = underlying(n[1].ty.base())
        c = [x for x in (u.lo, u.hi, u.hi + 1, u.lo - 1, n[2] + u.hi - u.lo + 1, n[2] + 1, n[2] + 2) if x not in vals]
        if c:
            v = t.pick(c)
            return t.pick([("int", v, None), ("str", str(v))])
    if k == "mask" and t.raw(3) == 0:
        u = underlying(n[1].ty.base())
        v = t.pick([u.hi + 1, -1, n[2] + u.hi + 1, 1 << 64])
        if not isinstance(u.lo, int):
            return None
        return t.pick([("int", v, None), ("str", str(v))])
    return t.pick(pool)
