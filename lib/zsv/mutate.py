"""Changes single places of value objects."""
from . import refcodec
from .model import *
from .refcodec import is_compound, underlying


def slots(o):
    """[(get, set, kind, type, field, owner)] of everything that can be changed"""
    out = []
    seen = set()

    def leafslot(c, k, ty, f, own):
        b = ty.base()
        if is_compound(b):
            x = c[k]
            for i, q in enumerate(x.d.params):
                if not is_compound(q.ty.base()):
                    out.append((x.params, i, "param", q.ty, f, own))
            comp(x)
        else:
            out.append((c, k, "leaf", ty, f, own))

    def val(c, k, f, own):
        if f.arr is not None:
            out.append((c, k, "array", f.ty, f, own))
            for i in range(len(c[k])):
                leafslot(c[k], i, f.ty, f, own)
        else:
            leafslot(c, k, f.ty, f, own)

    class VC:                              # makes CObj.val indexable
        def __init__(self, o):
            self.o = o

        def __getitem__(self, k):
            return self.o.val

        def __setitem__(self, k, v):
            self.o.val = v

    def comp(x):
        if id(x) in seen:
            return
        seen.add(id(x))
        if isinstance(x, SObj):
            for i, f in enumerate(x.d.fields):
                if x.vals[i] is not None and not f.used_as_offset:
                    val(x.vals, i, f, x)
        elif x.idx is not None:
            f = x.d.fields[x.idx]
            if isinstance(x.d, Union):
                out.append((x, None, "tag", None, f, x))
            if not f.used_as_offset:
                val(VC(x), 0, f, x)
    comp(o)
    return out


def new_value(t, ty, v, env):
    b = ty.base()
    u = underlying(b)
    if b.kind == "ref" and isinstance(b.decl, Enum):
        return t.pick(b.decl.items).value
    if u.kind == "bool":
        return not v
    if u.kind in ("int", "var", "dyn"):
        if u.kind == "dyn":
            n, s = refcodec.int_bits(u, env)
            lo, hi = (-(1 << n - 1), (1 << n - 1) - 1) if s else (0, (1 << n) - 1)
        else:
            lo, hi = u.lo, u.hi
        k = t.raw(8)
        return [hi + 1, lo - 1, hi, lo, v + 1, v - 1, t.int(lo, hi), hi + t.int(1, max(1, hi - lo))][k]
    return None
