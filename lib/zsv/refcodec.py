"""Reference codec written from doc/ZserioEncodingGuide.md: encoder, size/offset calculation and decoder."""
from .model import *
from .model import _struct


class Reject(Exception):
    """the guide assigns no value to the stream (kind = reason)"""
    def __init__(self, kind, msg=""):
        super().__init__(kind + " " + msg); self.kind = kind


class Ambiguous(Exception):
    """the guide does not say what the stream means (excluded from comparisons, counted)"""


# ------------------------------------------------------------------- primitive encodings

class BitW:
    def __init__(self, pos=0):
        self.v = 0; self.n = 0; self.chunks = []; self.start = pos

    @property
    def pos(self):
        return self.start + self.n

    def put(self, v, n):
        if n == 0:
            return
        assert 0 <= v < (1 << n), (v, n)
        self.chunks.append((v, n)); self.n += n

    def align(self, a):
        p = self.pos % a
        if p:
            self.put(0, a - p)

    def bits(self):
        """(int, bit count) of everything written"""
        v = 0
        s = []
        for x, n in self.chunks:
            s.append(format(x, "0%db" % n))
        s = "".join(s)
        return (int(s, 2) if s else 0), len(s)


def bits_to_bytes(v, n):
    pad = -n % 8
    return (v << pad).to_bytes((n + pad) // 8, "big") if n else b""


def varint_enc(name, v):
    """(bits value, bit count)"""
    signed, groups, lo, hi = VAR[name]
    neg = signed and v < 0
    a = abs(v)
    if name == "varint" and v == -(2 ** 63):
        return 0x80, 8
    if name in ("varint", "varuint"):
        maxn = 9
    elif name == "varsize":
        maxn = 5
    else:
        maxn = {"16": 2, "32": 4, "64": 8}[name[-2:]]
    for n in range(1, maxn + 1):
        # capacity with n bytes
        cap = 0
        for i in range(n):
            if i == maxn - 1:
                cap += 8
            elif i == 0 and signed:
                cap += 6
            else:
                cap += 7
        if a < (1 << cap):
            break
    else:
        raise AssertionError((name, v))
    out = []
    rem = a
    sizes = []
    for i in range(n):
        sizes.append(8 if i == maxn - 1 else 6 if (i == 0 and signed) else 7)
    for i in reversed(range(n)):
        out.append(rem & ((1 << sizes[i]) - 1)); rem >>= sizes[i]
    out.reverse()
    r = 0
    for i in range(n):
        b = out[i]
        if sizes[i] == 7:
            b |= 0x80 if i < n - 1 else 0
        elif sizes[i] == 6:
            b |= (0x40 if i < n - 1 else 0) | (0x80 if neg else 0)
        r = (r << 8) | b
    return r, 8 * n


class BitR:
    def __init__(self, data, nbits, pos=0):
        self.v = int.from_bytes(data, "big") if data else 0
        self.total = len(data) * 8
        self.n = nbits; self.pos = pos

    def get(self, n):
        if n == 0:
            return 0
        if self.pos + n > self.n:
            raise Reject("eof")
        r = (self.v >> (self.total - self.pos - n)) & ((1 << n) - 1)
        self.pos += n
        return r

    def sget(self, n):
        r = self.get(n)
        return r - (1 << n) if r >> (n - 1) else r

    def align(self, a):
        p = self.pos % a
        if p:
            if self.pos + a - p > self.n:
                raise Reject("eof")
            self.pos += a - p     # padding content is not specified for readers

    def var(self, name):
        signed = VAR[name][0]
        maxn = 9 if name in ("varint", "varuint") else 5 if name == "varsize" else {"16": 2, "32": 4, "64": 8}[name[-2:]]
        neg = False; v = 0
        for i in range(maxn):
            b = self.get(8)
            if i == 0 and signed:
                neg = bool(b & 0x80)
                if maxn == 1:
                    v = b & 0x7f; break
                v = b & 0x3f
                if not b & 0x40:
                    break
            elif i == maxn - 1:
                v = (v << 8) | b
            else:
                v = (v << 7) | (b & 0x7f)
                if not b & 0x80:
                    break
        if neg:
            if v == 0 and i == 0 and name == "varint":
                return -(2 ** 63)
            return -v
        if name == "varsize" and v > 2 ** 31 - 1:
            raise Reject("varsize")
        return v


# ------------------------------------------------------------------- packing

class Delta:
    __slots__ = ("packed", "maxbit", "prev", "unp", "first", "n", "started")

    def __init__(self):
        self.packed = False; self.maxbit = 0; self.prev = None; self.unp = 0; self.first = 0; self.n = 0
        self.started = False

    def init(self, v, size):
        self.n += 1; self.unp += size
        if self.prev is None:
            self.first = size
        else:
            self.maxbit = max(self.maxbit, abs(v - self.prev).bit_length())
        self.prev = v

    def finish(self):
        self.packed = self.n > 1 and self.maxbit <= 62
        if self.packed:
            d = self.maxbit + 1 if self.maxbit else 0
            if 7 + self.first + (self.n - 1) * d >= 1 + self.unp:
                self.packed = False


class Node(dict):
    """packing contexts of one compound type"""
    __slots__ = ("decl",)

    def __init__(self, decl):
        self.decl = decl

    def child(self, key, t):
        b = t.base()
        if b.kind == "ref" and b.decl is self.decl:
            return self            # recursion shares the parent's context
        c = self.get(key)
        if c is None:
            if b.kind == "ref" and isinstance(b.decl, Compound):
                c = Node(b.decl)
            else:
                c = Delta()
            self[key] = c
        return c


def int_bits(t, env):
    if t.kind == "dyn":
        n = env.eval(t.expr)
        if not 1 <= n <= 64:
            raise Reject("bitfield length")
        return n, t.signed
    return t.bits, t.signed


def is_compound(t):
    return t.kind == "ref" and isinstance(t.decl, Compound)


def underlying(t):
    b = t.base()
    if b.kind == "ref" and isinstance(b.decl, (Enum, Bitmask)):
        return b.decl.ty.base()
    return b


# ------------------------------------------------------------------- encoder

class Encoder:
    def __init__(self, start=0, assign=False, check=False, trace=None):
        self.w = BitW(start); self.assign = assign; self.check = check
        self.leaves = 0; self.packed_leaves = 0; self.trace = trace
        self.setlog = []      # (container, key) of every offset which was assigned

    def num(self, t, v, env):
        """integer leaf of underlying type t"""
        w = self.w
        if t.kind == "var":
            w.put(*varint_enc(t.name, v))
        else:
            n, signed = int_bits(t, env)
            w.put(v & ((1 << n) - 1), n)

    def numsize(self, t, v, env):
        if t.kind == "var":
            return varint_enc(t.name, v)[1]
        return int_bits(t, env)[0]

    def leaf(self, ty, v, env, ctx):
        """a value (not an array)"""
        b = ty.base()
        w = self.w
        self.leaves += 1
        if is_compound(b):
            self.compound(v, ctx)
            return
        u = underlying(b)
        if ctx is not None and isinstance(ctx, Delta):
            if not ctx.started:
                ctx.started = True
                ctx.finish()
                w.put(int(ctx.packed), 1)
                if ctx.packed:
                    w.put(ctx.maxbit, 6)
                    self.packed_leaves += 1
                self.num(u, v, env)
            elif not ctx.packed:
                self.num(u, v, env)
            elif ctx.maxbit:
                n = ctx.maxbit + 1
                w.put((v - ctx.prev) & ((1 << n) - 1), n)
            ctx.prev = v
            return
        k = u.kind
        if k in ("int", "dyn", "var"):
            self.num(u, v, env)
        elif k == "bool":
            w.put(int(v), 1)
        elif k == "float":
            w.put(fbits(v, u.bits), u.bits)
        elif k == "string":
            d = v.encode("utf-8")
            w.put(*varint_enc("varsize", len(d)))
            w.put(int.from_bytes(d, "big"), 8 * len(d))
        elif k == "bytes":
            w.put(*varint_enc("varsize", len(v)))
            w.put(int.from_bytes(v, "big"), 8 * len(v))
        elif k == "extern":
            n, d = v
            w.put(*varint_enc("varsize", n))
            w.put(int.from_bytes(d, "big") >> (-n % 8), n)
        else:
            raise AssertionError(k)

    def init_ctx(self, ctx, ty, v, env):
        b = ty.base()
        if is_compound(b):
            self.init_node(ctx, v)
        else:
            ctx.init(v, self.numsize(underlying(b), v, env))

    def init_node(self, node, o):
        d = o.d
        if isinstance(d, Struct):
            env = Env(o)
            for i, f in enumerate(d.fields):
                v = o.vals[i]
                if v is None or f.arr is not None or not self.ctx_packable(d, f):
                    continue
                self.init_ctx(node.child(i, f.ty), f.ty, v, env)
        else:
            if isinstance(d, Union):
                t = node.get("tag")
                if t is None:
                    t = node["tag"] = Delta()
                t.init(o.idx, varint_enc("varsize", o.idx)[1])
            if o.idx is not None:
                f = d.fields[o.idx]
                if f.arr is None and self.ctx_packable(d, f):
                    self.init_ctx(node.child(o.idx, f.ty), f.ty, o.val, Env(o))

    @staticmethod
    def ctx_packable(d, f):
        b = f.ty.base()
        if b.kind == "ref" and b.decl is d:
            return d.packable()
        return field_packable(f)

    def field(self, d, o, i, f, v, env, node):
        w = self.w
        if f.align is not None:
            w.align(f.align)
        if f.offset is not None and not f.offset_indexed:
            w.align(8)
            self.do_offset(f.offset, env, w.pos)
        if f.arr is not None:
            self.array(d, o, f, v, node)
        else:
            ctx = None
            if node is not None and self.ctx_packable(d, f):
                ctx = node.child(i, f.ty)
            self.leaf(f.ty, v, env, ctx)

    def do_offset(self, path, env, pos):
        if self.assign:
            self.setpath(path, env, pos // 8)
        elif self.check:
            if env.eval(path) != pos // 8:
                raise Reject("offset")

    def setpath(self, path, env, val):
        k = path.k
        if k == "fld":
            env.obj.vals[path.a[0]] = val
            self.setlog.append((env.obj.vals, path.a[0]))
        elif k == "dotf":
            tgt = env.eval(path.a[0])
            if isinstance(tgt, CObj):
                if tgt.idx != path.a[1]:
                    raise Trap("offset in inactive member")
                tgt.val = val
                self.setlog.append((tgt, "val"))
            else:
                tgt.vals[path.a[1]] = val
                self.setlog.append((tgt.vals, path.a[1]))
        elif k == "elem":
            arr = env.eval(path.a[0]); i = env.eval(path.a[1]); arr[i] = val
            self.setlog.append((arr, i))
        else:
            raise AssertionError(k)

    def array(self, d, o, f, v, node):
        w = self.w
        if f.arr == "auto":
            w.put(*varint_enc("varsize", len(v)))
        if not v:
            return
        packed = (f.packed or node is not None) and field_packable(f)
        ctx = None
        if packed:
            b = f.ty.base()
            ctx = Node(b.decl) if is_compound(b) else Delta()
            for n, x in enumerate(v):
                self.init_ctx(ctx, f.ty, x, Env(o, n))
        for n, x in enumerate(v):
            env = Env(o, n)
            if f.offset_indexed:
                w.align(8)
                self.do_offset(f.offset, env, w.pos)
            self.leaf(f.ty, x, env, ctx)

    def compound(self, o, node=None):
        d = o.d
        w = self.w
        if self.trace is not None:
            self.trace.append((o, w.pos))
        if node is not None and not d.packable():
            node = None
        if isinstance(d, Struct):
            env = Env(o)
            next_ = sum(1 for f in d.fields if f.extended)
            have = next_ if o.ext is None else o.ext
            seen = 0
            for i, f in enumerate(d.fields):
                if f.extended:
                    if seen >= have:
                        break
                    seen += 1
                    w.align(8)
                v = o.vals[i]
                if f.opt is True:
                    w.put(int(v is not None), 1)
                    if v is None:
                        continue
                elif f.opt is not None:
                    if not env.eval(f.opt):
                        continue
                self.field(d, o, i, f, v, env, node)
        else:
            if isinstance(d, Union):
                if node is not None:
                    t = node.get("tag")
                    self.leaf(var("varsize"), o.idx, None, t)
                else:
                    w.put(*varint_enc("varsize", o.idx))
            if o.idx is not None:
                f = d.fields[o.idx]
                self.field(d, o, o.idx, f, o.val, Env(o), node)


def has_offsets(d, seen=None):
    seen = seen if seen is not None else set()
    if id(d) in seen:
        return False
    seen.add(id(d))
    for f in d.fields:
        if f.offset is not None:
            return True
        b = f.ty.base()
        if is_compound(b) and has_offsets(b.decl, seen):
            return True
    return False


def assign_offsets(o, start=0):
    """sets all offset fields of the value; returns the end position"""
    e = Encoder(start, assign=True)
    e.compound(o)
    return e.w.pos


def offset_slots(o, start=0):
    """places of all offsets of the value; assigns them"""
    e = Encoder(start, assign=True)
    e.compound(o)
    seen = set(); out = []
    for c, k in e.setlog:
        if (id(c), k) not in seen:
            seen.add((id(c), k)); out.append((c, k))
    return out


def slot_get(s):
    return s[0].val if s[1] == "val" else s[0][s[1]]


def slot_set(s, v):
    if s[1] == "val":
        s[0].val = v
    else:
        s[0][s[1]] = v


def encode(o, start=0, assign=True):
    """(bits int, bit count, encoder)"""
    if assign and has_offsets(o.d):
        assign_offsets(o, start)
    e = Encoder(start)
    e.compound(o)
    v, n = e.w.bits()
    return v, n, e


# ------------------------------------------------------------------- decoder

class Decoder:
    MAXELEMS = 5000

    def __init__(self, data, nbits, pos=0):
        self.r = BitR(data, nbits, pos)
        self.elems = 0
        self.depth = 0
        self.end_sensitive = False
        self.trace = None       # list of [position, size] of the compounds in the order in which they start

    def num(self, t, env):
        if t.kind == "var":
            return self.r.var(t.name)
        n, s = self.intbits(t, env)
        return self.r.sget(n) if s else self.r.get(n)

    def intbits(self, t, env):
        try:
            return int_bits(t, env)
        except Trap as e:
            raise Reject("expr", str(e))

    def leaf(self, ty, env, ctx, mkparams):
        b = ty.base()
        r = self.r
        if is_compound(b):
            return self.compound(b.decl, mkparams(), ctx)
        u = underlying(b)
        if isinstance(ctx, Delta):
            if not ctx.started:
                ctx.started = True
                ctx.packed = bool(r.get(1))
                if ctx.packed:
                    ctx.maxbit = r.get(6)
                    if ctx.maxbit > 62:
                        raise Ambiguous("maxbit")
                v = self.num(u, env)
            elif not ctx.packed:
                v = self.num(u, env)
            else:
                v = ctx.prev
                if ctx.maxbit:
                    v += r.sget(ctx.maxbit + 1)
                lo, hi = u.lo, u.hi
                if u.kind == "dyn":
                    n, s = self.intbits(u, env)
                    lo, hi = (-(1 << n - 1), (1 << n - 1) - 1) if s else (0, (1 << n) - 1)
                if not lo <= v <= hi:
                    raise Ambiguous("packed overflow")
            ctx.prev = v
        elif u.kind in ("int", "dyn", "var"):
            v = self.num(u, env)
        elif u.kind == "bool":
            return bool(r.get(1))
        elif u.kind == "float":
            return bits_f(r.get(u.bits), u.bits)
        elif u.kind == "string":
            n = r.var("varsize")
            if r.pos + 8 * n > r.n:
                raise Reject("eof")
            d = r.get(8 * n).to_bytes(n, "big") if n else b""
            try:
                return d.decode("utf-8")
            except UnicodeDecodeError:
                raise Ambiguous("utf8")
        elif u.kind == "bytes":
            n = r.var("varsize")
            if r.pos + 8 * n > r.n:
                raise Reject("eof")
            return r.get(8 * n).to_bytes(n, "big") if n else b""
        elif u.kind == "extern":
            n = r.var("varsize")
            if r.pos + n > r.n:
                raise Reject("eof")
            v = r.get(n)
            return (n, bits_to_bytes(v, n))
        else:
            raise AssertionError(u.kind)
        if b.kind == "ref" and isinstance(b.decl, Enum):
            if not any(it.value == v for it in b.decl.items):
                raise Reject("enum")
        return v

    def expr(self, e, env):
        try:
            return env.eval(e)
        except Trap as t:
            raise Reject("expr", str(t))

    def field(self, d, o, i, f, env, node):
        r = self.r
        if f.align is not None:
            r.align(f.align)
        if f.offset is not None and not f.offset_indexed:
            r.align(8)
            if self.expr(f.offset, env) != r.pos // 8:
                raise Reject("offset")
        if f.arr is not None:
            return self.array(d, o, f, node)
        ctx = None
        if node is not None and Encoder.ctx_packable(d, f):
            ctx = node.child(i, f.ty)
        return self.leaf(f.ty, env, ctx, lambda: self.args(f, env))

    def args(self, f, env):
        b = f.ty.base()
        return [self.expr(a, env) for a in use_args(f.ty)]

    def array(self, d, o, f, node):
        r = self.r
        if f.arr == "auto":
            n = r.var("varsize")
        elif f.arr == "implicit":
            u = underlying(f.ty)
            n = (r.n - r.pos) // (u.bits or int_bits(u, Env(o))[0] if u.kind != "bool" else 1)
            self.end_sensitive = True
        else:
            n = self.expr(f.arr, Env(o))
            if n < 0:
                raise Ambiguous("negative length")
        if n == 0:
            return []
        packed = (f.packed or node is not None) and field_packable(f)
        ctx = None
        b = f.ty.base()
        if packed:
            ctx = Node(b.decl) if is_compound(b) else Delta()
        out = []
        for k in range(n):
            self.elems += 1
            if self.elems > self.MAXELEMS:
                raise Ambiguous("too many elements")
            env = Env(o, k)
            if f.offset_indexed:
                r.align(8)
                if self.expr(f.offset, env) != r.pos // 8:
                    raise Reject("offset")
            out.append(self.leaf(f.ty, env, ctx, lambda: self.args(f, env)))
        return out

    def compound(self, d, params, node=None):
        if self.trace is None:
            return self.compound_(d, params, node)
        e = [self.r.pos, 0]
        self.trace.append(e)
        o = self.compound_(d, params, node)
        e[1] = self.r.pos - e[0]
        return o

    def compound_(self, d, params, node=None):
        r = self.r
        self.depth += 1
        if self.depth > 60:
            raise Ambiguous("depth")
        if node is not None and not d.packable():
            node = None
        if isinstance(d, Struct):
            o = SObj(d, params, [None] * len(d.fields))
            env = Env(o)
            if any(f.extended for f in d.fields):
                o.ext = 0
                self.end_sensitive = True
            for i, f in enumerate(d.fields):
                if f.extended:
                    if (r.pos + 7) // 8 * 8 >= r.n:
                        break
                    r.align(8)
                    o.ext += 1
                if f.opt is True:
                    if not r.get(1):
                        continue
                elif f.opt is not None:
                    if not self.expr(f.opt, env):
                        continue
                o.vals[i] = self.field(d, o, i, f, env, node)
                if f.constraint is not None and not self.expr(f.constraint, env):
                    raise Reject("constraint")
        else:
            o = CObj(d, params, None, None)
            env = Env(o)
            if isinstance(d, Union):
                if node is not None:
                    t = node.get("tag")
                    if t is None:
                        t = node["tag"] = Delta()
                    tag = self.leaf(var("varsize"), env, t, None)
                else:
                    tag = r.var("varsize")
                if tag >= len(d.fields):
                    raise Reject("tag")
                o.idx = tag
            else:
                try:
                    idx = d.select(env)
                except Trap as e:
                    raise Reject("expr", str(e))
                if idx == -1:
                    raise Reject("case")
                o.idx = idx
            if o.idx is not None:
                f = d.fields[o.idx]
                idx = o.idx
                o.val = self.field(d, o, idx, f, env, node)
                if f.constraint is not None and not self.expr(f.constraint, env):
                    raise Reject("constraint")
        self.depth -= 1
        return o


def use_args(t):
    """argument expressions given where the type is used (through subtypes)"""
    while True:
        if t.args:
            return t.args
        if t.kind == "ref" and isinstance(t.decl, Subtype):
            t = t.decl.ty
            continue
        return []


# ------------------------------------------------------------------- validity of objects

class Skip(Exception):
    """the documentation does not say what happens"""


def clone(o, memo=None):
    """deep copy of a value; references between objects (compound parameters) are kept"""
    memo = {} if memo is None else memo
    if isinstance(o, list):
        return [clone(x, memo) for x in o]
    if not isinstance(o, (SObj, CObj)):
        return o
    if id(o) in memo:
        return memo[id(o)][0]
    if isinstance(o, SObj):
        c = SObj(o.d, [], [])
        memo[id(o)] = (c, o)
        c.params = [clone(x, memo) for x in o.params]
        c.vals = [clone(x, memo) for x in o.vals]
        c.ext = o.ext
    else:
        c = CObj(o.d, [], o.idx, None)
        memo[id(o)] = (c, o)
        c.params = [clone(x, memo) for x in o.params]
        c.val = clone(o.val, memo)
    return c


class Validator:
    """finds what makes an object invalid; derive: parameters are set from the parent first (as the C++ initialize does)"""
    def __init__(self, derive=False):
        self.derive = derive
        self.found = []
        self.depth = 0
        self.packed = False

    def root(self, o):
        try:
            self.comp(o)
        except (Trap, RecursionError, OverflowError) as e:
            raise Skip(str(e))
        return self.found

    def bad(self, kind, where, v=None):
        self.found.append((kind, where, self.packed, v))

    def leaf(self, ty, v, env, where):
        b = ty.base()
        if is_compound(b):
            args = use_args(ty)
            for i, a in enumerate(args):
                x = env.eval(a)
                q = b.decl.params[i]
                if is_compound(q.ty.base()):
                    if v.params[i] is not x:
                        raise Skip("compound parameter")
                    continue
                if q.ty.base().kind in ("int", "var") and not q.ty.base().lo <= x <= q.ty.base().hi:
                    raise Skip("argument out of range")
                if self.derive:
                    v.params[i] = x
                elif v.params[i] != x:
                    self.bad("param", where)
            self.comp(v)
            return
        u = underlying(b)
        if u.kind in ("int", "var"):
            if b.kind == "ref" and isinstance(b.decl, Enum):
                its = [i for i in b.decl.items if i.value == v]
                if not its:
                    raise Skip("no such item")
                if its[0].flag == "removed":
                    self.bad("removed", where)
            elif not u.lo <= v <= u.hi:
                self.bad("range", where, v)
        elif u.kind == "dyn":
            n, s = int_bits(u, env)
            lo, hi = (-(1 << n - 1), (1 << n - 1) - 1) if s else (0, (1 << n) - 1)
            if not lo <= v <= hi:
                self.bad("range", where, v)

    def field(self, d, o, f, v):
        env = Env(o)
        where = (d, f)
        if f.constraint is not None and not env.eval(f.constraint):
            self.bad("constraint", where)
        if f.arr is None:
            self.leaf(f.ty, v, env, where)
            return
        if isinstance(f.arr, E) and env.eval(f.arr) != len(v):
            self.bad("length", where)
        outer = self.packed
        self.packed = self.packed or f.packed
        for n, x in enumerate(v):
            self.leaf(f.ty, x, Env(o, n), where)
        self.packed = outer

    def comp(self, o):
        d = o.d
        self.depth += 1
        if self.depth > 40:
            raise Skip("depth")
        if isinstance(d, Struct):
            env = Env(o)
            for f, v in zip(d.fields, o.vals):
                if f.opt is True and v is None:
                    continue
                if isinstance(f.opt, E):
                    c = env.eval(f.opt)
                    if c != (v is not None):
                        raise Skip("optional presence")
                    if not c:
                        continue
                if v is None:
                    raise Skip("unset")
                self.field(d, o, f, v)
        elif isinstance(d, Union):
            if o.idx is None:
                self.bad("tag", (d, None))
            else:
                self.field(d, o, d.fields[o.idx], o.val)
        else:
            idx = d.select(Env(o))
            if idx == -1:
                self.bad("case", (d, None))
            elif idx != o.idx:
                raise Skip("choice member")
            elif idx is not None:
                self.field(d, o, d.fields[idx], o.val)
        self.depth -= 1
