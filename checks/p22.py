"""P22: operation sequences on bit stream writers and readers of the four runtimes against a reference model."""
import struct, time, math
from fractions import Fraction
from common import *
from zsv import rtlib, refcodec, runner
from zsv.tape import Tape
from zsv.model import VAR
from zsv.runner import Result

LANGS = ("python", "pycpp", "java", "cpp", "cppsan")
VARS = sorted(VAR)
NATIVE = {"varint16": (-1 << 15, (1 << 15) - 1), "varuint16": (0, (1 << 16) - 1)}


def f2d(v):
    return format(struct.unpack(">Q", struct.pack(">d", v))[0], "x")


def d2f(h):
    return struct.unpack(">d", int(h, 16).to_bytes(8, "big"))[0]


def half(v):
    """binary16 of a finite or infinite float32: nearest, ties away from zero; below the smallest subnormal zero"""
    b = int.from_bytes(struct.pack(">f", v), "big")
    s = b >> 16 & 0x8000
    a = Fraction(abs(v)) if abs(v) != float("inf") else None
    if a is None or a >= 65520:
        return s | 0x7c00
    if a < Fraction(1, 1 << 24):
        return s
    e = max(-14, math.frexp(abs(v))[1] - 1)
    n = a / (Fraction(2) ** (e - 10))
    n = (n + Fraction(1, 2)).__floor__()
    # n in units of 2^(e-10); a carry into the next exponent happens by itself
    return s | (n if e == -14 else ((e + 14) << 10) + n)


def edge(t, lo, hi):
    k = t.raw(8)
    if k == 0:
        return lo
    if k == 1:
        return hi
    if k == 2:
        return hi + 1
    if k == 3:
        return lo - 1
    if k == 4:
        n = t.raw(max(1, hi.bit_length()) + 1)
        return min(hi, max(lo, (1 << n) - t.raw(2)))
    if k == 5 and lo < 0:
        n = t.raw(max(1, hi.bit_length()) + 1)
        return max(lo, -(1 << n) + t.raw(2))
    n = t.raw(max(1, hi.bit_length()) + 1)
    v = t.bits(n)
    return -v if lo < 0 and t.raw(2) and -v >= lo else min(v, hi)


def gen_float(t, fmt):
    bits = {"f16": 16, "f32": 32, "f64": 64}[fmt]
    while True:
        v = t.bits(bits)
        if t.raw(4) == 0:
            v = t.pick([0, 1 << (bits - 1), 1, {16: 0x7c00, 32: 0x7f800000, 64: 0x7ff << 52}[bits]])
        x = struct.unpack({16: ">e", 32: ">f", 64: ">d"}[bits], v.to_bytes(bits // 8, "big"))[0]
        if x == x:
            break
        v = 0
    if fmt == "f16" and t.raw(2):
        x = struct.unpack(">f", struct.pack(">I", t.pick([0x38000000, 0x33000000, 0x47000000]) + t.raw(1 << 24)))[0]
    return f2d(x)


def gen_write(t, cap=False):
    ops = []
    for _ in range(t.int(1, 24)):
        k = t.raw(20)
        if k < 5:
            n = t.int(1, 64)
            if t.raw(40) == 0 and not cap:
                ops.append("%s:%d:%d" % (t.pick("us"), t.pick([0, 65, 66]), 0)); continue
            v = edge(t, 0, (1 << n) - 1)
            if n == 64 and v < 0:
                v = 0
            ops.append("%s:%d:%d" % ("U" if t.raw(3) == 0 and v >= 0 else "u", n, v))
        elif k < 9:
            n = t.int(1, 64)
            ops.append("s:%d:%d" % (n, edge(t, -(1 << n - 1), (1 << n - 1) - 1)))
        elif k < 11:
            n = t.pick([8, 16, 32, 64]); s = t.pick(["tu", "ts"])
            lo, hi = (0, (1 << n) - 1) if s == "tu" else (-(1 << n - 1), (1 << n - 1) - 1)
            v = edge(t, lo, hi)
            if s == "tu" and v < 0 and n == 64:
                v = 0
            ops.append("%s:%d:%d" % (s, n, v))
        elif k < 14:
            n = t.pick(VARS)
            ops.append("n:%s:%d" % (n, edge(t, *VAR[n][2:])))
        elif k == 14:
            f = t.pick(["f16", "f32", "f64"])
            ops.append("%s:%s" % (f, gen_float(t, f)))
        elif k == 15:
            ops.append("by:" + t.bytes(t.raw(t.pick([3, 10, 40, 200]))).hex())
        elif k == 16:
            s = "".join(chr(t.pick([t.raw(128), t.int(128, 0x7ff), t.int(0x800, 0xd7ff), t.int(0xe000, 0xffff), t.int(0x10000, 0x10ffff)]))
                        for _ in range(t.raw(t.pick([3, 10, 70]))))
            ops.append("st:" + s.encode().hex())
        elif k == 17:
            ops.append("b:%d" % t.raw(2))
        elif k == 18:
            n = t.raw(t.pick([9, 17, 66, 300]))
            ops.append("bb:%d:%s" % (n, t.bytes((n + 7) // 8).hex()))
        else:
            ops.append("al:%d" % t.pick([1, 2, 4, 8, 16, 32, 64, t.int(1, 70), t.int(1, 600)]))
    return ops


def enc(op):
    """(value bits, bit count), 'align' or None when the operation has to be refused; independent of the position"""
    p = op.split(":")
    k = p[0]
    if k in ("u", "U", "tu"):
        n, v = int(p[1]), int(p[2])
        return (v, n) if 1 <= n <= 64 and 0 <= v < 1 << n else None
    if k in ("s", "ts"):
        n, v = int(p[1]), int(p[2])
        return (v & ((1 << n) - 1), n) if 1 <= n <= 64 and -(1 << n - 1) <= v < 1 << n - 1 else None
    if k == "n":
        v = int(p[2])
        return refcodec.varint_enc(p[1], v) if VAR[p[1]][2] <= v <= VAR[p[1]][3] else None
    if k == "f16":
        return half(d2f(p[1])), 16
    if k == "f32":
        return int.from_bytes(struct.pack(">f", d2f(p[1])), "big"), 32
    if k == "f64":
        return int(p[1], 16), 64
    if k == "b":
        return int(p[1]), 1
    if k in ("by", "st"):
        d = bytes.fromhex(p[1])
        v, n = refcodec.varint_enc("varsize", len(d))
        return (v << 8 * len(d)) | int.from_bytes(d, "big"), n + 8 * len(d)
    if k == "bb":
        d = bytes.fromhex(p[2]); b = int(p[1])
        v, n = refcodec.varint_enc("varsize", b)
        return (v << b) | (int.from_bytes(d, "big") >> (len(d) * 8 - b)), n + b
    raise AssertionError(op)


def readval(op):
    """canonical value a matching read returns"""
    p = op.split(":")
    k = p[0]
    if k in ("u", "U", "tu", "s", "ts", "n"):
        return str(int(p[2]))
    if k == "b":
        return p[1]
    if k == "f16":
        return f2d(struct.unpack(">e", half(d2f(p[1])).to_bytes(2, "big"))[0])
    if k in ("f32", "f64"):
        return format(int(p[1], 16), "x")
    if k in ("by", "st"):
        return "x" + p[1]
    if k == "bb":
        n = int(p[1]); d = bytearray.fromhex(p[2])
        if n % 8:
            d[-1] &= 0xff << (8 - n % 8) & 0xff
        return "%d:%s" % (n, bytes(d).hex())
    return "-"


def judge_seq(ops, reply, cap=-1):
    """None or what differs"""
    st, hexd, rd = reply.split("|")
    st = st.split(" ")
    w = refcodec.BitW()
    ok = []
    stopped = False
    if cap < 0 and len(st) != len(ops):
        return "%d of %d operations" % (len(st), len(ops))
    for op, s in zip(ops, st):
        p0 = w.pos
        e = (0, -p0 % int(op[3:])) if op.startswith("al:") else enc(op)
        if e is None:
            if s != "X" and not (s.startswith("E%d" % p0) and not s[len("E%d" % p0):][:1].isdigit()):
                return "%s at bit %d must be refused: %s" % (op[:200], p0, s)
            if cap >= 0 and s[0] == "E":
                stopped = True; break
            continue
        if cap >= 0 and p0 + e[1] > cap:
            if s[0] != "E" or not s.endswith("InsufficientCapacityException"):
                return "%s at bit %d does not fit into %d bits: %s" % (op[:200], p0, cap, s)
            stopped = True
            break
        if e[1]:
            w.put(*e)
        want = str(w.pos)
        if op[0] == "n" or op[:2] in ("by", "st", "bb"):
            want += "s%d" % e[1]
        if s != want:
            return "%s at bit %d: expected %s, got %s" % (op[:200], p0, want, s)
        ok.append(op)
    v, n = w.bits()
    want = refcodec.bits_to_bytes(v, n).hex()
    if stopped:
        want = want[:n // 8 * 2]; hexd = hexd[:n // 8 * 2]
    if hexd != want:
        return "bits differ: expected %s, got %s" % (want[:300], hexd[:300])
    pos = 0
    exp = []
    for op in ok:
        pos += -pos % int(op[3:]) if op.startswith("al:") else enc(op)[1]
        exp.append("%s@%d" % (readval(op), pos))
    if " ".join(exp) != rd:
        g = rd.split(" ") if rd else []
        for i, x in enumerate(exp):
            if i >= len(g) or g[i] != x:
                return "read back %s: expected %s, got %s" % (ok[i][:200], x[:200], (g[i] if i < len(g) else "nothing")[:200])
        return "read back: " + rd[-100:]
    return None


def gen_read(t):
    nb = t.raw(t.pick([4, 12, 40]))
    data = bytearray(t.bytes(nb))
    for i in range(nb):
        if t.raw(3) == 0:
            data[i] = t.pick([0, 1, 2, 3, 0x7f, 0x80, 0x81, 0xff])
    bits = max(0, 8 * nb - t.raw(9))
    ops = []
    for _ in range(t.int(1, 14)):
        k = t.raw(14)
        if k < 3:
            ops.append("%s:%d" % (t.pick("us"), t.int(1, 64)))
        elif k == 3:
            ops.append("U:%d" % t.int(1, 64))
        elif k < 6:
            ops.append("%s:%d" % (t.pick(["tu", "ts"]), t.pick([8, 16, 32, 64])))
        elif k < 9:
            ops.append("n:%s" % t.pick(VARS))
        elif k == 9:
            ops.append(t.pick(["f16", "f32", "f64"]))
        elif k == 10:
            ops.append(t.pick(["by", "st", "bb", "b"]))
        elif k == 11:
            ops.append("al:%d" % t.pick([1, 2, 4, 8, 16, 32, 64, t.int(1, 70), t.int(1, 300)]))
        elif k == 12:
            ops.append("sp:%d" % t.int(0, bits))
        else:
            ops.append("b")
    return bits, bytes(data), ops


def rd_expect(bits, data, ops):
    """list of 'value@pos', 'E' at the end when the reference rejects, '?' where the comparison ends"""
    r = refcodec.BitR(data, bits)
    out = []
    for op in ops:
        p = op.split(":")
        k = p[0]
        try:
            if k in ("u", "U", "tu"):
                v = str(r.get(int(p[1])))
            elif k in ("s", "ts"):
                v = str(r.sget(int(p[1])))
            elif k == "n":
                v = str(r.var(p[1]))
            elif k in ("f16", "f32", "f64"):
                n = int(k[1:])
                x = struct.unpack({16: ">e", 32: ">f", 64: ">d"}[n], r.get(n).to_bytes(n // 8, "big"))[0]
                v = f2d(x) if x == x else "7ff8000000000000"
            elif k == "b":
                v = str(r.get(1))
            elif k in ("by", "st"):
                n = r.var("varsize")
                d = r.get(8 * n).to_bytes(n, "big") if n else b""
                v = "x" + d.hex()
                if k == "st":
                    try:
                        d.decode("utf-8")
                    except UnicodeDecodeError:
                        out.append("?"); return out
            elif k == "bb":
                n = r.var("varsize")
                x = r.get(n)
                v = "%d:%s" % (n, refcodec.bits_to_bytes(x, n).hex())
            elif k == "al":
                a = int(p[1])
                if r.pos + -r.pos % a > bits:
                    out.append("?"); return out
                r.align(a); v = "-"
            else:
                r.pos = int(p[1]); v = "-"
        except refcodec.Reject:
            out.append("E")
            return out
        out.append("%s@%d" % (v, r.pos))
    return out


def judge_rd(bits, data, ops, reply):
    exp = rd_expect(bits, data, ops)
    got = reply.split(" ") if reply else []
    for i, x in enumerate(exp):
        g = got[i] if i < len(got) else "nothing"
        if x == "?":
            return None
        if x == "E":
            if not g.startswith("E"):
                return "%s (operation %d) must be refused, got %s" % (ops[i], i, g[:200])
            return None
        if g != x:
            return "%s (operation %d): expected %s, got %s" % (ops[i], i, x[:200], g[:200])
    return None


class Chk:
    PROPERTY = "P22"
    NEEDS = ("jrt", "cpp", "san", "pyb", "rtj", "rtc", "rtsan")
    RULE = "sequence of at least 3 operations with one that starts inside a byte; raw read: at least 2 values before any rejection"
    ASSUMPTIONS = ["NaN payloads belong to P23", "strings with malformed UTF-8 end a comparison",
                   "reader alignment beyond the end of the stream is not compared",
                   "negative values handed to Java writeBigInteger are not generated (it writes signed values too)"]
    MIN_NONTRIVIAL = 1000

    def tasks(self, tier, seed):
        return list(range(80 if tier == "quick" else 4000))

    def gen(self, seed, task, tier):
        t = Tape(("p22", seed, task))
        cases = []
        for _ in range(200):
            cases.append({"k": "SEQ", "cap": -1, "ops": gen_write(t)})
        for _ in range(60):
            ops = gen_write(t, True)
            cases.append({"k": "SEQ", "cap": t.int(0, t.pick([20, 100, 700])), "ops": ops})
        for _ in range(240):
            b, d, ops = gen_read(t)
            cases.append({"k": "RD", "bits": b, "data": d.hex(), "ops": ops})
        return cases

    def line(self, c):
        if c["k"] == "SEQ":
            return "SEQ\t%d\t%s" % (c["cap"], " ".join(c["ops"]))
        return "RD\t%d\t%s\t%s" % (c["bits"], c["data"], " ".join(c["ops"]))

    def judge(self, c, reply):
        if c["k"] == "SEQ":
            return judge_seq(c["ops"], reply, c["cap"])
        return judge_rd(c["bits"], bytes.fromhex(c["data"]), c["ops"], reply)

    def applicable(self, lang, c):
        return c.get("cap", -1) < 0 or lang in ("cpp", "cppsan")

    def run(self, ctx, task, cases=None, langs=LANGS):
        r = Result()
        if cases is None:
            cases = self.gen(ctx.seed, task, ctx.tier)
        for c in cases:
            if c["k"] == "SEQ":
                pos = 0; inside = False
                for op in c["ops"]:
                    inside = inside or pos % 8 != 0
                    e = (0, -pos % int(op[3:])) if op.startswith("al:") else enc(op)
                    pos += e[1] if e else 0
                nt = len(c["ops"]) >= 3 and inside
                r.count("capacity sequences" if c["cap"] >= 0 else "write/read sequences")
                for op in c["ops"]:
                    r.count("op " + op.split(":")[0])
                    if not op.startswith("al:") and enc(op) is None:
                        r.count("op to be refused")
            else:
                e = rd_expect(c["bits"], bytes.fromhex(c["data"]), c["ops"])
                nt = len([x for x in e if x not in ("E", "?")]) >= 2
                r.count("raw reads"); r.count("raw reads rejected", e[-1] == "E")
            l = self.line(c)
            r.case(l, nt, sample=l[:200] if nt else None)
        for lang in langs:
            cs = [c for c in cases if self.applicable(lang, c)]
            rep, crash = rtlib.ask(lang, [self.line(c) for c in cs])
            r.count("cases " + lang, len(rep))
            for c, x in zip(cs, rep):
                m = self.judge(c, x)
                if m:
                    r.violate("%s: %s" % (lang, m), lang=lang, case=c, reply=x[:600])
                    break
            if crash:
                c = cs[len(rep)] if len(rep) < len(cs) else cs[-1]
                r.violate("%s: the driver died: %s" % (lang, crash), lang=lang, case=c, crash=True)
        return r

    def replay(self, ctx, v):
        return self.run(ctx, None, [v["case"]], [v["lang"]])

    def shrink(self, ctx, v, deadline):
        c = v["case"]
        def fails(ops):
            rr = self.run(ctx, None, [dict(c, ops=ops)], [v["lang"]])
            return bool(rr.violations)
        if not fails(c["ops"]):
            return v
        ops = rtlib.shrink_list(c["ops"], fails, deadline, time.time)
        rr = self.run(ctx, None, [dict(c, ops=ops)], [v["lang"]])
        return rr.violations[0]


if __name__ == "__main__":
    sys.exit(runner.main(Chk()))
