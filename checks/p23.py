"""P23: float conversions of the three runtimes: exhaustive over float16, boundaries and random patterns of float32/64."""
import struct, time, sys
from common import *
from zsv import rtlib, runner
from zsv.tape import Tape
from zsv.runner import Result
from p22 import half, f2d

NAN = "7ff8000000000000"


def f32(p):
    return struct.unpack(">f", p.to_bytes(4, "big"))[0]


def f16(p):
    return struct.unpack(">e", p.to_bytes(2, "big"))[0]


def bits32(v):
    return int.from_bytes(struct.pack(">f", v), "big")


def d(v):
    return f2d(v) if v == v else NAN


class Chk:
    PROPERTY = "P23"
    NEEDS = ("jrt", "cpp", "rtj", "rtc")
    RULE = "conversion of a pattern other than zero; boundary cases are float32 values at, one below and one above every midpoint of two neighbouring float16 values"
    ASSUMPTIONS = ["which NaN results from a NaN is left open, and so is the result of Python for doubles beyond the float32 range"]
    MIN_NONTRIVIAL = 1000

    def tasks(self, tier, seed):
        t = [["all16", i] for i in range(8)] + [["mid", i] for i in range(8)] + [["rnd", i] for i in range(8 if tier == "quick" else 800)]
        n = 32 if tier == "quick" else 256
        return t + [["blk", i, n] for i in range(n)]

    def gen(self, seed, task, tier):
        """[(operation, pattern, expected)]"""
        k, i = task[0], task[1]
        out = []
        if k == "all16":
            for p in range(i, 65536, 8):
                v = f16(p)
                out.append(("F16", p, d(v)))
                if v == v:
                    out.append(("TF16", int(f2d(v), 16), format(p, "x")))
        elif k == "mid":
            for p in range(i, 0x7c00, 8):
                lo = bits32(f16(p)); hi = bits32(f16(p + 1) if p + 1 < 0x7c00 else 65536.0)
                mid = bits32((f32(lo) + f32(hi)) / 2)
                for m in (mid - 1, mid, mid + 1, lo + 1, hi - 1):
                    for s in (0, 1 << 31):
                        v = f32(m | s)
                        out.append(("TF16", int(f2d(v), 16), format(half(v), "x")))
        else:
            t = Tape(("p23", seed, i))
            for _ in range(1500):
                p = t.bits(32)
                if t.raw(3) == 0:
                    p = t.raw(2) << 31 | t.int(90, 150) << 23 | t.bits(23)
                v = f32(p)
                out.append(("F32", p, d(v)))
                if v == v:
                    out.append(("TF32", int(f2d(v), 16), format(p, "x")))
                    out.append(("TF16", int(f2d(v), 16), format(half(v), "x")))
                else:
                    out.append(("TF16", 0x7ff << 52 | (p >> 31) << 63 | (p & 0x7fffff) << 29, "nan16"))
                    out.append(("TF32", 0x7ff << 52 | (p >> 31) << 63 | (p & 0x7fffff) << 29, "nan32"))
                q = t.bits(64)
                if t.raw(4) == 0:
                    q = t.raw(2) << 63 | t.pick([0, 1, 0x3ff, 0x7fe, 0x7ff]) << 52 | t.pick([0, 1, (1 << 52) - 1, t.bits(52)])
                w = struct.unpack(">d", q.to_bytes(8, "big"))[0]
                out.append(("F64", q, d(w)))
                if w == w:
                    out.append(("TF64", q, format(q, "x")))
                # doubles between float32 values (Python only)
                if w == w and t.raw(2):
                    try:
                        x = t.raw(2) << 63 | t.int(0x380, 0x47e) << 52 | t.bits(52)
                        y = struct.unpack(">d", x.to_bytes(8, "big"))[0]
                        out.append(("pyTF32", x, nearest32(y)))
                    except OverflowError:
                        pass
        return out

    def same(self, op, want, got):
        if want == "nan16":
            v = int(got, 16)
            return v & 0x7c00 == 0x7c00 and v & 0x3ff != 0
        if want == "nan32":
            v = int(got, 16)
            return v & 0x7f800000 == 0x7f800000 and v & 0x7fffff != 0
        if want == NAN and op[0] != "T":
            v = int(got, 16)
            return v & 0x7ff << 52 == 0x7ff << 52 and v & ((1 << 52) - 1) != 0
        return want == got

    def run(self, ctx, task, cases=None, langs=("python", "java", "cpp")):
        r = Result()
        if task and task[0] == "blk":
            return self.block(ctx, task, r)
        if cases is None:
            cases = self.gen(ctx.seed, task, ctx.tier)
        for op, p, want in cases:
            r.case((op, p), p != 0, sample="%s %x -> %s" % (op, p, want))
        r.count(task[0] if task else "replay", len(cases))
        for lang in langs:
            by = {}
            for c in cases:
                if c[0].startswith("py"):
                    if lang == "python":
                        by.setdefault(c[0][2:], []).append(c)
                else:
                    by.setdefault(c[0], []).append(c)
            lines = []; groups = []
            for op in sorted(by):
                l = by[op]
                for i in range(0, len(l), 500):
                    lines.append("%s\t%s" % (op, " ".join(format(c[1], "x") for c in l[i:i + 500]))); groups.append(l[i:i + 500])
            rep, crash = rtlib.ask(lang, lines)
            if crash:
                r.violate("%s: the driver died: %s" % (lang, crash), lang=lang, case=list(groups[len(rep)][0]))
                continue
            for g, x in zip(groups, rep):
                for c, y in zip(g, x.split(" ")):
                    if not self.same(c[0].replace("py", ""), c[2], y):
                        r.violate("%s: %s(%x): expected %s, got %s" % (lang, c[0], c[1], c[2], y), lang=lang, case=list(c), got=y)
                        break
        return r

    def block(self, ctx, task, r):
        """strided (thorough: every) float32 patterns: Java and C++ against the C++ oracle, compared by hash, bisected on a difference"""
        i, n = task[1], task[2]
        size = (1 << 32) // n
        stride = 1 if ctx.tier == "thorough" else 613
        start = i * size + (ctx.seed * 7919 + i * 31) % stride
        cnt = (size - (start - i * size) + stride - 1) // stride
        def hashes(s, c):
            q = "\t%d\t%d\t%d" % (s, stride, c)
            o, c1 = rtlib.ask("cpp", ["F16ORA" + q, "F16BLK" + q], timeout=1200)
            j, c2 = rtlib.ask("java", ["F16BLK" + q], timeout=1200)
            if c1 or c2:
                raise runner.engine.HarnessError(str(c1 or c2))
            return o[0], o[1], j[0]
        o, c, j = hashes(start, cnt)
        r.evals += 2 * cnt
        r.count("float32 patterns in blocks", cnt)
        r.case(("blk", start, stride, cnt), True, sample="block of float32 patterns %x + %d * [0, %d)" % (start, stride, cnt))
        for lang, k in (("cpp", 1), ("java", 2)):
            if (o, c, j)[k] != o:
                s, m = start, cnt
                while m > 1:
                    h = hashes(s, m // 2)
                    if h[k] != h[0]:
                        m = m // 2
                    else:
                        s, m = s + (m // 2) * stride, m - m // 2
                v = f32(s)
                case = ["TF16", int(f2d(v), 16), format(half(v), "x")] if v == v else ["TF16", 0x7ff << 52 | (s >> 31) << 63 | (s & 0x7fffff) << 29, "nan16"]
                r.violate("%s: float32 pattern %08x (%r) converts wrongly to float16" % (lang, s, v), lang=lang, case=case)
                break
        return r

    def replay(self, ctx, v):
        return self.run(ctx, None, [tuple(v["case"])], [v["lang"]])


def nearest32(y):
    """float32 pattern nearest to the double (ties to even), computed from the neighbours"""
    from fractions import Fraction
    b = bits32(0.0)
    e = (int(f2d(y), 16) >> 52 & 0x7ff) - 1023
    s = 1 if y < 0 else 0
    a = Fraction(abs(y))
    u = Fraction(2) ** (max(e, -126) - 23)
    q = a / u
    n = q.__floor__(); r = q - n
    if r > Fraction(1, 2) or (r == Fraction(1, 2) and n & 1):
        n += 1
    p = n if e < -126 else ((e + 126) << 23) + n
    if p >= 0x7f800000:
        raise OverflowError
    return format(s << 31 | p, "x")


if __name__ == "__main__":
    sys.exit(runner.main(Chk()))
