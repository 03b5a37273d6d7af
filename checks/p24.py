"""P24: groups of bit buffers in the four runtimes: equality, hash code, order (C++), copies, serialization, reading back."""
from common import *
from zsv import rtlib, refcodec, runner
from zsv.tape import Tape


def norm(n, h):
    d = bytes.fromhex(h)
    return n, (int.from_bytes(d, "big") >> (8 * len(d) - n) if n else 0)


class Chk(rtlib.LineCheck):
    PROPERTY = "P24"
    NEEDS = ("jrt", "cpp", "san", "pyb", "rtj", "rtc", "rtsan")
    RULE = "group with two buffers which are equal but differ in the unused bits or bytes, or which differ in one bit or in the bit size only"
    ASSUMPTIONS = ["negative bit sizes are not generated", "different buffers may share a hash code; equal ones must not have different ones"]
    MIN_NONTRIVIAL = 1000

    def tasks(self, tier, seed):
        return list(range(16 if tier == "quick" else 1500))

    def gen(self, seed, task, tier):
        t = Tape(("p24", seed, task))
        cases = []
        for _ in range(120):
            g = []
            for _ in range(t.int(1, 3)):
                n = t.raw(t.pick([10, 25, 70, 300]))
                d = bytearray(t.bytes((n + 7) // 8))
                if t.raw(3) == 0:
                    d = bytearray(bytes([t.pick([0, 255, 0x80, 1])]) * len(d))
                g.append((n, bytes(d)))
            for _ in range(t.int(1, 5)):
                n, d = t.pick([x for x in g if x[0] <= 8 * len(x[1])])
                k = t.raw(7)
                e = bytearray(d)
                if k == 0:
                    pass
                elif k == 1 and n % 8:
                    i = (n - 1) // 8
                    e[i] ^= t.int(1, (1 << (8 - n % 8)) - 1)
                elif k == 2:
                    e += t.bytes(t.int(1, 3))
                elif k == 3 and n:
                    i = t.raw(n); e[i // 8] ^= 0x80 >> i % 8
                elif k == 4 and n:
                    e[(n - 1) // 8] ^= 0x80 >> (n - 1) % 8
                elif k == 5:
                    n = max(0, n - t.int(1, 9))
                else:
                    n = min(8 * len(e), n + t.raw(9)) if t.raw(3) else 8 * len(e) + t.int(1, 20)
                g.append((n, bytes(e)))
            cases.append({"g": [[n, d.hex()] for n, d in g]})
        return cases

    def line(self, c):
        return "BB\t" + " ".join("%d:%s" % (n, h) for n, h in c["g"])

    def meta(self, r, c):
        ok = [(n, h) for n, h in c["g"] if n <= 4 * len(h)]
        r.count("buffers", len(c["g"])); r.count("construction to be refused", len(c["g"]) - len(ok))
        tw = near = 0
        for i, a in enumerate(ok):
            for b in ok[:i]:
                if norm(*a) == norm(*b):
                    tw += a[1] != b[1]
                elif a[1] == b[1] or (a[0] == b[0] and bin(norm(*a)[1] ^ norm(*b)[1]).count("1") == 1):
                    near += 1
        r.count("equal pairs with different bytes", tw); r.count("pairs one bit or the bit size apart", near)
        return tw + near > 0

    def judge(self, lang, c, reply):
        head, eq, hs, out, lt = reply.split("|")
        want = "".join("1" if n <= 4 * len(h) else "0" for n, h in c["g"])
        if head != want:
            return "construction: expected %s, got %s" % (want, head)
        l = [(n, h) for n, h in c["g"] if n <= 4 * len(h)]
        k = [norm(*x) for x in l]
        m = len(l)
        hs = hs.split(",")[:-1]
        for i in range(m):
            for j in range(m):
                a, b = l[i], l[j]
                if (eq[i * m + j] == "1") != (k[i] == k[j]):
                    return "%r == %r gave %s" % (a, b, eq[i * m + j])
                if k[i] == k[j] and hs[i] != hs[j]:
                    return "%r and %r are equal with hash codes %s and %s" % (a, b, hs[i], hs[j])
                if lt != "-":
                    x, y = lt[i * m + j] == "1", lt[j * m + i] == "1"
                    if x + y + (k[i] == k[j]) != 1:
                        return "order of %r and %r: a<b %d, b<a %d" % (a, b, x, y)
                    for q in range(m):
                        if x and lt[j * m + q] == "1" and lt[i * m + q] != "1":
                            return "order is not transitive: %r %r %r" % (a, b, l[q])
        for i, o in enumerate(out.split(",")[:-1]):
            h, pos, same, bs, by, bits, over = o.split(":")
            n, v = k[i]
            w = refcodec.BitW()
            w.put(1, 3); w.put(*refcodec.varint_enc("varsize", n))
            if n:
                w.put(v, n)
            b, cnt = w.bits()
            exp = [refcodec.bits_to_bytes(b, cnt).hex(), str(cnt), "1", str(n), str((n + 7) // 8), format(v, "0%db" % n) if n else "", "1"]
            got = [h, pos, same, bs, by, bits, over]
            for name, e, g in zip(["bytes", "position", "read back and copies equal", "bit size", "byte size", "bits", "reading past the end refused"], exp, got):
                if e != g:
                    return "%r: %s: expected %s, got %s" % (l[i], name, e[:300], g[:300])
        return None

    def smaller(self, c):
        g = c["g"]
        for i in range(len(g)):
            if len(g) > 1:
                yield {"g": g[:i] + g[i + 1:]}
        for i, (n, h) in enumerate(g):
            if len(h) > 2:
                yield {"g": [[max(0, a - 8), b[2:]] for a, b in g]}
                break


if __name__ == "__main__":
    sys.exit(runner.main(Chk()))
