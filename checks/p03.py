import sys, common
from zsv import runner, codec, refcodec, langs
from zsv.tape import Tape
from zsv.refcodec import Reject, Ambiguous
from zsv.model import Trap


def mutate(t, data, start, nbits):
    """(bytes, nbits) of a mutated stream; bits before start stay 1"""
    v = int.from_bytes(data, "big") >> (-nbits % 8) if data else 0
    n = nbits
    for _ in range(t.weighted([(5, 1), (3, 2), (1, 4)])):
        k = t.raw(8)
        body = n - start
        if k <= 1 and body > 0:                     # flip a bit
            v ^= 1 << t.raw(body)
        elif k == 2 and body > 0:                   # truncate
            c = t.int(1, min(body, t.pick([1, 8, 64, body])))
            v >>= c; n -= c
        elif k == 3:                                # extend
            c = t.pick([1, 3, 8, 16, 40])
            v = v << c | t.bits(c); n += c
        elif k == 4 and body >= 8:                  # overwrite bits with an interesting pattern
            w = t.int(1, min(body, t.pick([8, 16, 64])))
            p = t.raw(body - w + 1)
            m = ((1 << w) - 1) << p
            v = v & ~m | t.pick([0, m, t.bits(w) << p])
        elif k == 5 and body >= 2:                  # remove bits in the middle
            w = t.int(1, min(body - 1, 16)); p = t.raw(body - w)
            v = (v >> (p + w)) << p | v & ((1 << p) - 1); n -= w
        elif k == 6:                                # insert bits
            w = t.int(1, 16); p = t.raw(body + 1)
            v = ((v >> p) << w | t.bits(w)) << p | v & ((1 << p) - 1); n += w
        elif k == 7 and t.chance(30):               # random content
            body = t.pick([8, 16, 32, 64, 100, 200])
            v = ((1 << start) - 1) << body | t.bits(body); n = start + body
    return refcodec.bits_to_bytes(v, n), n


class RCase:
    def __init__(self, d, params_tokens, params, start, data, nbits):
        self.d = d; self.start = start; self.data = data; self.nbits = nbits
        self.line = "R\t%s\t%d\t%d\t%s\t%s" % (langs.gname(d), start, nbits, data.hex(), params_tokens)
        dec = refcodec.Decoder(data, nbits, start)
        try:
            o = dec.compound(d, list(params))
            self.kind = "value"
            self.dump = langs.dump(o); self.pos = dec.r.pos
        except Reject as e:
            self.kind = "reject"; self.reason = e.kind
            if e.kind == "expr" and "index" not in str(e):
                self.kind = "skip"
        except Ambiguous as e:
            self.kind = "skip"; self.reason = str(e)
        except (Trap, RecursionError, OverflowError) as e:
            self.kind = "skip"; self.reason = str(e)

    def mismatch(self, r):
        if self.kind == "value":
            if r[0] != "ok":
                return ("rejected", "value " + self.dump, "\t".join(r))
            if r[1] != str(self.pos):
                return ("pos", str(self.pos), r[1])
            if r[2] != self.dump:
                return ("value", self.dump, r[2])
            return None
        if r[0] == "ok":
            return ("accepted", "rejected (%s)" % self.reason, "\t".join(r))
        if r[0] != "err" or r[1] != "read":
            return ("phase", "rejected by read (%s)" % self.reason, "\t".join(r))
        return None


class P03(codec.SchemaCheck):
    PROPERTY = "P03"
    NVALS = 3
    PERVAL = 10
    STARTS = (0, 0, 3)
    NSCHEMAS = {"quick": 100, "thorough": 1500}
    PROFILE = {"constraint": 20, "offsets": 15, "enum": 25, "union": 28, "choice": 30, "optional": 25}
    RULE = ("a case is one mutated, truncated, extended or random byte string read as a root type of a random schema by four language "
            "runtimes and judged by the reference decoder (value and position, or rejection); streams the guide leaves open are "
            "skipped; non-trivial: distinct, and it differs from every valid stream it was derived from")
    ASSUMPTIONS = ["skipped as unspecified: packed deltas leaving the field type, max bit numbers above 62, invalid UTF-8, negative "
                   "array lengths, division by zero and access to absent fields in expressions"]

    def judge(self, ctx, res, b, cases, task):
        rcs = []
        seen = set()
        for ci, c in enumerate(cases):
            for k in range(self.PERVAL):
                t = Tape((ctx.seed, self.PROPERTY, task, ci, k))
                data, n = mutate(t, c.data, c.start, c.end)
                if (data, n) == (c.data, c.end) or n < c.start:
                    continue
                r = RCase(c.d, c.right_tokens[2:], c.o.params, c.start, data, n)
                if r.kind == "skip":
                    res.count("skipped: " + str(r.reason)[:40]); continue
                if r.line in seen:
                    continue
                seen.add(r.line)
                rcs.append(r)
                res.case((codec.schema_id(b.schema), r.line), True,
                         {"root": c.d.name, "bytes": data.hex()[:80], "expect": r.kind if r.kind == "value" else "reject " + r.reason},
                         [r.kind if r.kind == "value" else "reject " + r.reason])
        lines = [r.line for r in rcs]
        for lang in b.langs:
            rs, crash = b.run(lang, lines)
            for c, r in zip(rcs, rs):
                m = c.mismatch(r)
                if m:
                    res.violate("%s: %s reading %s" % (lang, m[0], c.d.name), lang=lang, column=m[0], expected=m[1][:2000],
                                observed=m[2][:2000], request=c.line[:3000], schema=codec.schema_text(b.schema), task=task)
                    break
            if crash and len(rs) < len(lines):
                res.violate("%s: driver crashed" % lang, lang=lang, column="crash", observed=crash[:3000],
                            request=lines[len(rs)][:3000], schema=codec.schema_text(b.schema), task=task)

    def nontrivial(self, c):
        return False


if __name__ == "__main__":
    sys.exit(runner.main(P03()))
