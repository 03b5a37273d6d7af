import sys, common
from zsv import runner, codec, refcodec, langs
from zsv.tape import Tape
from zsv.refcodec import Reject, Ambiguous
from zsv.model import Trap


class P05(codec.SchemaCheck):
    PROPERTY = "P05"
    COLS = ("end", "size", "pos", "hex", "rpos", "dump2", "same")
    STARTS = (0, 8, 3, 16, 1)
    NVALS = 6
    NSCHEMAS = {"quick": 90, "thorough": 1200}
    PROFILE = {"offsets": 75, "indexed": 55, "align": 45, "array": 45, "packed": 35, "extended": 8, "param_offset": 25, "exprdepth": 1}
    RULE = ("a case is a random value of a random schema rich in alignments, offsets and indexed offsets, given with wrong offsets and "
            "written after initializeOffsets from five start bits (bytes and positions compared with the reference), the same object "
            "written without initializeOffsets (must be refused when any offset is wrong, accepted when all are right), and the stream "
            "with one offset changed read (must be refused); non-trivial: distinct and the value has at least one offset or alignment gap")

    def nontrivial(self, c):
        return bool(c.slots) or codec.has_align(c.d)

    def judge(self, ctx, res, b, cases, task):
        codec.run_wcases(res, b, cases, self.COLS, task)
        if res.violations:
            return
        lines = []
        for ci, c in enumerate(cases):
            if not c.slots:
                continue
            t = Tape((ctx.seed, self.PROPERTY, task, "tamper", ci))
            lines.append((c, "right", "N\t%s\t%d\t%s" % (langs.gname(c.d), c.start, c.right_tokens)))
            right = [refcodec.slot_get(s) for s in c.slots]
            for _ in range(2):
                k = t.raw(len(c.slots))
                s = c.slots[k]; x = right[k]
                bits = codec.slot_bits(c, s)
                y = t.pick([0, x ^ 1, x + 1, max(0, x - 1), x ^ (1 << t.raw(bits)), x + 8])
                if y == x or y >= (1 << bits):
                    y = x ^ 1
                if y >= (1 << bits):
                    continue
                refcodec.slot_set(s, y)
                try:
                    lines.append((c, "wrong", "N\t%s\t%d\t%s" % (langs.gname(c.d), c.start, langs.build_tokens(c.o))))
                    try:
                        e = refcodec.Encoder(c.start)
                        e.compound(c.o)
                        v, n = e.w.bits()
                        data = refcodec.bits_to_bytes(((1 << c.start) - 1) << n | v, c.start + n)
                        refcodec.Decoder(data, c.start + n, c.start).compound(c.d, list(c.o.params))
                        res.count("tampered stream still valid")
                    except Reject as ex:
                        if ex.kind == "offset":
                            lines.append((c, "read", "R\t%s\t%d\t%d\t%s\t%s" % (langs.gname(c.d), c.start, c.start + n, data.hex(),
                                                                              c.right_tokens[2:])))
                    except (Ambiguous, Trap, AssertionError):
                        res.count("tampered stream out of scope")
                finally:
                    refcodec.slot_set(s, x)
        for c, kind, line in lines:
            res.case((codec.schema_id(b.schema), line), True, None, ["offset case: " + kind])
        for lang in b.langs:
            rs, crash = b.run(lang, [l[2] for l in lines])
            for (c, kind, line), r in zip(lines, rs):
                bad = None
                if kind == "right":
                    m = c.mismatch(["ok", str(c.end)] + r[2:] if r[0] == "ok" else r, ("pos", "hex"))
                    if m:
                        bad = m
                elif r[0] == "ok" or (kind == "wrong" and r[1] not in ("write",)):
                    bad = ("wrong offset " + kind, "refused in %s" % kind, "\t".join(r)[:1000])
                if bad:
                    res.violate("%s: %s (%s)" % (lang, bad[0], kind), lang=lang, column=kind, expected=bad[1], observed=bad[2],
                                request=line[:2000], schema=codec.schema_text(b.schema), task=task)
                    break


if __name__ == "__main__":
    sys.exit(runner.main(P05()))
