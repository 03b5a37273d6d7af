import sys, common
from zsv import runner, codec, equiv, refcodec, langs
from zsv.tape import Tape
from zsv.gen import GenFail, ValueGen
from zsv.model import Trap
from zsv.refcodec import Reject, Ambiguous


class P18(codec.SchemaCheck):
    PROPERTY = "P18"
    COLS = ("pos", "hex", "rpos", "dump2")
    NSCHEMAS = {"quick": 100, "thorough": 1600}
    NVALS = 3
    PROFILE = {"offsets": 12, "indexed": 12}
    RULE = ("a case is one value of a root of a random schema that was written in other words (templates with instantiate, subtypes, qualified "
            "names, other packages, another declaration order, other layout and comments), or one value of two types of documented equal "
            "encoding (auto array / varsize and array, auto optional / bool and if, union / varsize and choice, parameter / constant, string, "
            "bytes, extern / length and elements, bool / bit:1, enum / integer); all four codecs have to give the bytes of the reference for the "
            "schema as first written; non-trivial: distinct and more than 8 bits")

    def schema_for(self, seed, idx, choices=None):
        s, out = super().schema_for(seed, idx, choices)
        s.pairs = equiv.add_pairs(Tape((seed, "P18pairs", idx)), s)
        return s, out

    def cases(self, schema, seed, idx):
        cs = super().cases(schema, seed, idx)
        for pi, p in enumerate(schema.pairs):
            for k in range(4):
                try:
                    o = ValueGen(Tape((seed, "P18pv", idx, pi, k)), self.PROFILE).root(p.a)
                    a = codec.WCase(p.a, o, (0, 0, 5, 8)[k])
                    if a.n > 100000:
                        continue
                    x = p.conv(a.o)
                    b = codec.WCase(p.b, x, a.start)
                except (GenFail, Trap, Reject, Ambiguous):
                    continue
                assert a.data == b.data, "the reference disagrees with itself: " + repr((p.classes, a.data.hex(), b.data.hex()))
                a.pair = p.classes
                cs += [a, b]
        schema.allroots = list(schema.roots) + [d for p in schema.pairs for d in (p.a, p.b)]
        return cs

    def bundle(self, ctx, res, schema, task, langset):
        # the roots of pairs are part of the schema that is rewritten
        schema.roots = schema.allroots
        files, alts, stats = equiv.rewrite(Tape((ctx.seed, "P18x", task)), schema)
        for k, n in stats.items():
            res.count("rewritten: " + k, n)
        for fs in (alts, files):
            if fs is None:
                continue
            b = codec.Bundle(ctx.worker, schema, self.OPTS, langset, variant=self.VARIANT, files=fs)
            b.files = fs
            if b.ok:
                res.count("with further instantiations", int(fs is alts))
                return b
            if fs is alts:
                b.close()
        # does the original compile?
        o = codec.Bundle(ctx.worker, schema, self.OPTS, (), variant=self.VARIANT)
        if o.ok:
            res.violate("an equivalent schema is refused by the compiler", lang=None, column="refused", expected="accepted like the original",
                        observed=b.output[-1500:], request="\n".join("// %s\n%s" % x for x in sorted(files.items())),
                        schema=codec.schema_text(schema), task=task)
        o.close()
        return b

    def judge(self, ctx, res, b, cases, task):
        if not b.ok:
            return
        for c in cases:
            for k in getattr(c, "pair", ()):
                res.count("pair with " + k)
        n = len(res.violations)
        codec.run_wcases(res, b, cases, self.COLS, task)
        for v in res.violations[n:]:
            v["schema"] = "\n".join("// %s\n%s" % x for x in sorted(b.files.items()))


if __name__ == "__main__":
    sys.exit(runner.main(P18()))
