import sys, re, common
from zsv import runner, codec, refcodec, langs
from zsv.tape import Tape
import p03

OK_CLASSES = {
    "cpp": {"ConstraintException", "CppRuntimeException", "St12out_of_range"},
    "java": {"java.io.IOException", "java.io.EOFException", "zserio.runtime.ZserioError", "zserio.runtime.ConstraintError",
             "java.lang.IllegalArgumentException", "java.lang.IndexOutOfBoundsException", "java.lang.ArrayIndexOutOfBoundsException"},
    "py": {"PythonRuntimeException", "IndexError", "ValueError", "UnicodeDecodeError", "EOFError"},
}
OK_CLASSES["pyc"] = OK_CLASSES["py"]


class P07(p03.P03):
    PROPERTY = "P07"
    VARIANT = "san"
    NEEDS = ("jar", "jrt", "jsrv", "san", "pchsan", "pyb")
    NSCHEMAS = {"quick": 60, "thorough": 900}
    NVALS = 3
    PERVAL = 14
    PROFILE = {"array": 50, "packed": 55, "offsets": 15, "indexed": 20, "dyn": 14}
    RULE = ("a case is one mutated, truncated, extended or random byte string read as a root type of a random schema; the C++ reader is "
            "built with AddressSanitizer and UndefinedBehaviorSanitizer and gets an exactly sized heap block; any sanitizer report, "
            "crash, timeout or exception outside the documented ones in any language is a violation; non-trivial: distinct streams that "
            "are not valid encodings themselves")
    ASSUMPTIONS = ["not run: streams that describe more than 5000 array elements in a few bytes, and streams where a schema expression "
                   "divides by zero or overflows its native type"]

    def judge(self, ctx, res, b, cases, task):
        rcs = []
        seen = set()
        for ci, c in enumerate(cases):
            for k in range(self.PERVAL):
                t = Tape((ctx.seed, self.PROPERTY, task, ci, k))
                data, n = p03.mutate(t, c.data, c.start, c.end)
                if n < c.start:
                    continue
                r = p03.RCase(c.d, c.right_tokens[2:], c.o.params, c.start, data, n)
                if r.kind == "skip" and not re.search("maxbit|packed overflow|utf8", str(r.reason)):
                    res.count("not run: " + str(r.reason)[:40]); continue
                if r.line in seen:
                    continue
                seen.add(r.line)
                rcs.append(r)
                res.case((codec.schema_id(b.schema), r.line), r.kind != "value",
                         {"root": c.d.name, "bytes": data.hex()[:80], "reference": r.kind if r.kind == "value" else r.reason},
                         [r.kind if r.kind == "value" else "%s %s" % (r.kind, r.reason)])
        lines = [r.line for r in rcs]
        for lang in b.langs:
            rs, crash = b.run(lang, lines)
            for c, r in zip(rcs, rs):
                if r[0] == "ok":
                    continue
                if r[0] == "err" and r[1] == "read" and len(r) > 2 and r[2].split(" ")[0].split(":")[0] in OK_CLASSES[lang]:
                    res.count("%s: %s" % (lang, r[2].split(" ")[0]))
                    continue
                res.violate("%s: unexpected failure reading %s" % (lang, c.d.name), lang=lang, column="class", expected="value or documented exception",
                            observed="\t".join(r)[:1500], request=c.line[:3000], schema=codec.schema_text(b.schema), task=task)
                break
            if crash and len(rs) < len(lines):
                res.violate("%s: reader crashed" % lang, lang=lang, column="crash", observed=crash[:3000],
                            request=lines[len(rs)][:3000], schema=codec.schema_text(b.schema), task=task)


if __name__ == "__main__":
    sys.exit(runner.main(P07()))
