import sys, common, os, re, time
from zsv import runner, rules, engine
from zsv.gen import SchemaGen, GenFail
from zsv.model import *
from zsv.tape import Tape, shrink as tshrink
import p16

POS = re.compile(r"^\[ERROR\] (.*?):(\d+):(\d+): (.*)$")
TOK = re.compile(r'"(?:\\.|[^"\\\n])*"|/\*.*?\*/|//[^\n]*|@?[A-Za-z_]\w*|\d[\w.]*|\s+|<<|[<>=!]=|&&|\|\||.', re.S)
NAMES = re.compile(r"clash|nvalid (identifier|property name)")      # a name one of the generators cannot express
WORDS = ("align bit bool bitmask bytes case choice const default enum explicit extend extern false float16 float32 float64 function if "
         "implicit import instantiate int int8 int16 int32 int64 lengthof numbits isset valueof on optional package packed publish pubsub return rule "
         "rule_group service sql sql_database sql_table sql_virtual sql_without_rowid string struct subscribe subtype topic true uint8 uint16 "
         "uint32 uint64 union using varint varsize varuint @index @removed @deprecated zserio_compatibility_version").split()
PUNCT = ["{", "}", "(", ")", "[", "]", "<", ">", ";", ":", ",", ".", "=", "+", "-", "*", "/", "%", "&", "|", "^", "~", "!", "?", "==", "&&", "<<",
         ">>", "@", "#", "'", '"', "\\", "$", "/*", "*/", "//", "/**"]
NUMS = ["0", "1", "-1", "255", "256", "2147483647", "2147483648", "9223372036854775807", "9223372036854775808", "18446744073709551615",
        "18446744073709551616", "99999999999999999999999999999999", "0x", "0xFFFFFFFFFFFFFFFFFFFFFF", "08", "1b", "101b", "1.5", "1e400", "1.0e-400f", ".5",
        "1e", "64", "65", "00", "077777777777777777777777777"]
CHARS = ["\x00", "\u00e9", "\ufeff", "\U0001f600", "\r", "\t", "\x0c", "\u2028", "\x7f", "\x1b"]


class P15:
    PROPERTY = "P15"
    NEEDS = ("jar", "jrt", "jsrv")
    NTASKS = {"quick": 400, "thorough": 16000}
    PER = 10
    GENS = ("python", "java", "cpp", "xml", "doc")
    RULE = ("a case is one text (a valid generated schema with one to six random token, character or byte edits, splices of other schemas, "
            "several broken rules at once, extreme numbers and operators in constant expressions, recursion between random types, deep nesting, "
            "or pure noise) given to the compiler with no generator and with all generators; it must either succeed or print an error with a "
            "position inside the text, leave no generated files, not end with an internal error and not exceed 40 s, with the same verdict both "
            "times; non-trivial: distinct texts that differ from a valid schema")
    ASSUMPTIONS = ["names that a generator refuses because of its target language (keyword and clash errors) may differ between generators"]

    def tasks(self, tier, seed):
        return list(range(self.NTASKS[tier]))

    # ---------------------------------------------------------------- inputs
    def base(self, t, n=None):
        """a valid schema: {file: text}, main"""
        out = "package a;\n"
        if t.chance(50):
            try:
                s = SchemaGen(t, {"npkg": ((100, 1),), "ncompounds": (1, 3)}, prefix="a").gen()
                files = render(s)
                if len(files) == 1 and "package a;" in list(files.values())[0]:
                    out = list(files.values())[0]
            except GenFail:
                pass
        for i in range(t.int(1, 3)):
            r = t.pick(rules.RULES)(t) if t.chance(25) else t.pick(rules.RULE_TEXTS)
            g, bads = rules.instance(t, r, 101 + i)
            out += "\n" + g + "\n"
        return out

    def tokens_edit(self, t, text):
        toks = TOK.findall(text)
        idx = [i for i, x in enumerate(toks) if not x.isspace()]
        ids = sorted({toks[i] for i in idx if re.match(r"[A-Za-z_]\w*$", toks[i])})
        for _ in range(t.weighted(((4, 1), (3, 2), (2, 4), (1, 8)))):
            i = t.pick(idx)
            k = t.raw(9)
            if k == 0:
                toks[i] = ""
            elif k == 1:
                toks[i] = toks[i] + " " + toks[i]
            elif k == 2:
                j = t.pick(idx); toks[i], toks[j] = toks[j], toks[i]
            elif k == 3:
                toks[i] = t.pick(WORDS)
            elif k == 4:
                toks[i] = t.pick(PUNCT)
            elif k == 5:
                toks[i] = t.pick(NUMS)
            elif k == 6 and ids:
                same = [j for j in idx if re.match(r"[A-Za-z_]\w*$", toks[j])]
                if same:
                    toks[t.pick(same)] = t.pick(ids)
            elif k == 7:
                j = min(len(toks), i + t.int(1, 12)); seg = toks[i:j]
                p = t.pick(idx); toks[p] = toks[p] + " " + "".join(seg)
            else:
                j = min(len(toks), i + t.int(1, 15))
                for q in range(i, j):
                    toks[q] = ""
        return "".join(toks)

    def chars_edit(self, t, text):
        for _ in range(t.int(1, 4)):
            i = t.raw(len(text) + 1)
            k = t.raw(4)
            if k == 0:
                text = text[:i] + text[i + t.int(1, 20):]
            elif k == 1:
                text = text[:i] + t.pick(CHARS + PUNCT) + text[i:]
            elif k == 2:
                text = text[:i] + t.pick(["/* ", "/** ", '"', "/*! ", "/*!\n**md*\n"]) + text[i:]
            else:
                text = text[:i]
        return text

    def wild_expr(self, t, d):
        if d <= 0 or t.chance(15):
            return t.pick(NUMS[:11] + ["true", '"x"', "K1", "K2", "E1.A", "M1.A", "f1", "E1.Z", "p1", "@index", "lengthof(f2)", "f2[1]", "f3.q"])
        k = t.raw(6)
        w = lambda: self.wild_expr(t, d - 1)
        if k == 0:
            return t.pick(["-", "+", "~", "!"]) + w()
        if k == 1:
            return "(%s ? %s : %s)" % (w(), w(), w())
        if k == 2:
            return "%s(%s)" % (t.pick(["numbits", "lengthof", "valueof"]), w())
        if k == 3:
            return "isset(%s, %s)" % (w(), w())
        return "(%s %s %s)" % (w(), t.pick(["+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "==", "<", "&&", "||", "!=", "/", "%", "<<"]), w())

    def wild(self, t):
        """constant expressions with extreme values at every place that evaluates them"""
        x = lambda: self.wild_expr(t, t.int(1, 3))
        num = lambda: "(%s %s %s)" % (t.pick(NUMS[:11] + ["K1", "K2", "numbits(0)"]), t.pick(["/", "%", "<<", ">>", "*", "-", "+", "&", "|", "^"]),
                                      t.pick(NUMS[:11] + ["K1", "(K1 - K1)", "numbits(0)", "(1 - 1)", "-5", "100000", "2000000000"]))
        e = lambda: x() if t.chance(45) else num()
        parts = ["const uint8 K1 = 5;", "const int64 K2 = %s;" % (e() if t.chance(30) else "-7"), "enum uint8 E1 { A, B = 3, C };",
                 "bitmask uint8 M1 { A, B };"]
        for _ in range(t.int(1, 3)):
            parts.append(t.pick([
                lambda: "const %s C%d = %s;" % (t.pick(["uint8", "int64", "uint64", "varuint", "float64", "bool", "string"]), t.raw(1000), e()),
                lambda: "enum %s EE%d { A = %s, B };" % (t.pick(["uint8", "int64", "uint64", "varuint"]), t.raw(1000), e()),
                lambda: "bitmask %s MM%d { A = %s, B };" % (t.pick(["uint8", "uint64", "varuint"]), t.raw(1000), e()),
                lambda: "struct S%d { uint8 f1; bit<%s> a; };" % (t.raw(1000), e()),
                lambda: "struct S%d { uint8 f1; uint8 f2[%s]; };" % (t.raw(1000), e()),
                lambda: "struct S%d { uint8 f1; packed int16 f2[%s]; };" % (t.raw(1000), e()),
                lambda: "struct S%d { uint8 f1; align(%s): uint8 g; };" % (t.raw(1000), e()),
                lambda: "struct S%d { uint8 f1 = %s; uint8 g : %s; };" % (t.raw(1000), e(), e()),
                lambda: "struct S%d { uint8 f1; uint8 g if %s; uint8 h[]; };" % (t.raw(1000), e()),
                lambda: "struct S%d { uint8 f1; %s: uint8 g; };" % (t.raw(1000), e()),
                lambda: "choice S%d(int32 p1) on %s { case %s: uint8 a; case %s: ; default: string b; };" % (t.raw(1000), e() if t.chance(40) else "p1", e(), e()),
                lambda: "struct S%d { uint8 f1; function int64 g() { return %s; } };" % (t.raw(1000), e()),
                lambda: "struct PP%d(int32 p1) { uint8 f1[p1]; }; struct S%d { PP%d(%s) a; };" % ((lambda n: (n, n, n, e()))(t.raw(1000))),
                lambda: 'sql_table S%d { uint32 id sql %s; };' % (t.raw(1000), e()),
                lambda: "pubsub S%d { topic(%s) E1 m; };" % (t.raw(1000), e()),
                lambda: "rule_group S%d { rule %s; };" % (t.raw(1000), e()),
            ])())
        if t.chance(30):
            t2 = parts[4:]; parts = t2 + parts[:4]
        return "package a;\n" + "\n".join(parts) + "\n"

    def cyclic(self, t):
        """types, subtypes, constants, functions and templates that refer to each other at random"""
        n = t.int(2, 5)
        out = []
        name = lambda: "T%d" % t.raw(n)
        for i in range(n):
            k = t.raw(9)
            if k == 0:
                out.append("subtype %s T%d;" % (name(), i))
            elif k == 1:
                out.append("union T%d { %s }; " % (i, " ".join("%s f%d%s;" % (name(), j, t.pick(["", "[]"])) for j in range(t.int(1, 2)))))
            elif k == 2:
                out.append("choice T%d(bool b) on b { case true: %s f; case false: %s g[]; };" % (i, name(), name()))
            elif k == 3:
                out.append("const T%d0 T%d = T%d;" % (t.raw(n), i, t.raw(n)) if t.raw(2) else "const uint8 T%d = T%d + 1;" % (i, t.raw(n)))
            elif k == 4:
                out.append("struct T%d<X> { X x; %s f%s; };" % (i, t.pick([name(), name() + "<X>", name() + "<uint8>"]), t.pick(["", "[]"])))
            elif k == 5:
                out.append("instantiate %s<%s> T%d;" % (name(), t.pick(["uint8", name()]), i))
            elif k == 6:
                out.append("struct T%d { uint8 a; %s f; function uint8 g() { return %s; } function uint8 h() { return %s; } };" % (
                    i, name(), t.pick(["h()", "f.g()", "a", "g()"]), t.pick(["g()", "f.h()", "a"])))
            else:
                out.append("struct T%d%s { %s };" % (i, t.pick(["", "", "(%s p)" % name()]), " ".join(
                    "%s %s%s f%d%s;" % (t.pick(["", "", "optional", "extend"]), name(), t.pick(["", "", "(f0)", "<uint8>"]), j, t.pick(["", "[]", "[2]"]))
                    for j in range(t.int(1, 3)))))
        if t.chance(30):
            out.append("sql_table Q { %s a; %s b; };" % (name(), name()))
        return "package a;\n" + "\n".join(out) + "\n"

    def deep(self, t):
        n = t.pick([30, 120, 400])
        k = t.raw(9)
        if k > 5:           # every type refers twice to the next one
            m = t.int(20, 60)
            kind = t.pick(["struct T%d { T%d a; T%d b; };\n", "union T%d { T%d a; T%d b; };\n", "struct T%d { packed T%d a[]; optional T%d b; };\n",
                           "struct T%d { T%d a[2]; T%d b; uint8 c = 4; };\n"])
            last = t.pick(["struct T%d { uint8 a; };\n", "struct T%d { string a; bytes b; };\n", "struct T%d { uint8 a; extend uint8 b; };\n"]) % m
            return "package a;\n" + "".join(kind % (i, i + 1, i + 1) for i in range(m)) + last
        if k == 0:
            return "package a;\nconst uint8 K = %s1%s;\n" % ("(" * n, ")" * n)
        if k == 1:
            return "package a;\nconst bool K = %strue;\n" % ("!" * n)
        if k == 2:
            return "package a;\nconst int32 K = %s1;\n" % ("1 + " * n)
        if k == 3:
            return "package a;\n" + "".join("subtype T%d T%d;\n" % (i + 1, i) for i in range(n)) + "subtype uint8 T%d;\n" % n
        if k == 4:
            return "package a;\n" + "".join("struct T%d { T%d a; };\n" % (i, i + 1) for i in range(min(n, 150))) + "struct T%d { uint8 a; };\n" % min(n, 150)
        return "package a;\nstruct T<X> { X x; };\nstruct U { %suint8%s u; };\n" % ("T<" * 20, " >" * 20)

    def text(self, t):
        """(kind, bytes)"""
        k = t.weighted(((34, "tokens"), (10, "chars"), (20, "wild"), (14, "cyclic"), (10, "rules"), (3, "deep"), (5, "bytes"), (4, "noise")))
        if k == "tokens":
            x = self.tokens_edit(t, self.base(t))
        elif k == "chars":
            x = self.chars_edit(t, self.base(t))
        elif k == "wild":
            x = self.wild(t)
        elif k == "cyclic":
            x = self.cyclic(t)
        elif k == "rules":
            x = "package a;\n"
            for i in range(t.int(2, 4)):
                g, bads = rules.instance(t, t.pick(rules.RULES)(t) if t.chance(30) else t.pick(rules.RULE_TEXTS), 101 + i)
                x += (t.pick(bads) if bads and t.chance(60) else g) + "\n"
        elif k == "deep":
            x = self.deep(t)
        elif k == "noise":
            x = "package a;\n" * t.raw(2) + " ".join(t.pick(t.pick([WORDS, PUNCT, NUMS, ["a", "b", "T", '"x"', "\n", "/* x", "*/"]])) for _ in range(t.int(1, 60)))
        else:
            b = bytearray(self.base(t).encode("utf-8"))
            for _ in range(t.int(1, 5)):
                i = t.raw(len(b)); b[i] = t.raw(256)
            return k, bytes(b)
        return k, x.encode("utf-8", "replace")

    # ---------------------------------------------------------------- oracle
    def compile(self, ctx, data, gens):
        pr = ctx.worker.project()
        try:
            pr.write({"a.zs": data})
            t0 = time.time()
            args = []
            try:
                ok, out = pr.compile("a.zs", langs_=gens, opts=("-allowImplicitArrays",), timeout=45)
            except engine.Crash as e:
                return None, str(e), [], time.time() - t0
            left = [os.path.join(r, x)[len(pr.dir):] for g in ("py", "java", "cpp", "xml", "doc") for r, d, fs in os.walk(os.path.join(pr.dir, g))
                    for x in fs]
            return ok, out.replace(pr.dir + "/zs/", ""), left, time.time() - t0
        finally:
            pr.clean()

    def judge(self, ctx, data):
        """(None or (column, message, observed), verdict)"""
        nl = data.replace(b"\r\n", b"\n").replace(b"\r", b"\n").count(b"\n") + 1
        verdicts = []
        clash = False
        for gens in ((), self.GENS):
            ok, out, left, dt = self.compile(ctx, data, gens)
            if ok is None or dt > 40:
                return ("hang", "no answer within 40 s (%s)" % out[:100], out), None
            verdicts.append(ok)
            if "Internal error" in out or re.search(r"\n\s+at zserio\.", out) or "Exception" in re.sub(r'"[^"\n]*"|\'[^\'\n]*\'', "", out):
                return ("internal", "internal error", out), None
            if "FreeMarker" in out or "evaluated to null" in out or ("Generator:" in out and not NAMES.search(out)):
                return ("generator", "generator failed", out), None
            if not ok:
                clash = clash or bool(NAMES.search(out))
                errs = [m for m in map(POS.match, out.split("\n")) if m]
                if not errs:
                    if gens and clash:
                        continue
                    return ("position", "refused without an error position", out), None
                for m in errs:
                    if m.group(1) != "a.zs" or not 1 <= int(m.group(2)) <= nl + 1:
                        if "Source file" in m.group(4) or "mport" in m.group(4):
                            continue
                        return ("position", "error position outside of the text", out), None
                if left:
                    return ("left", "refused but generated %s" % left[:3], out), None
        if verdicts[0] != verdicts[1] and not clash:
            return ("verdict", "verdict depends on the generators: none: %s all: %s" % tuple(verdicts), out), None
        return None, verdicts[1]

    def run(self, ctx, task):
        res = runner.Result()
        for k in range(self.PER):
            t = Tape((ctx.seed, "P15", task, k))
            try:
                kind, data = self.text(t)
            except GenFail:
                continue
            bad, verdict = self.judge(ctx, data)
            res.case(data, True, {"kind": kind, "text": data.decode("utf-8", "replace")[:160], "verdict": verdict},
                     ["%s: %s" % (kind, {True: "accepted", False: "refused", None: "violation"}[verdict])])
            if bad:
                res.violate("%s: %s" % (kind, bad[1]), column=bad[0], kind=kind, observed=bad[2][:3000], text=data.decode("latin-1"), task=task)
                if bad[0] == "hang":
                    ctx.fresh()
        return res

    def shrink(self, ctx, v, deadline):
        """removes lines, then tokens, while the same kind of failure remains"""
        data = v["text"].encode("latin-1")
        stop = time.time() + (deadline - time.time()) * 0.8

        def fails(x):
            b, _ = self.judge(ctx, x)
            return b if b and b[0] == v["column"] else None
        parts = TOK.findall(data.decode("latin-1"))
        step = max(1, len(parts) // 2)
        best = None
        while step >= 1 and time.time() < stop:
            i = 0
            changed = False
            while i < len(parts) and time.time() < stop:
                cand = parts[:i] + parts[i + step:]
                b = fails("".join(cand).encode("latin-1"))
                if b:
                    parts = cand; best = b; changed = True
                else:
                    i += step
            if step == 1 and not changed:
                break
            step = step // 2 if step > 1 else (1 if changed else 0)
        x = "".join(parts)
        b = fails(x.encode("latin-1"))
        if b:
            v.update(text=x, observed=b[2][:3000])
        return v

    def replay(self, ctx, v):
        r = runner.Result()
        b, _ = self.judge(ctx, v["text"].encode("latin-1"))
        if b:
            r.violate(b[1], column=b[0], observed=b[2][:2000])
        return r


if __name__ == "__main__":
    sys.exit(runner.main(P15()))
