"""P12: JSON texts put to the JSON parsers of the four runtimes, and JSON values put to their encoders."""
import re, struct, math, json as pyjson
from common import *
from zsv import rtlib, runner
from zsv.tape import Tape

WS = " \t\n\r"
NUM = re.compile(r"-?\d*(\.\d*)?([eE][+-]?\d*)?", re.A)
STRICT = re.compile(r"-?(0|[1-9]\d*)(\.\d+)?([eE][+-]?\d+)?", re.A)
ESC = {'"': '"', "\\": "\\", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t"}
DEEP = 150


def dhex(v):
    return format(struct.unpack(">Q", struct.pack(">d", v))[0], "x") if v == v else "7ff8000000000000"


class Bad(Exception):
    pass


class Ref:
    """events of a text; may: not strict JSON (or an escape which not every runtime supports): refusing it is right as well"""

    def __init__(self, s):
        self.s = s; self.i = 0; self.may = False; self.ev = []

    def ws(self):
        while self.i < len(self.s) and self.s[self.i] in WS:
            self.i += 1

    def peek(self):
        self.ws()
        return self.s[self.i] if self.i < len(self.s) else ""

    def string(self):
        s = self.s; i = self.i + 1; o = []
        while True:
            if i >= len(s):
                raise Bad
            c = s[i]; i += 1
            if c == '"':
                break
            if c == "\\":
                if i >= len(s):
                    raise Bad
                e = s[i]; i += 1
                if e in ESC:
                    o.append(ESC[e])
                elif e == "/":
                    o.append("/"); self.may = True
                elif e == "u":
                    h = s[i:i + 4]
                    if not re.fullmatch("[0-9a-fA-F]{4}", h):
                        raise Bad
                    i += 4
                    v = int(h, 16)
                    if v >= 0x100:
                        self.may = True
                    if 0xd800 <= v < 0xdc00 and re.match(r"\\u[dD][c-fC-F][0-9a-fA-F]{2}", s[i:i + 6]):
                        v = 0x10000 + ((v & 0x3ff) << 10) + (int(s[i + 2:i + 6], 16) & 0x3ff); i += 6
                    elif 0xd800 <= v < 0xe000:
                        self.lone = True
                    o.append(chr(v))
                else:
                    raise Bad
            else:
                if ord(c) < 0x20:
                    self.may = True
                o.append(c)
        self.i = i
        return "".join(o)

    lone = False

    def scalar(self):
        s = self.s
        for w, e in (("null", "n"), ("true", "t"), ("false", "f"), ("NaN", "dnan"), ("Infinity", "d" + dhex(math.inf)),
                     ("-Infinity", "d" + dhex(-math.inf))):
            if s.startswith(w, self.i):
                self.i += len(w); self.ev.append(e)
                return
        if s[self.i] == '"':
            self.ev.append("s" + self.string().encode("utf-8", "surrogatepass").hex())
            return
        m = NUM.match(s, self.i)
        x = m.group()
        if not STRICT.fullmatch(x):
            self.may = True
        try:
            if m.group(1) is None and m.group(2) is None:
                v = int(x)
                if not -(1 << 63) <= v < 1 << 64:
                    self.may = True
                e = "z" if x == "-0" else "i%d" % v
            else:
                v = float(x)
                if v in (math.inf, -math.inf):
                    self.may = True
                e = "d" + dhex(v)
        except ValueError:
            raise Bad
        self.i = m.end()
        self.ev.append(e)

    def value(self):
        c = self.peek()
        if c == "":
            raise Bad
        if c in "{[":
            self.i += 1
            self.ev.append(c)
            close = "}" if c == "{" else "]"
            if self.peek() == close:
                self.i += 1
            else:
                while True:
                    if c == "{":
                        if self.peek() != '"':
                            raise Bad
                        self.ev.append("k" + self.string().encode("utf-8", "surrogatepass").hex())
                        if self.peek() != ":":
                            raise Bad
                        self.i += 1
                    self.value()
                    n = self.peek()
                    if n == "" or n not in "," + close:
                        raise Bad
                    self.i += 1
                    if n == close:
                        break
            self.ev.append(close)
        else:
            self.scalar()


def reference(text):
    """(events or None, may be refused, not comparable)"""
    r = Ref(text)
    if r.peek() == "":
        return ["$1"], False, False
    try:
        r.value()
        r.ev.append("$1" if r.peek() == "" else "$0")
    except Bad:
        return None, True, r.lone
    return r.ev, r.may or r.ev[-1] == "$0", r.lone


def same(exp, got):
    if len(exp) != len(got):
        return False
    for e, g in zip(exp, got):
        if e == g:
            continue
        if e == "z" and g in ("i0", "d8000000000000000", "d0"):
            continue
        if e == "dnan" and g[0] == "d" and (int(g[1:], 16) & 0x7fffffffffffffff) > 0x7ff0000000000000:
            continue
        return False
    return True


def gstr(t, wide=True):
    out = []
    for _ in range(t.raw(t.pick([2, 6, 30]))):
        k = t.raw(8)
        if k < 4:
            out.append(chr(t.int(32, 126)))
        elif k == 4:
            out.append(t.pick('"\\/\b\f\n\r\t'))
        elif k == 5:
            out.append(chr(t.raw(32)))
        else:
            out.append(chr(t.pick([t.int(0x7f, 0xff), t.int(0x100, 0x7ff), t.int(0x800, 0xd7ff), t.int(0xe000, 0xffff), t.int(0x10000, 0x10ffff),
                                   0xffff, 0x80, 0xff, 0x7f, 0x2028])))
    return "".join(out)


def rstr(t, s):
    o = ['"']
    exotic = t.raw(6) == 0
    for c in s:
        v = ord(c)
        if c in '"\\':
            o.append("\\" + c)
        elif v < 0x20:
            short = {8: "\\b", 12: "\\f", 10: "\\n", 13: "\\r", 9: "\\t"}
            o.append(short[v] if v in short and t.raw(3) else t.pick(["\\u%04x", "\\u%04X"]) % v)
        elif v < 0x80 and t.raw(12) == 0:
            o.append(t.pick(["\\u%04x", "\\u%04X"]) % v)
        elif exotic and t.raw(2):
            if c == "/":
                o.append("\\/")
            elif v < 0x10000:
                o.append(t.pick(["\\u%04x", "\\u%04X"]) % v)
            else:
                v -= 0x10000
                o.append("\\u%04x\\u%04x" % (0xd800 + (v >> 10), 0xdc00 + (v & 0x3ff)))
        else:
            o.append(c)
    return "".join(o) + '"'


def gnum(t):
    k = t.raw(10)
    if k < 5:
        n = t.raw(66)
        v = t.pick([t.bits(n) if n else 0, (1 << n), (1 << n) - 1, (1 << n) + 1])
        v = -v if t.raw(2) else v
        return str(v)
    if k == 5:
        return str(t.pick([(1 << 63) - 1, -(1 << 63), (1 << 63), (1 << 64) - 1, 1 << 64, -(1 << 63) - 1, 10 ** t.int(1, 25), -(10 ** t.int(1, 20)), 0]))
    if k == 6:
        return repr(struct.unpack(">d", ((t.bits(64)) & ~(1 << 62) if t.raw(2) else t.bits(64) & 0xbfffffffffffffff).to_bytes(8, "big"))[0])
    if k == 7:
        return "%s%d.%s%s" % (t.pick(["", "-"]), t.raw(1000), "".join(str(t.raw(10)) for _ in range(t.int(1, 25))), t.pick(["", "e%d" % t.int(-330, 310), "E+%d" % t.raw(300)]))
    if k == 8:
        return "%s%d%s%s%d" % (t.pick(["", "-"]), t.raw(100), t.pick("eE"), t.pick(["", "+", "-"]), t.raw(t.pick([5, 310, 400])))
    return t.pick(["01", "-01", "1.", ".5", "-.5", "1e", "1e+", "-", "-0", "-0.0", "0.0", "+1", "1.e3", "00", "1.2.3", "1e2e3", "1e2.5", "NaN",
                   "Infinity", "-Infinity", "5e-324", "2.4703282292062327e-324", "1.7976931348623157e308", "1.7976931348623159e308", "1e400", "-1e400",
                   "9007199254740993.0", "0x10", "1_000", "--1", "1-", "1e-", "- 1", "Inf", "-NaN", "18446744073709551615.0", "1E5", "1d", "1f", "0e0"])


def gdoc(t, depth, out):
    def ws():
        if t.raw(4) == 0:
            out.append("".join(t.pick(WS) for _ in range(t.int(1, 4))))
    ws()
    k = t.raw(10) if depth else 4 + t.raw(6)
    if k < 2:
        out.append("[")
        n = t.raw(4)
        for i in range(n):
            if i:
                out.append(",")
            gdoc(t, depth - 1, out)
        ws(); out.append("]")
    elif k < 4:
        out.append("{")
        n = t.raw(4)
        for i in range(n):
            if i:
                out.append(",")
            ws(); out.append(rstr(t, gstr(t))); ws(); out.append(":")
            gdoc(t, depth - 1, out)
        ws(); out.append("}")
    elif k == 4:
        out.append(t.pick(["null", "true", "false"]))
    elif k < 7:
        out.append(rstr(t, gstr(t)))
    else:
        out.append(gnum(t))
    ws()


def mutate(t, s):
    for _ in range(t.int(1, 3)):
        if not s:
            return s
        i = t.raw(len(s))
        k = t.raw(7)
        if k == 0:
            s = s[:i] + s[i + 1:]
        elif k == 1:
            s = s[:i] + t.pick('{}[],:"\\ue0-+.1aEnNtfIx/\x00\x0b\u00a0\u0663\u00b2\u2003') + s[i:]
        elif k == 2:
            s = s[:i]
        elif k == 3:
            s = s[:i] + t.pick('{}[],:"\\u019-+.eE ') + s[i + 1:]
        elif k == 4:
            j = t.int(i, min(len(s), i + 6))
            s = s[:j] + s[i:j] + s[j:]
        elif k == 5:
            s = s[:i] + t.pick(["null", "true", "false", "nul", "tru", "\\u12", "\\u+123", "\\u-001", "\\x41", "\\u00g0", "\\u 041", "NaN", "Inf", "[]", "{}", ",,", "//x"]) + s[i:]
        else:
            s = s + t.pick(["]", "}", ",", " 1", "\x00", "x", '"', " []"])
    return s


def strict_depth(s):
    d = m = 0
    for c in s:
        d += (c in "[{") - (c in "]}")
        m = max(m, d)
    return m


class Chk(rtlib.LineCheck):
    PROPERTY = "P12"
    NEEDS = ("jrt", "cpp", "san", "pyb", "rtj", "rtc", "rtsan")
    RULE = "text with at least 3 events, or which the reference refuses after at least one token; encoded string with a character which is escaped or not ASCII"
    ASSUMPTIONS = ["texts are well-formed UTF-8", "nesting up to %d" % DEEP, "texts with lone surrogate escapes are not compared",
                   "number forms beyond JSON (01, 1., .5), raw control characters in strings, integers beyond 64 bits, \\/ and \\u escapes above U+00FF: "
                   "refusing them is accepted, reading them as another value is not",
                   "text behind a complete document: refused by exception or reported as not at the end"]
    MIN_NONTRIVIAL = 1000
    LANGS = ("python", "java", "cpp", "cppsan")

    def tasks(self, tier, seed):
        return list(range(48 if tier == "quick" else 4000))

    def gen(self, seed, task, tier):
        t = Tape(("p12", seed, task))
        cases = []
        for _ in range(220):
            out = []
            k = t.raw(30)
            if k == 0:
                n = t.int(1, DEEP)
                out.append("".join(t.pick("[[{") for _ in range(n)).replace("{", '{"a":'))
                if t.raw(3):
                    op = [c for c in out[0] if c in "[{"]
                    out.append(t.pick(["", "1"]) if op[-1] == "[" else "1")
                    out.append("".join("]" if c == "[" else "}" for c in reversed(op)))
            else:
                gdoc(t, t.raw(5), out)
            s = "".join(out)
            if t.raw(3) == 0:
                s = mutate(t, s)
            cases.append({"k": "J", "t": s})
        for _ in range(1):
            # a token placed across the borders of the readers' input chunks
            out = []
            gdoc(t, 2, out)
            d = "".join(out)
            base = t.pick([8192, 16384, 65536, 65536, 131072])
            pad = base - t.raw(len(d) + 2) - 1
            kind = t.raw(3)
            if kind == 0:
                s = "[" + " " * pad + d + "]"
            elif kind == 1:
                s = '["' + "a" * (pad - 4) + '",' + d + "]"
            else:
                s = "[" + "1," * (pad // 2) + (" " if pad % 2 else "") + d + "]"
            cases.append({"k": "J", "t": s})
        for _ in range(40):
            k = t.raw(4)
            if k < 2:
                cases.append({"k": "JE", "x": "s", "a": gstr(t).encode().hex()})
            elif k == 2:
                n = t.int(1, 63)
                v = t.pick([t.bits(n), (1 << n) - 1, 1 << n - 1, (1 << 63) - 1])
                cases.append({"k": "JE", "x": "i", "a": str(-v - 1 if t.raw(2) else v)})
            else:
                b = t.bits(64)
                v = t.pick([b, b, 0, 1 << 63, 1, 0x7ff << 52, 0xfff << 52, 0x7ff8 << 48, struct.unpack(">Q", struct.pack(">d", t.raw(10 ** 6) / 8))[0],
                            struct.unpack(">Q", struct.pack(">d", float(10 ** t.raw(30))))[0]])
                cases.append({"k": "JE", "x": "d", "a": format(v, "x")})
        for x, a in (("b", "0"), ("b", "1"), ("n", "")):
            cases.append({"k": "JE", "x": x, "a": a})
        return cases

    def line(self, c):
        if c["k"] == "J":
            return "J\t" + c["t"].encode().hex()
        return "JE\t%s\t%s" % (c["x"], c["a"])

    def meta(self, r, c):
        if c["k"] == "J":
            e, may, lone = reference(c["t"])
            r.count("texts")
            r.count("texts which must be refused", e is None)
            r.count("texts which may be refused", e is not None and may)
            r.count("texts which must be read", e is not None and not may)
            r.count("texts over 8 KiB", len(c["t"]) > 8000)
            return (e is None and len(c["t"]) > 1) or (e is not None and len(e) > 3)
        r.count("values encoded")
        return c["x"] != "s" or bool(re.search("[^ !#-\\[\\]-~]", bytes.fromhex(c["a"]).decode()))

    def judge(self, lang, c, reply):
        if c["k"] == "JE":
            return self.judge_enc(c, reply)
        e, may, lone = reference(c["t"])
        if lone:
            return None
        got = reply.split(" ")
        if got[-1].startswith("!"):
            if not re.search("JsonParser(Exception|Error)", got[-1]):
                return "text %s: failed with %s" % (ascii(c["t"])[:300], got[-1][:200])
            if not may:
                return "text %s must be read, got %s" % (ascii(c["t"])[:300], got[-1][:200])
            return None
        if e is None:
            return "text %s must be refused, got %s" % (ascii(c["t"])[:300], reply[:200])
        if not same(e, got):
            d = next((i for i, (a, b) in enumerate(zip(e, got)) if a != b), min(len(e), len(got)))
            return "text %s: event %d: expected %s, got %s" % (ascii(c["t"])[:300], d, " ".join(e[d:])[:120], " ".join(got[d:])[:120])
        return None

    def judge_enc(self, c, reply):
        try:
            txt = bytes.fromhex(reply).decode("utf-8")
        except ValueError:
            return "encoding %s %s: not UTF-8: %s" % (c["x"], c["a"][:200], reply[:200])
        r = Ref(txt)
        try:
            if not txt or txt[0] in WS or txt[-1] in WS or txt[0] in "[{":
                raise Bad
            r.value()
            if r.i != len(txt) or (r.may and c["x"] != "d"):
                raise Bad
        except Bad:
            return "encoding %s %s: not JSON: %s" % (c["x"], c["a"][:200], ascii(txt)[:200])
        a = c["a"]
        want = {"s": lambda: "s" + a, "i": lambda: "i" + a, "b": lambda: "t" if a == "1" else "f", "n": lambda: "n",
                "d": lambda: "dnan" if (int(a, 16) & ((1 << 63) - 1)) > 0x7ff << 52 else "d" + a}[c["x"]]()
        if not same([want], r.ev):
            return "encoding %s %s gave %s" % (c["x"], a[:200], ascii(txt)[:200])
        return None

    def smaller(self, c):
        if c["k"] == "J":
            s = c["t"]
            n = len(s) // 2
            while n >= 1:
                for i in range(0, len(s), n):
                    if n < len(s):
                        yield dict(c, t=s[:i] + s[i + n:])
                if n == 1:
                    break
                n = max(1, n // 4)
        elif c["x"] == "s":
            s = bytes.fromhex(c["a"]).decode()
            for i in range(len(s)):
                yield dict(c, a=(s[:i] + s[i + 1:]).encode().hex())


if __name__ == "__main__":
    sys.exit(runner.main(Chk()))
