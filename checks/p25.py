"""P25: histories on the containers of the C++ runtime, against models of what the standard containers do."""
from common import *
import struct, time
from zsv import engine, build, runner, rtlib
from zsv.tape import Tape


def ask(lines, timeout=300):
    return engine.run_lines([build.rt_containers()], lines, env={"ASAN_OPTIONS": "detect_leaks=1", "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=1"}, timeout=timeout)


# ------------------------------------------------------------------------------------------------------------- histories of holders
OWN = object()
OVERWRITE = ("reset", "set", "setm", "copy", "move", "ncopy", "nmove", "ccopy", "cmove", "cncopy", "cnmove", "acopy", "amove", "prop", "val", "valm", "nval", "args", "null")


class Unspec:
    """value of a slot after it was moved from or an operation on it failed: anything which is valid"""
    def __repr__(self):
        return "?"


U = Unspec()


class OptModel:
    """three optional holders: state None / (value, marks) / U; resource of each (None: no resource)"""
    def __init__(self, kind):
        self.kind = kind            # i in place, s std::allocator, a polymorphic (stays), p polymorphic (propagates)
        self.s = [None] * 3
        self.r = [0, 1, 2] if kind in "ap" else ["-"] * 3

    def enabled(self, op, i, j, x):
        s = self.s
        if op in ("copy", "move", "ncopy", "nmove", "ccopy", "cmove", "cncopy", "cnmove", "acopy", "amove", "prop", "cmp") and s[j] is U:
            return False
        if op in ("ccopy", "cmove", "cncopy", "cnmove", "acopy", "amove", "prop") and i == j:
            return False
        if op in ("mod", "modp", "modv", "get", "cmp", "self", "selfm") and s[i] is U:
            return False
        if op in ("self", "selfm") and s[i] is None:
            return False
        return True

    def step(self, op, i, j, x):
        """expected reply; changes the state"""
        s, r, k = self.s, self.r, self.kind
        dyn = k in "ap"
        cp = lambda v, noinit=False: v if v is None else (v[0], {1} if noinit else {0})
        if op in ("reset", "null"):
            s[i] = None
        elif op in ("set", "setm", "val", "valm"):
            s[i] = (x, {0})
        elif op == "nval":
            s[i] = (x, {1})
        elif op == "args":
            s[i] = (x + 1, {0})
        elif op in ("self", "selfm"):
            s[i] = U if op == "selfm" else (s[i][0], {0} | s[i][1])
        elif op in ("copy", "ncopy", "ccopy", "cncopy", "acopy", "prop"):
            if i != j:
                s[i] = cp(s[j], op in ("ncopy", "cncopy"))
        elif op in ("move", "nmove", "cmove", "cnmove", "amove"):
            if i != j:
                v = s[j]
                s[i] = None if v is None else (v[0], v[1] | ({1} if op[0] == "n" or op == "cnmove" else {0}))
                s[j] = U if v is not None else None
        elif op in ("mod", "modp", "modv"):
            if s[i] is None:
                return "X"
            s[i] = (x, s[i][1])
        elif op == "get":
            if s[i] is None:
                return "X"
            return ("get", s[i])
        elif op == "cmp":
            a, b = s[i], s[j]
            eq = a[0] == b[0] if a and b else a is None and b is None
            lt = a[0] < b[0] if a and b else a is None and b is not None
            gt = a[0] > b[0] if a and b else a is not None and b is None
            return "%d%d%d%d" % (eq, lt, gt, a is not None)
        if dyn:
            if op in ("val", "valm", "nval", "args", "null", "acopy", "amove", "prop"):
                r[i] = x % 3
            elif op in ("ccopy", "cncopy"):
                r[i] = r[j] if k == "p" else 0
            elif op in ("cmove", "cnmove"):
                r[i] = r[j]
            elif op in ("copy", "ncopy", "move", "nmove") and k == "p":
                r[i] = r[j]
        return "."

    def match_slot(self, i, text):
        v, _, res = text.rpartition("@")
        if res != str(self.r[i]):
            return "slot %d: resource %s, expected %s" % (i, res, self.r[i])
        e = self.s[i]
        if e is U:
            return None
        if e is None:
            return None if v == "_" else "slot %d: %s, expected no value" % (i, v)
        if v.rstrip("'") != str(e[0]) or (1 if v.endswith("'") else 0) not in e[1]:
            return "slot %d: %s, expected %d%s" % (i, v, e[0], "'" if e[1] == {1} else "")
        return None

    def match_reply(self, want, got):
        if isinstance(want, tuple):
            v, marks = want[1]
            p = got.split(",")
            ok = len(p) == 3 and p[0] == p[2] and p[1] == str(v) and p[0].rstrip("'") == str(v) and (1 if p[0].endswith("'") else 0) in marks
            return None if ok else "%s, expected %s" % (got, v)
        return None if want == got else "%s, expected %s" % (got, want)

    def failed(self, op, i, j, x):
        """the operation threw: the source of a copy keeps its value, the target holds anything valid"""
        s = self.s
        mv = op in ("move", "nmove", "cmove", "cnmove", "amove")
        if i != j or not op.endswith("copy"):
            s[i] = U
        if mv and i != j and s[j] is not None:
            s[j] = U
        if op in ("ccopy", "cmove", "cncopy", "cnmove", "acopy", "amove", "prop", "val", "valm", "nval", "args", "null"):
            s[i] = None
            if self.kind in "ap":
                self.r[i] = i
        elif self.kind == "p" and op in ("copy", "ncopy", "move", "nmove"):
            return True                     # the resource may be the old or the new one
        return False


def marks(v):
    return v


class AnyModel(OptModel):
    """value: (type, value, marks)"""
    def __init__(self, kind):
        super().__init__(kind)

    def enabled(self, op, i, j, ty, x):
        s = self.s
        if op in ("copy", "move", "ncopy", "nmove", "ccopy", "cmove", "cncopy", "cnmove", "acopy", "amove", "nacopy", "namove", "prop") and s[j] is U:
            return False
        if op in ("ccopy", "cmove", "cncopy", "cnmove", "acopy", "amove", "nacopy", "namove", "prop") and i == j:
            return False
        if op == "prop" and (s[j] is not None and s[j][0] != ty):
            return False
        if op in ("mod", "get", "self") and s[i] is U:
            return False
        return True

    def step(self, op, i, j, ty, x):
        s, r, k = self.s, self.r, self.kind
        dyn = k in "ap"
        mk = lambda noinit=False: {1} if noinit and ty < 4 else {0}
        val = (x if ty < 5 else chr(97 + x % 26) * (x % 40))
        if op == "reset":
            s[i] = None
        elif op in ("set", "setm", "asg", "val", "valm"):
            s[i] = (ty, val, {0})
        elif op in ("nset", "nsetm", "nval"):
            s[i] = (ty, val, {0, 1} if ty < 4 else {0})
        elif op == "self":
            if s[i] is not None and s[i][0] == ty:
                s[i] = (ty, s[i][1], {0} | s[i][2])
        elif op in ("copy", "ncopy", "ccopy", "cncopy", "acopy", "nacopy", "prop"):
            if i != j:
                v = s[j]
                s[i] = v if v is None else (v[0], v[1], {1} if op in ("ncopy", "cncopy", "nacopy") and v[0] < 4 else {0})
        elif op in ("move", "nmove", "cmove", "cnmove", "amove", "namove"):
            if i != j:
                v = s[j]
                s[i] = None if v is None else (v[0], v[1], v[2] | ({1} if op in ("nmove", "cnmove", "namove") and v[0] < 4 else {0}))
                s[j] = U if v is not None else None
        elif op == "mod":
            if s[i] is None or s[i][0] != ty:
                return ".X"
            s[i] = (ty, val, {0})
        elif op == "get":
            ok = s[i] is not None and s[i][0] == ty
            return "1v" if ok else "0X"
        if dyn:
            if op in ("val", "valm", "nval", "acopy", "amove", "nacopy", "namove", "prop"):
                r[i] = x % 3
            elif op in ("ccopy", "cncopy"):
                r[i] = r[j] if k == "p" else 0
            elif op in ("cmove", "cnmove"):
                r[i] = r[j]
            elif op in ("copy", "ncopy", "move", "nmove") and k == "p":
                r[i] = r[j]
        return "."

    def match_slot(self, i, text):
        v, _, res = text.rpartition("@")
        if res != str(self.r[i]):
            return "slot %d: resource %s, expected %s" % (i, res, self.r[i])
        e = self.s[i]
        if e is U:
            return None
        if e is None:
            return None if v == "_" else "slot %d: %s, expected no value" % (i, v)
        m = v.endswith("'") and e[0] < 4
        w = "%d:%s" % (e[0], e[1])
        if (v[:-1] if m else v) != w or (1 if m else 0) not in e[2]:
            return "slot %d: %s, expected %s%s" % (i, v, w, "'" if e[2] == {1} else "")
        return None

    def failed(self, op, i, j, ty, x):
        s = self.s
        mv = op in ("move", "nmove", "cmove", "cnmove", "amove", "namove")
        if i != j or not op.endswith("copy"):
            s[i] = U
        if mv and i != j and s[j] is not None:
            s[j] = U
        if op in ("ccopy", "cmove", "cncopy", "cnmove", "acopy", "amove", "nacopy", "namove", "prop", "val", "valm", "nval"):
            s[i] = None
            if self.kind in "ap":
                self.r[i] = i
        elif self.kind == "p" and op in ("copy", "ncopy", "move", "nmove"):
            return True
        return False


OPT_OPS = list(OVERWRITE) + ["self", "mod", "modp", "modv", "get", "cmp", "set", "copy", "move"]
ANY_OPS = ["reset", "set", "setm", "asg", "nset", "nsetm", "copy", "move", "ncopy", "nmove", "ccopy", "cmove", "cncopy", "cnmove", "acopy", "amove", "nacopy", "namove", "prop",
           "val", "valm", "nval", "self", "get", "get", "mod", "set", "copy"]
VEC_OPS = ["push", "emp", "pop", "ins", "era", "clear", "shrink", "reserve", "resize", "copy", "move", "ccopy", "cmove", "acopy", "amove", "prop", "swap", "push", "push", "ins"]


def reply_parts(text):
    """[(reply, [slot texts])]"""
    out = []
    for p in text.split("]")[:-1]:
        r, _, rest = p.partition("[")
        out.append((r, rest.split(" ")[:-1]))
    return out


class Chk:
    PROPERTY = "P25"
    NEEDS = ("cont",)
    RULE = ("a case is one history on three holders (optional in place or on the heap, any) or vectors, or one group of questions to a view, span, conversion or exception text; "
            "non-trivial: the history has a copy or move between slots which hold values, or a failing construction; a view question whose answer is not `nothing`")
    ASSUMPTIONS = ["a holder which was moved from, and one whose assignment failed, holds anything valid",
                   "StringView: searching for none of the characters of an empty string has the answer `nothing` (the runtime's tests say so)",
                   "out-of-range arguments of spans and of remove_prefix/suffix are not generated (undefined in the standard too)"]
    MIN_NONTRIVIAL = 500

    def tasks(self, tier, seed):
        n = 10 if tier == "quick" else 600
        return [(k, i) for i in range(n) for k, m in (("opt", 16), ("any", 12), ("vec", 4), ("view", 6), ("misc", 3)) for i in range(i * m, i * m + m)]

    # --- generation
    def gen(self, seed, task):
        t = Tape(("p25", seed, task))
        kind = task[0]
        out = []
        for _ in range({"opt": 60, "any": 60, "vec": 40, "view": 150, "misc": 60}[kind]):
            if kind == "opt":
                k, ty = t.pick("iisapp"), t.raw(4)
                m = OptModel(k)
                ops = []
                for _ in range(t.int(2, 25)):
                    op, i, j, x = t.pick(OPT_OPS), t.raw(3), t.raw(3), t.raw(50)
                    if t.chance(50) and op not in ("reset", "null"):
                        if m.s[j] is None or m.s[j] is U:
                            j = next((q for q in range(3) if m.s[q] not in (None, U)), j)
                    if not m.enabled(op, i, j, x):
                        continue
                    cd = t.raw(4) if t.chance(12) else -1
                    ops.append([op, i, j, x, cd])
                    if cd >= 0:
                        # whether it fails is seen in the reply: what follows must not depend on it
                        m.failed(op, i, j, x); m.s[i] = U
                        if op in ("move", "nmove", "cmove", "cnmove", "amove"):
                            m.s[j] = U
                    else:
                        m.step(op, i, j, x)
                out.append({"k": "OPT", "h": k + str(ty), "ops": ops})
            elif kind == "any":
                k = t.pick("sapp")
                m = AnyModel(k)
                ops = []
                for _ in range(t.int(2, 25)):
                    op, i, j, ty, x = t.pick(ANY_OPS), t.raw(3), t.raw(3), t.raw(6), t.raw(120)
                    if t.chance(50) and (m.s[j] is None or m.s[j] is U):
                        j = next((q for q in range(3) if m.s[q] not in (None, U)), j)
                    src = m.s[j] if op == "prop" else m.s[i]
                    if op in ("prop", "get", "mod", "self") and src not in (None, U) and (op == "prop" or t.chance(75)):
                        ty = src[0]
                    if not m.enabled(op, i, j, ty, x):
                        continue
                    if op == "prop" and m.s[j] is None:
                        continue
                    cd = t.raw(4) if t.chance(12) else -1
                    ops.append([op, i, j, ty, x, cd])
                    if cd >= 0:
                        m.failed(op, i, j, ty, x); m.s[i] = U
                        if op in ("move", "nmove", "cmove", "cnmove", "amove", "namove"):
                            m.s[j] = U
                    else:
                        m.step(op, i, j, ty, x)
                out.append({"k": "ANY", "h": k, "ops": ops})
            elif kind == "vec":
                if t.chance(15):
                    out.append({"k": "DEEP", "h": t.pick("ap"), "ops": [[t.raw(3), t.raw(3), t.raw(6), t.raw(60)]]})
                    continue
                out.append({"k": "VEC", "h": t.pick("ap"), "ops": [[t.pick(VEC_OPS), t.raw(3), t.raw(3), t.raw(60), 0] for _ in range(t.int(3, 40))]})
            elif kind == "view":
                al = t.pick([b"ab", b"abc", b"a\x00\xff", bytes(range(97, 110))])
                a = bytes(t.pick(al) for _ in range(t.raw(t.pick([4, 12, 30]))))
                if a and t.chance(50):
                    p = t.raw(len(a)); b = a[p:p + t.raw(5)]
                    if t.chance(20):
                        b += b"a"
                else:
                    b = bytes(t.pick(al) for _ in range(t.raw(t.pick([3, 6, 14]))))
                if t.chance(10):
                    b = a
                if t.chance(10):
                    out.append({"k": "SPAN", "h": t.pick(["first", "last", "sub", "ptr", "iter", "fix"]), "ops": [[a.hex() or "-", t.raw(len(a) + 2), t.raw(len(a) + 2)]]})
                    continue
                op = t.pick(["find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of", "substr", "copy", "cmp", "cmp3", "cmp5", "at", "iter", "trim"])
                num = lambda n, big=True: t.pick([t.raw(n + 2), n, n + 1, 0] + ([2 ** 64 - 1, 2 ** 64 - 2, 2 ** 63] if big else []))
                p = 77777 if t.chance(20) else num(len(a))
                if op in ("find_first_not_of", "find_last_not_of") and not b:
                    b = b"b"
                out.append({"k": "VIEW", "h": op, "ops": [[a.hex() or "-", b.hex() or "-", p, num(len(b)), num(len(b)), num(len(b))]]})
            else:
                if t.chance(30):
                    parts = [bytes(t.int(1, 255) for _ in range(t.raw(t.pick([5, 40, 300, 700])))).hex() or "-" for _ in range(t.int(1, 6))]
                    out.append({"k": "EXC", "h": "", "ops": [parts]})
                elif t.chance(30):
                    f = t.pick([t.raw(1 << 32), 0x3f800000 + t.raw(1 << 24), struct.unpack("<I", struct.pack("<f", t.raw(2000) / t.pick([8, 10, 1000, 64]) * t.pick([1, -1])))[0], 0x7f800000, 0xff800000, 0x5f000000, 0xdf000000, 0x5effffff, 0x7fc00000])
                    out.append({"k": "NUM", "h": "f", "ops": [[f]]})
                else:
                    n = t.pick([8, 16, 32, 64]); sg = t.chance(50)
                    lo, hi = (-(1 << n - 1), (1 << n - 1) - 1) if sg else (0, (1 << n) - 1)
                    v = t.pick([lo, hi, 0, t.int(lo, hi), min(hi, 10 ** t.raw(20)), min(hi, 10 ** t.raw(20) - 1), max(lo, -(10 ** t.raw(19))), t.int(max(lo, -120), min(hi, 120))])
                    out.append({"k": "NUM", "h": "%s%d" % ("i" if sg else "u", n), "ops": [[v]]})
        return out

    def line(self, c):
        return ("%s %s %s" % (c["k"], c["h"], " ".join(" ".join(map(str, o)) for o in c["ops"]))).replace("  ", " ")

    # --- judgement
    def judge(self, c, text):
        if text.startswith("ERROR"):
            return text[:400]
        return getattr(self, "judge_" + c["k"].lower())(c, text)

    def judge_hist(self, c, text, m):
        ps = reply_parts(text)
        if len(ps) != len(c["ops"]):
            return "%d replies to %d operations: %s" % (len(ps), len(c["ops"]), text[:200])
        for n, (o, (rep, slots)) in enumerate(zip(c["ops"], ps)):
            args, cd = o[:-1], o[-1]
            where = "operation %d (%s): " % (n, " ".join(map(str, o)))
            before = list(m.r)
            if rep.startswith("T"):
                if cd < 0 or rep != "T":
                    return where + "failed although nothing was made to fail"
                either = m.failed(*args)
                if either:
                    i, j = args[1], args[2]
                    got = slots[i].rpartition("@")[2]
                    if got not in (str(before[i]), str(before[j])):
                        return where + "resource %s" % got
                    m.r[i] = int(got)
            else:
                want = m.step(*args)
                e = m.match_reply(want, rep)
                if e:
                    return where + e
                if cd >= 0:
                    self.armed(m, args)
            for i in range(3):
                e = m.match_slot(i, slots[i])
                if e:
                    return where + e
            if cd >= 0:
                m.s[args[1]] = U
                if "move" in args[0]:
                    m.s[args[2]] = U
        return None

    def armed(self, m, args):
        pass

    def judge_opt(self, c, text):
        return self.judge_hist(c, text, OptModel(c["h"][0]))

    def judge_any(self, c, text):
        return self.judge_hist(c, text, AnyModel(c["h"]))

    def judge_vec(self, c, text):
        v = [[], [], []]
        r = [0, 1, 2]
        ps = reply_parts(text)
        if len(ps) != len(c["ops"]):
            return "%d replies to %d operations" % (len(ps), len(c["ops"]))
        prop = c["h"] == "p"
        loose = set()
        for o, (rep, slots) in zip(c["ops"], ps):
            op, i, j, x, _ = o
            a = v[i]
            if op in ("ccopy", "cmove", "acopy", "amove", "prop") and i == j:
                return None                 # undefined; the rest of the history is not judged
            if op in ("copy", "move", "ccopy", "cmove", "acopy", "amove", "prop", "swap") and j in loose and i != j:
                v[j] = [int(q) for q in slots_before[j].split("@")[0].split(",") if q]
            if i in loose:
                v[i] = [int(q) for q in slots_before[i].split("@")[0].split(",") if q]
            loose.discard(i); a = v[i]
            if op == "push":
                a.append(x)
            elif op == "emp":
                a.append(x + 1)
            elif op == "pop":
                del a[-1:]
            elif op == "ins":
                a.insert(x % (len(a) + 1), x)
            elif op == "era":
                if a:
                    del a[x % len(a)]
            elif op == "clear":
                a.clear()
            elif op == "resize":
                n = x % 20
                del a[n:]
                a += [x] * (n - len(a))
            elif op in ("copy", "ccopy", "acopy", "prop"):
                v[i] = list(v[j])
            elif op in ("move", "cmove", "amove"):
                if i != j:
                    v[i] = list(v[j]); loose.add(j)
            if op in ("acopy", "amove", "prop"):
                r[i] = x % 3
            elif op == "ccopy":
                r[i] = r[j] if prop else 0
            elif op == "cmove":
                r[i] = r[j]
            elif op in ("copy", "move") and prop:
                r[i] = r[j]
            elif op == "swap":
                if prop or r[i] == r[j]:
                    v[i], v[j] = v[j], v[i]; r[i], r[j] = r[j], r[i]
            for q in range(3):
                want = "".join("%d," % z for z in v[q]) + "@%d" % r[q]
                if q in loose:
                    if slots[q].split("@")[1] != str(r[q]):
                        return "vector %d after %s: resource %s, expected %d" % (q, o, slots[q].split("@")[1], r[q])
                elif slots[q] != want:
                    return "vector %d after %s: %s, expected %s" % (q, o, slots[q], want)
            slots_before = slots
        return None

    def judge_deep(self, c, text):
        return None if text == "111" else "copies through another allocator: equal, memory from it only, allocators: %s" % text

    def judge_view(self, c, text):
        a, _, b = text.partition(" ")
        return None if a == b else "StringView %s, std::string_view %s" % (bytes.fromhex(a), bytes.fromhex(b))

    def judge_span(self, c, text):
        a, _, b = text.partition(" ")
        return None if a == b else "Span %s, expected %s" % (bytes.fromhex(a), bytes.fromhex(b))

    def judge_exc(self, c, text):
        want = b"".join(bytes.fromhex(p) if p != "-" else b"" for p in c["ops"][0])
        a, _, b = text.partition(" ")
        got = bytes.fromhex(a)
        if a != b:
            return "the copy of an exception has another text"
        if not want.startswith(got) or (len(got) < len(want) and len(got) < 511):
            return "text of %d bytes became %d bytes: %s" % (len(want), len(got), got[:60])
        return None

    def judge_num(self, c, text):
        v = c["ops"][0][0]
        if c["h"] != "f":
            return None if text == str(v) else "%s, expected %s" % (text, v)
        a, _, b = text.partition(" ")
        if a != b:
            return "float %s, double %s" % (a, b)
        f = struct.unpack("<f", struct.pack("<I", v))[0]
        if f != f:
            return None if a.lower().strip("+-") == "nan" else "%s for NaN" % a
        if f >= 2.0 ** 63:
            return None if a == "+Inf" else "%s for %r" % (a, f)
        if f <= -2.0 ** 63:
            return None if a == "-Inf" else "%s for %r" % (a, f)
        try:
            g = float(a)
        except ValueError:
            return "%s for %r" % (a, f)
        # three digits, cut
        return None if abs(g - f) <= 0.00101 + abs(f) * 1e-6 and (g == 0 or (g < 0) == (f < 0)) else "%s for %r" % (a, f)

    def meta(self, r, c):
        r.count("histories" if c["k"] in ("OPT", "ANY", "VEC") else "questions " + c["k"])
        if c["k"] in ("OPT", "ANY"):
            for o in c["ops"]:
                r.count("operation " + o[0])
            return any(o[-1] >= 0 or "copy" in o[0] or "move" in o[0] for o in c["ops"])
        return c["k"] != "VEC" or len(c["ops"]) > 5

    def run(self, ctx, task, cases=None):
        r = runner.Result()
        if cases is None:
            cases = [c for c in self.gen(ctx.seed, task) if c["ops"]]
        for c in cases:
            nt = self.meta(r, c)
            r.case(self.line(c), nt, sample=self.line(c)[:200] if nt else None)
        todo = list(cases)
        while todo and len(r.violations) < 4:
            rep, crash = ask([self.line(c) for c in todo])
            for c, x in zip(todo, rep):
                m = self.judge(c, "\t".join(x))
                if m:
                    r.violate("%s %s: %s" % (c["k"], c["h"], m), case=c, column=c["k"] + c["h"], observed=x[0][:1500])
            if not crash:
                break
            if len(rep) < len(todo):
                c = todo[len(rep)]
                r.violate("%s %s: the program died: %s" % (c["k"], c["h"], crash[:1500]), case=c, column=c["k"] + " crash")
            elif not r.violations:
                r.violate("the program died at its end: %s" % crash[:1500], case=todo[-1], column="end")
            todo = todo[len(rep) + 1:]
        return r

    def replay(self, ctx, v):
        return self.run(ctx, None, [v["case"]])

    def shrink(self, ctx, v, deadline):
        best = v
        if len(v["case"]["ops"]) < 2:
            return v
        def fails(ops):
            nonlocal best
            c = dict(v["case"], ops=ops)
            if not self.legal(c):
                return False
            rr = self.run(ctx, None, [c])
            if rr.violations:
                best = rr.violations[0]
                return True
            return False
        rtlib.shrink_list(v["case"]["ops"], fails, deadline, time.time)
        return best

    def legal(self, c):
        """a history from which operations were dropped: still within what is specified?"""
        if c["k"] not in ("OPT", "ANY"):
            return True
        m = OptModel(c["h"][0]) if c["k"] == "OPT" else AnyModel(c["h"])
        for o in c["ops"]:
            if not m.enabled(*o[:-1]) or (o[0] == "prop" and c["k"] == "ANY" and m.s[o[2]] is None):
                return False
            if o[-1] >= 0:
                m.failed(*o[:-1]); m.s[o[1]] = U
                if "move" in o[0]:
                    m.s[o[2]] = U
            else:
                m.step(*o[:-1])
        return True


if __name__ == "__main__":
    sys.exit(runner.main(Chk()))
