import sys, common
from zsv import runner, codec, refcodec, langs, engine
from zsv.gen import ValueGen, GenFail
from zsv.tape import Tape
from zsv.model import *
from zsv.refcodec import Reject, Ambiguous, is_compound


def version(d, k):
    """the declaration with only its first k extended members"""
    n = sum(1 for f in d.fields if not f.extended)
    c = Struct(d.name + "Ver%d" % k, d.params, d.fields[:n + k], d.funcs)
    c.pkg = d.pkg
    c.base_fields = n
    return c


def obj(c, o, ext):
    """the value with its first ext extended members as a value of version c"""
    return_ = SObj(c, o.params, list(o.vals[:len(c.fields)]))
    return_.vals = [v if i < c.base_fields + ext else None for i, v in enumerate(return_.vals)]
    return_.ext = min(ext, len(c.fields) - c.base_fields)
    return return_


class P19(codec.SchemaCheck):
    PROPERTY = "P19"
    NVALS = 5
    NSCHEMAS = {"quick": 110, "thorough": 1500}
    PROFILE = {"extended": 100, "align": 10, "offsets": 10, "recursion": 0, "enum": 25}
    RULE = ("a case is (a) a stream written by one version of a struct with random extended members read by another version (all pairs), with the "
            "stream ending exactly or padded to bytes: position, values, presence and the stream written back are compared with the reference; (b) an "
            "object read from an older stream gets newer members in a random order: presence after each, bytes and values at the end; (c) streams "
            "with items of an enumeration that its next version removed: read with the same value, refused when written; non-trivial: distinct and "
            "writer and reader differ, or at least one member is set, or a removed item is present")

    def tasks(self, tier, seed):
        return list(range(self.NSCHEMAS[tier]))

    def schema_for(self, seed, idx, choices=None):
        s, out = codec.gen_schema(choices if choices is not None else (seed, "P19", idx), self.profile(idx))
        s.cpp_ops = ['if (p[0] == "X") return zsv::opX<%(K)s>(p);']
        self.families = []
        for d in list(s.order):
            n = sum(1 for f in d.fields if f.extended) if isinstance(d, Struct) else 0
            if not n or any(is_compound(q.ty.base()) for q in d.params):
                continue
            vs = [version(d, k) for k in range(n)]
            for c in vs:
                s.order.insert(s.order.index(d) + 1, c)
                ds = s.pkgs[d.pkg]
                ds.insert(ds.index(d) + 1, c)
            d.base_fields = len(d.fields) - n
            self.families.append(vs + [d])
        self.removed = []
        t = Tape((seed, "P19rem", idx))
        for d in list(s.order):
            if isinstance(d, Enum) and len(d.items) > 1 and not any(i.flag for i in d.items) and t.chance(60) and len(self.removed) < 2:
                new = Enum(d.name + "NextVersion", d.ty, [Item(i.name, i.value, None, None) for i in d.items])
                # the values are given explicitly: removing an item must not move others
                for i in new.items:
                    i.expr = lit(i.value)
                live = list(new.items)
                for i in t.shuffled(live)[:t.int(1, len(live) - 1)] if hasattr(t, "shuffled") else live[1:1 + t.int(1, len(live) - 1)]:
                    i.flag = "removed"
                pk = s.pkgs[d.pkg]
                new.pkg = d.pkg
                pk.insert(pk.index(d) + 1, new); s.order.insert(s.order.index(d) + 1, new)
                pair = []
                for e, nm in ((d, "Old"), (new, "New")):
                    fs = [Field("one", ref(e)), Field("some", ref(e), arr="auto"), Field("many", ref(e), arr="auto", packed=True),
                          Field("maybe", ref(e), opt=True)]
                    st = Struct("%sHolder%s" % (d.name, nm), [], fs, [])
                    st.pkg = d.pkg
                    j = pk.index(e) + 1
                    pk.insert(j, st); s.order.insert(s.order.index(e) + 1, st)
                    pair.append(st)
                self.removed.append((d, new, pair))
        # only the types of the histories are exercised
        s.roots = [c for f in self.families for c in f] + [c for r in self.removed for c in r[2]]
        return s, out

    def cases(self, schema, seed, idx):
        out = []
        for fi, fam in enumerate(self.families):
            top = fam[-1]
            K = len(fam) - 1
            for k in range(self.NVALS):
                t = Tape((seed, "P19v", idx, fi, k))
                try:
                    o = ValueGen(t, self.profile(idx)).root(top)
                except (GenFail, Trap, Reject, Ambiguous):
                    continue
                o.ext = None
                if any(v is None and f.opt is None for f, v in zip(top.fields, o.vals)):
                    continue
                start = (0, 0, 3, 8)[k % 4]
                try:
                    self.value(out, t, fam, top, K, o, start)
                except (Trap, Reject, Ambiguous, KeyError) as e:
                    continue
        for d, new, (so, sn) in self.removed:
            rem = [i for i, x in enumerate(new.items) if x.flag == "removed"]
            for k in range(3):
                t = Tape((seed, "P19r", idx, d.name, k))
                vals = [i.value for i in d.items]
                pick = lambda: t.pick(vals)
                v = [pick(), [pick() for _ in range(t.int(0, 4))], [pick() for _ in range(t.int(0, 5))], pick() if t.chance(50) else None]
                a = SObj(so, [], v); b = SObj(sn, [], v)
                bits, n, _ = refcodec.encode(a, 0)
                data = refcodec.bits_to_bytes(bits, n)
                gone = {new.items[i].value for i in rem}
                used = [x for x in [v[0], v[3]] + v[1] + v[2] if x in gone]
                out.append(RCase("removed", sn, "R\t%s\t%d\t%d\t%s\t%s" % (langs.gname(sn), 0, n, data.hex(), ""), n,
                                 [str(n), langs.dump(b), ("E" if used else "%s:%d" % (data.hex(), n))], bool(used), sn))
                out.append(RCase("write removed", sn, "W\t%s\t0\t%s" % (langs.gname(sn), langs.build_tokens(b)), n,
                                 ["err"] if used else [None, str(n), str(n), data.hex()], bool(used), sn))
        return out

    def value(self, out, t, fam, top, K, o, start):
        for i in range(K + 1):
            w = obj(fam[i], o, i)
            bits, n, _ = refcodec.encode(w, start)
            if refcodec.has_offsets(top):
                refcodec.offset_slots(w, start)
                bits, n, _ = refcodec.encode(w, start)
            end = start + n
            data = refcodec.bits_to_bytes(((1 << start) - 1) << n | bits, end)
            ptoks = langs.param_tokens(top, o.params)
            for j in range(K + 1):
                for nbits in sorted({end, (end + 7) // 8 * 8}):
                    dec = refcodec.Decoder(data, nbits, start)
                    r = dec.compound(fam[j], list(o.params))
                    e = obj(fam[j], o, min(i, j))
                    if i >= j:
                        want_pos = None if i > j else end
                    if r.ext is not None and r.ext < min(i, j):
                        continue            # extended members of no size cannot be seen
                    back = r
                    b2, n2, _ = refcodec.encode(back, start)
                    h2 = refcodec.bits_to_bytes(((1 << start) - 1) << n2 | b2, start + n2)
                    if i <= j and (n2 != n or h2 != data):
                        continue            # padding of an alignment was not the one written
                    out.append(RCase("read", fam[j], "R\t%s\t%d\t%d\t%s\t%s" % (langs.gname(fam[j]), start, nbits, data.hex(), ptoks), n,
                                     [str(dec.r.pos), langs.dump(r), "%s:%d" % (h2.hex(), start + n2)], i != j, top))
            if i == K:
                continue
            # newer members are set in a random order
            m = K                   # setting one makes all of them present, so that all have to be set
            full = obj(top, o, m)
            order = list(range(i, m))
            for a in range(len(order) - 1, 0, -1):
                b = t.raw(a + 1)
                order[a], order[b] = order[b], order[a]
            if any(f.ty.base().kind == "dyn" for f in top.fields):
                order.sort()        # Java checks the range when a member is set, Python takes the width of an array then
            if t.chance(40):
                order = order + [t.pick(order)]
            sets = []
            have = i
            pres = ["p" + "1" * i + "0" * (K - i)]
            for q in order:
                f = top.base_fields + q
                one = obj(top, o, K)
                sets.append(langs.build_tokens(one, untouched=lambda x, y: x is one and y != f))
                have = K
                pres.append("p" + "1" * have + "0" * (K - have))
            bits, n2, _ = refcodec.encode(full, start)
            if refcodec.has_offsets(top):
                refcodec.offset_slots(full, start)
                bits, n2, _ = refcodec.encode(full, start)
            # reading has to see the members (those of no size are not seen)
            h2 = refcodec.bits_to_bytes(((1 << start) - 1) << n2 | bits, start + n2)
            again = refcodec.Decoder(h2, start + n2, start).compound(top, list(o.params))
            first = refcodec.Decoder(data, end, start)
            r0 = first.compound(top, list(o.params))
            if r0.ext != i:
                continue
            out.append(RCase("set", top, "X\t%s\t%d\t%d\t%s\t%s\t%s" % (langs.gname(top), start, end, data.hex(), ptoks, "\t".join(sets)), n,
                             [str(first.r.pos), langs.dump(r0), "%s:%d" % (data.hex(), end)] + pres +
                             [str(n2), langs.dump(full), "%s:%d" % (h2.hex(), start + n2), "1" if again.ext == m and "fNaN" not in langs.dump(full) else None], True, top))

    def judge(self, ctx, res, b, cases, task):
        lines = [c.line for c in cases]
        for c in cases:
            res.count("kind: " + c.kind)
        for lang in b.langs:
            rs, crash = b.run(lang, lines)
            for c, r in zip(cases, rs):
                bad = c.bad(r)
                if bad:
                    res.violate("%s: %s: %s" % (lang, c.kind, bad[0]), lang=lang, column=c.kind + " " + bad[0], expected=bad[1][:1500],
                                observed=bad[2][:1500], request=c.line[:1500], schema=codec.schema_text(b.schema), task=task)
                    break
            if crash and len(rs) < len(lines):
                res.violate("%s: driver crashed" % lang, lang=lang, column="crash", observed=crash[:2000], request=lines[len(rs)][:1500],
                            schema=codec.schema_text(b.schema), task=task)

    def nontrivial(self, c):
        return c.nt

    def sample(self, c):
        return {"kind": c.kind, "type": c.d.name, "request": c.line[:200]} if c.nt else None


class RCase:
    def __init__(self, kind, d, line, n, exp, nt, top):
        self.kind = kind; self.d = d; self.line = line; self.n = n; self.exp = exp; self.nt = nt; self.slots = []; self.o = None; self.start = 0

    def bad(self, r):
        if self.exp == ["err"]:
            if r[0] == "err" and r[1] in ("build", "init", "size", "write"):
                return None
            return ("removed item is not refused", "error while writing", "\t".join(r))
        if r[0] != "ok":
            return ("error", "no error", "\t".join(r))
        for k, (e, g) in enumerate(zip(self.exp, r[1:])):
            if e is None or e == g or (e == "E" and g.startswith("E")):
                continue
            return ("column %d" % k if self.kind != "set" else "set result", e, g + "   (all: %s)" % "\t".join(r)[:600])
        return None


if __name__ == "__main__":
    sys.exit(runner.main(P19()))
