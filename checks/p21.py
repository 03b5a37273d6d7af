"""P21: services and pubsubs deliver each message to exactly its method or topic."""
import sys, common, os
from zsv import runner, codec, refcodec, langs, engine, extras, glue
from zsv.gen import GenFail, ValueGen
from zsv.tape import Tape
from zsv.model import *
from zsv.refcodec import Reject, Ambiguous


class Val:
    """a value of a type without parameters, or bytes"""
    def __init__(self, t, ty):
        if glue.tdesc(ty) == "B":
            self.data = t.bytes(t.pick([0, 1, 3, 9, 200]))
            self.tokens = self.dump = self.back = "b" + self.data.hex()
            self.raw = True
            return
        self.raw = False
        for k in range(6):
            try:
                c = codec.WCase(ty.base().decl, ValueGen(t).root(ty.base().decl), 0)
                dec = refcodec.Decoder(c.data, 8 * len(c.data), 0)
                o2 = dec.compound(ty.base().decl, [])
                break
            except (GenFail, Trap, Reject, Ambiguous):
                continue
        else:
            raise GenFail("value")
        self.tokens = c.right_tokens; self.dump = c.dump; self.back = langs.dump(o2); self.data = c.data


class P21(codec.SchemaCheck):
    PROPERTY = "P21"
    NSCHEMAS = {"quick": 72, "thorough": 1200}
    RULE = ("a case is one step of a history on a generated service (client call, direct call, unknown method, failing implementation or transport) or "
            "pubsub (publish, subscribe, unsubscribe, message from outside, failing callback); everything which passes the transport or the broker, "
            "reaches the implementation or callback and comes back to the caller is logged and compared with a reference model; non-trivial: "
            "distinct, and a message is delivered or an error is expected")
    ASSUMPTIONS = ["message types have no parameters (the compiler requires it)", "offsets of the sent objects have been initialized by the sender"]

    def schema_for(self, seed, idx, choices=None):
        s, out = codec.gen_schema(choices if choices is not None else (seed, self.PROPERTY, idx), self.profile(idx))
        t = Tape((seed, "P21s", idx))
        self.sv = []; self.ps = []
        if extras.compounds(s):
            ds = extras.add_extras(t, s, services=t.int(1, 2), pubsubs=t.int(1, 2), tables=0, fts=False, rules=False, docs=0)
            self.sv = [d for d in ds if isinstance(d, extras.Service)]
            self.ps = [d for d in ds if isinstance(d, extras.Pubsub)]
        rs = []
        for d in self.sv:
            rs += [x.base().decl for m in d.methods for x in (m.req, m.resp) if glue.tdesc(x) != "B"]
        for d in self.ps:
            rs += [m.ty.base().decl for m in d.messages if glue.tdesc(m.ty) != "B"]
        s.roots = list(dict.fromkeys(rs))
        return s, out

    def cases(self, schema, seed, idx):
        out = []
        t = Tape((seed, "P21h", idx))
        if not schema.roots:
            return out
        root = langs.gname(schema.roots[0])
        for s in self.sv:
            for k in range(3):
                out.append(self.service(t, s, root))
        for p in self.ps:
            for k in range(3):
                out.append(self.pubsub(t, p, root))
        return [c for c in out if c is not None]

    def service(self, t, s, root):
        calls = []; exp = []; nt = []
        for i in range(t.int(1, 8)):
            ctx = t.pick(["-", "-", "0", "1", str(t.int(2, 10**6))])
            mode = t.pick("nnnnnneutd")
            if not s.methods and mode != "u":
                mode = "u"
            x = t.raw(len(s.methods)) if s.methods else 0
            if mode == "u":
                names = [m.name for m in s.methods]
                base = t.pick(names) if names else "call"
                n = t.pick(["", "unknown", base + "x", base[:-1], base.upper(), base + " ", " " + base, "%s.%s" % (s.name, base), langs.snake(base), base + "Method"])
                if n in names:
                    n = "nope"
                calls.append("u;%s;%s;%s;" % (n.encode().hex(), ctx, t.bytes(t.raw(4)).hex()))
                exp.append("err ServiceException"); nt.append(True)
                continue
            m = s.methods[x]
            try:
                q = Val(t, m.req); r = Val(t, m.resp)
            except GenFail:
                continue
            if mode == "d":
                calls.append("d;%s;%s;%s;%s" % (m.name.encode().hex(), ctx, q.data.hex(), r.tokens))
            else:
                calls.append("%s;%d;%s;%s;%s" % (mode, x, ctx, q.tokens, r.tokens))
            impl = "impl %d %s %s" % (x, ctx, q.back)
            wire = "wire %s %s %s obj=@%s" % (m.name.encode().hex(), q.data.hex(), ctx, "none" if q.raw else q.dump)
            exp.append({"n": " ; ".join([wire, impl, "resp " + r.data.hex(), "got " + r.back]),
                        "e": " ; ".join([wire, impl, "err boom"]),
                        "t": " ; ".join([wire, "err boom"]),
                        "d": " ; ".join([impl, "raw " + r.data.hex()])}[mode])
            nt.append(True)
        if not calls:
            return None
        full = "%s.%s" % (s.pkg, s.name)
        return HCase("service", s, "SV\t%s\t%s\t%s" % (root, glue.svc_desc(s), "\t".join(calls)),
                     [full.encode().hex(), "".join(m.name.encode().hex() + "," for m in s.methods)] + exp, nt)

    def pubsub(self, t, p, root):
        acts = []; exp = []; nt = []
        subs = []; nid = 7
        for i in range(t.int(1, 12)):
            ctx = t.pick(["-", "-", "0", str(t.int(1, 10**6))])
            k = t.pick("PPPPSSSSUT")
            if k == "U":
                if not subs:
                    continue
                s = t.pick(subs); subs.remove(s)
                acts.append("U;%s;-;" % s[1]); exp.append("unsub %d" % s[0]); nt.append(True)
                continue
            ms = [j for j, m in enumerate(p.messages) if (m.pub if k == "P" else m.sub if k == "S" else True)]
            if not ms:
                continue
            j = t.pick(ms); m = p.messages[j]
            if k == "S":
                lab = "l%d%s" % (i, "!" if t.chance(10) else "")
                acts.append("S;%d;%s;%s" % (j, ctx, lab))
                exp.append("sub %s %s %d ; id %d" % (m.topic.encode().hex(), ctx, nid, nid)); nt.append(True)
                subs.append((nid, lab, m)); nid += 5
                continue
            try:
                v = Val(t, m.ty)
            except GenFail:
                continue
            topic = m.topic
            # a message which is of another type than the subscribers of its topic expect cannot be decoded
            if any(s[2].topic == topic and glue.tdesc(s[2].ty) != glue.tdesc(m.ty) for s in subs):
                continue
            log = []
            if k == "P":
                acts.append("P;%d;%s;%s" % (j, ctx, v.tokens))
                log.append("pub %s %s %s" % (topic.encode().hex(), v.data.hex(), ctx))
            else:
                if t.chance(25):
                    topic = t.pick([topic + "/", topic[:-1], "other", topic + "x"])
                    if any(x.topic == topic for x in p.messages):
                        topic = "no topic"
                acts.append("T;%s;-;%s" % (topic.encode().hex(), v.data.hex()))
            for s in subs:
                if s[2].topic == topic:
                    log.append("cb %s %s %s" % (s[1], topic.encode().hex(), v.back))
                    if s[1].endswith("!"):
                        log.append("cberr")
            exp.append(" ; ".join(log)); nt.append(bool(log))
        if not acts:
            return None
        return HCase("pubsub", p, "PB\t%s\t%s\t%s" % (root, glue.ps_desc(p), "\t".join(acts)),
                     ["".join("%d%d," % (m.pub, m.sub) for m in p.messages)] + exp, nt)

    def bundle(self, ctx, res, schema, task, langset):
        class B(codec.Bundle):
            def __init__(b, sv, ps):
                b.w = ctx.worker; b.schema = schema; b.variant = "fast"; b.pr = ctx.worker.project(); b.failed = {}; b.langs = []
                b.pr.write(render(schema))
                ok, out = b.pr.compile(engine.main_file(schema), opts=("-allowImplicitArrays", "-withRangeCheckCode"))
                b.output = out; b.ok = ok
                if not ok:
                    b.failed["zserio"] = out
                    return
                if "java" in langset:
                    b.pr.write(glue.java_glue(sv), sub="java")
                    ok, out = b.pr.javac()
                    if ok:
                        b.pr.load_java(schema); b.langs.append("java")
                    else:
                        b.failed["java"] = out
                b.langs += [l for l in ("py", "pyc") if l in langset]
                if "cpp" in langset:
                    schema.cpp_headers = sorted({"%s/%s.h" % (d.pkg.replace(".", "/"), d.name) for d in sv + ps})
                    src = "#include <map>\n" + langs.cpp_driver(schema, schema.roots, extra=glue.cpp_glue(sv, ps, None)).replace(
                        "  return \"FAIL\\tunknown op\";", '  if (p[0] == "SV" || p[0] == "PB") return gl(p);\n  return "FAIL\\tunknown op";'.replace("\\t", "\\t"))
                    ok, out = b.pr.build_cpp(schema, schema.roots, extra_src=src)
                    if ok:
                        b.langs.append("cpp")
                    else:
                        b.failed["cpp"] = out
        b = B(self.sv, self.ps)
        for l, o in b.failed.items():
            if os.environ.get("ZSV_DEBUG"):
                print(l, o[:1500])
        return b

    def run(self, ctx, task, choices=None, langset=None):
        r = super().run(ctx, task, choices, langset)
        return r

    def judge(self, ctx, res, b, cases, task):
        lines = [c.line for c in cases]
        for c in cases:
            for e, nt in zip(c.exp[-len(c.nt):], c.nt):
                res.count("step " + c.kind + " " + (e.split(" ")[0] or "nobody"))
        for lang in b.langs:
            rs, crash = b.run(lang, lines)
            for c, r in zip(cases, rs):
                e = ["ok"] + [x.replace("obj=@", "obj=") if lang != "cpp" else drop_obj(x) for x in c.exp]
                g = list(r) + [""] * (len(e) - len(r)) if r and r[0] == "ok" else r
                g = [x[:-3] if x.endswith(" ; ") else x for x in g]
                if g != e:
                    k = next((i for i, (x, y) in enumerate(zip(e, g)) if x != y), -1)
                    res.violate("%s: %s %s" % (lang, c.kind, c.d.name), lang=lang, column="%s %s" % (c.kind, ("status", "name", "methods")[k] if c.kind == "service" and k < 3 else "step"),
                                expected=e[k][:1500], observed=(g[k] if g and g[0] == "ok" else "\t".join(r))[:1500], step=k, request=c.line[:3000],
                                schema=codec.schema_text(b.schema), task=task)
                    break
            if crash and len(rs) < len(lines):
                res.violate("%s: driver crashed" % lang, lang=lang, column="crash", observed=crash[:2000], request=lines[len(rs)][:1500],
                            schema=codec.schema_text(b.schema), task=task)

    def nontrivial(self, c):
        return any(c.nt)

    def sample(self, c):
        return {"kind": c.kind, "name": c.d.name, "history": c.line[:400]}


def drop_obj(x):
    i = x.find("obj=@")
    if i < 0:
        return x
    j = x.find(" ; ", i)
    return x[:i] + "obj=none" + (x[j:] if j >= 0 else "")


class HCase:
    def __init__(self, kind, d, line, exp, nt):
        self.kind = kind; self.d = d; self.line = line; self.exp = exp; self.nt = nt; self.n = 9


if __name__ == "__main__":
    sys.exit(runner.main(P21()))
