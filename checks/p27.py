import sys, os, re, json, common
from zsv import runner, codec, engine, extras, docs
from zsv.tape import Tape
from zsv.gen import GenFail
from zsv.model import *

PLAIN = ["tile", "level", "a < b && c > d", "& amp;", "größe", "日本", "x - y", "100%", "${x}", "#if", "it's", "path/to", "snake_case", "<unknown>", "</x>",
         "<b>bold</b>", "<i>it</i>", "1. item", "$$", "{brace}", "&lt;", "<#list>", "#{y}", "--", "x<y", "(c)", "<script2>", "]]>", "&", "'q'", "`code`",
         "<code>c</code>", "</#if>", "<!--no", "List<int>", "${\"a\"}"]
MD = ["tile", "level", "größe", "日本", "100%", "${x}", "#if", "it's", "path/to", "{brace}", "#{y}", "a < b", "x & y", "<#list>", "**bold**", "*emph*", "`a<b`", "$$"]
TAG = re.compile(r"</?(b|i|code)>")


class Docs:
    """documentation comments together with the text which has to be shown"""

    def __init__(self, t, schema):
        self.t = t; self.schema = schema
        self.targets = []
        for d in schema.order:
            if not isinstance(d, extras.Extra) and not getattr(d, "hidden", False):
                self.targets.append((d.pkg, "%s.%s" % (d.pkg, d.name)))
                if isinstance(d, Compound):
                    self.targets += [(d.pkg, "%s.%s.%s" % (d.pkg, d.name, f.name)) for f in d.fields]
                if isinstance(d, (Enum, Bitmask)):
                    self.targets += [(d.pkg, "%s.%s.%s" % (d.pkg, d.name, i.name)) for i in d.items if i.flag != "removed"]

    def words(self, w=PLAIN):
        return " ".join(self.t.pick(w) for _ in range(self.t.int(1, 6)))

    def here(self):
        """symbols which can be referenced from the current package: its own and those of imported packages"""
        return [x for p, x in self.targets if p == self.pkg or any(i.startswith("import %s." % p) for i in self.schema.imports.get(self.pkg, []))]

    def see(self):
        """(source, shown)"""
        x = self.t.pick(self.here())
        if self.t.chance(50):
            a = self.t.pick(["an alias", "a<b", "x & y", "größe", "it's"])
            return '@see "%s" %s' % (a, x), a
        return "@see %s" % x, x

    def make(self, d=None):
        """(comment, shown words) or one without shown words"""
        t = self.t
        k = t.raw(5)
        if k == 0:
            w = self.words()
            return "/** %s */" % w, "/** %s */" % TAG.sub("", w)
        if k in (1, 2):
            src = "/**\n"; out = "/**"
            for i in range(t.int(1, 3)):
                if i:
                    src += " *\n"
                for _ in range(t.int(1, 2)):
                    w = self.words()
                    s = ""
                    if self.here() and t.chance(20):
                        a, b = self.see()
                        src += " * %s %s rest\n" % ("See the" , a); out += " See the %s rest" % b
                    src += " * %s\n" % w; out += " " + TAG.sub("", w)
            if t.chance(30) and self.here():
                a, b = self.see()
                src += " *\n * %s\n" % a; out += " See: " + b
            if d is not None and isinstance(d, Compound) and d.params and t.chance(60):
                for p in d.params:
                    w = self.words()
                    src += " *\n * @param %s %s\n" % (p.name, w); out += " Param: %s %s" % (p.name, TAG.sub("", w))
            if t.chance(30):
                w = self.words()
                src += " *\n * @todo %s\n" % w; out += " Todo: " + TAG.sub("", w)
            if t.chance(20):
                src += " *\n * @deprecated\n"
                out += " Note: This element is deprecated and is going to be invalid in the future versions."
            return src + " */", out + " */"
        if k == 3:
            s = "/*!\n%s\n\n* %s\n* %s\n" % (self.words(MD), self.words(MD), self.words(MD))
            if t.chance(30):
                s += "\n[a text](res/file1.txt)\n"
            if t.chance(30):
                s += "\n![pic](../%s)\n" % "res2/pic.png"
            return s + "!*/", None
        return "//! %s\n//! %s" % (self.words(MD), self.words(MD)), None

    def add(self):
        t = self.t
        for d in self.schema.order:
            self.pkg = d.pkg
            if t.chance(40):
                d.doc, d.shown = self.make(d)
            for xs in (getattr(d, "fields", ()), getattr(d, "items", ()), getattr(d, "methods", ()), getattr(d, "messages", ()), getattr(d, "columns", ())):
                for x in xs:
                    if t.chance(25):
                        x.doc, x.shown = self.make()


def squeeze(s):
    return re.sub(r"\s+", "", s)


def strip_source(a):
    """what neither output shows: using clauses, sql_without_rowid, explicit"""
    b = ["extended" if q == "extend" else q for q in a if q != "explicit"]
    if a[0] == "sql_table":
        j = b.index("{")
        if "using" in b[:j]:
            del b[b.index("using"):j]
        i = 0
        while i + 1 < len(b):
            if b[i] == "sql_without_rowid" and b[i + 1] == ";":
                del b[i:i + 2]
            else:
                i += 1
    return b


def strip_html(b):
    """the documentation shows messages as pubsub("topic") type name"""
    o = []
    for k, q in enumerate(b):
        if q == "(" and b[0] == "pubsub" and o[-1:] == ["pubsub"]:
            o[-1:] = ["topic", "("]
        elif q == "(" and b[0] == "pubsub" and o[-1:] in (["publish"], ["subscribe"]):
            o += ["topic", "("]
        else:
            o.append(q)
    return strip_source(o)


KINDS = {"Struct": "Structure", "Union": "Union", "Choice": "Choice", "Enum": "Enum", "Bitmask": "Bitmask", "Subtype": "Subtype", "Const": "Constant",
         "Service": "Service", "Pubsub": "Pubsub", "Table": "SqlTable", "Database": "SqlDatabase", "RuleGroup": "RuleGroup"}


def all_docs(d):
    """shown texts of the comments of a declaration in the order of the page"""
    if getattr(d, "doc", None):
        yield d.doc, getattr(d, "shown", None)
    for xs in (getattr(d, "fields", ()), getattr(d, "items", ()), getattr(d, "methods", ()), getattr(d, "messages", ()), getattr(d, "columns", ())):
        for x in xs:
            if getattr(x, "doc", None):
                yield x.doc, getattr(x, "shown", None)


class P27:
    PROPERTY = "P27"
    NEEDS = ("jar", "jsrv")
    N = {"quick": 1000, "thorough": 20000}
    ASSUMPTIONS = ["HTML in documentation comments is passed through by design (known HTML tags in classic comments, CommonMark rules in markdown), so "
                   "only text and unknown tags have to be escaped",
                   "clauses which neither output shows by design (using, sql_without_rowid, explicit) are left out of the comparison",
                   "svg diagrams need the tool dot, which is not installed"]
    RULE = ("a case is one declaration of a random schema (values, templates, services, pubsubs, tables, rules, comments) in one of the outputs: the XML "
            "tree is printed back and has to give exactly the tokens of the declaration, the HTML page has to show the same tokens, its links have to "
            "lead to the declared symbols, its comments have to show exactly their text; plus one case per page (well-formed, unique anchors, no "
            "dangling link, complete tables of contents); non-trivial: at least 8 tokens, counted once per token sequence")

    def tasks(self, tier, seed):
        return list(range(self.N[tier]))

    def schema(self, seed, task, choices=None):
        s, out = codec.gen_schema(choices if choices is not None else (seed, "P27", task))
        t = Tape((seed, "P27e", task))
        extras.add_extras(t, s, docs=False)
        for p, lines in s.imports.items():
            # some packages import the symbols one by one
            if t.chance(30):
                s.imports[p] = [x for l in lines for x in (sorted("import %s.%s;\n" % (l[7:-4], d.name) for d in s.pkgs.get(l[7:-4], ()) if not isinstance(d, extras.Extra) and not getattr(d, "hidden", False)) or [l])]
        Docs(t, s).add()
        return s, out

    def run(self, ctx, task, choices=None):
        res = runner.Result()
        try:
            s, out = self.schema(ctx.seed, task, choices)
        except GenFail:
            return res
        files = render(s)
        self.text = "\n".join("// %s\n%s" % x for x in sorted(files.items()))
        self.task = task
        pr = ctx.worker.project()
        try:
            pr.write(files)
            for f in list(files):
                d = os.path.dirname(os.path.join(pr.dir, "zs", f))
                for n in ("res/file1.txt", "../res2/pic.png"):
                    p = os.path.normpath(os.path.join(d, n))
                    os.makedirs(os.path.dirname(p), exist_ok=True)
                    with open(p, "w") as h:
                        h.write("text\n")
            ok, log = pr.compile(engine.main_file(s), langs_=("xml", "doc"), opts=("-allowImplicitArrays",))
            if not ok:
                res.count("not accepted")
                if os.environ.get("ZSV_EXPLORE"):
                    sys.stderr.write(log[-400:])
                return res
            res.count("schemas")
            self.check(res, s, files, pr.dir)
        finally:
            pr.clean()
        for v in res.violations:
            v["tape"] = out
        return res

    def fail(self, res, what, expected, observed, column):
        if len(res.violations) < 4:
            res.violate(what, column=column, expected=str(expected)[:600], observed=str(observed)[:600], schema=self.text, task=self.task,
                        request=what[:200], lang=None)

    def check(self, res, s, files, dir_):
        pk = [f[:-3].replace("/", ".") for f in files]
        src = {f[:-3].replace("/", "."): [docs.plain(q, pk) for q in docs.statements(docs.tokens(x))] for f, x in files.items()}
        path = os.path.join(dir_, "xml", "abstract_syntax_tree.xml")
        try:
            xml, root = docs.xml_statements(path)
            xmlh, _ = docs.xml_statements(path, True)
        except Exception as e:
            return self.fail(res, "XML output cannot be read back", "the schema", repr(e), "xml")
        if set(xml) != set(src):
            self.fail(res, "packages of the XML output", sorted(src), sorted(xml), "xml packages")
        for p in sorted(src):
            want = [strip_source(q) for q in src[p] if q[0] != "package"]
            got = [docs.plain(q, pk, False) for q in xml.get(p, [])]
            for i, a in enumerate(want):
                b = got[i] if i < len(got) else None
                res.case(("xml", tuple(a)), len(a) >= 8, {"output": "xml", "declaration": " ".join(a)[:200]} if len(a) >= 8 else None, ["xml: " + a[0]])
                if a != b:
                    self.fail(res, "XML output does not describe the declaration", " ".join(a), " ".join(b or ["nothing"]), "xml " + a[0])
            if len(got) > len(want):
                self.fail(res, "XML output has more declarations than the schema", len(want), " ".join(got[len(want)]), "xml more")
        self.users = {}
        self.templated = set()
        declared = {d.name for d in s.order}
        for pe in root:
            for e in pe:
                n = e.get("name")
                if any(x.tag in ("TEMPLATE_ARGUMENT", "INSTANTIATIONS", "TEMPLATE_PARAMETER", "INSTANTIATE_TYPE") for x in e.iter()):
                    self.templated |= {n} | {x.get("referencedTypeName") for x in e.iter() if x.tag == "TYPE_REFERENCE"}
                for x in e.iter():
                    q = x.get("referencedTypeName") if x.tag == "TYPE_REFERENCE" else x.get("text") if x.tag.endswith("EXPRESSION") else None
                    if q in declared:
                        self.users.setdefault(q, set()).add(n)
        self.values(res, s, root)
        self.xmldocs(res, s, root)
        self.html(res, s, dir_, pk, xmlh)

    def values(self, res, s, root):
        by = {(p.get("packageName"), e.get("name")): e for p in root for e in p}
        for d in s.order:
            if not isinstance(d, (Enum, Bitmask)):
                continue
            e = by.get((d.pkg, d.name))
            if e is None:
                continue
            got = [(i.get("name"), i.get("value"), bool(i.get("isRemoved")), bool(i.get("isDeprecated"))) for i in e if i.tag in ("ITEM", "VALUE")]
            want = [(i.name, str(i.value), i.flag == "removed", i.flag == "deprecated") for i in d.items]
            res.case(("values", str(want)), True, {"output": "xml", "item values": str(want)[:160]}, ["xml: item values"])
            if got != want:
                self.fail(res, "XML output: items of %s" % d.name, want, got, "xml items")

    def xmldocs(self, res, s, root):
        """texts of the classic comments appear in order in the XML output"""
        by = {(p.get("packageName"), e.get("name")): e for p in root for e in p}
        for d in s.order:
            e = by.get((d.pkg, d.name))
            if e is None or isinstance(d, (extras.RuleGroup,)) or isinstance(d, Choice):
                continue
            want = [x for x in all_docs(d) if x[0].startswith("/*")]
            got = [n for n in e.iter() if n.tag in docs.DOCS]
            if any(n.tag == "INSTANTIATIONS" for n in e.iter()) or getattr(d, "template", None):
                continue
            if [x[0].startswith("/*!") for x in want] != [n.tag == "DOC_COMMENT_MARKDOWN" for n in got if not self.line_doc(n)]:
                if len(want) != len(got):
                    self.fail(res, "XML output: comments of %s" % d.name, [x[0] for x in want], [n.tag for n in got], "xml comments")
                    continue
            for (x, shown), n in zip(want, [n for n in got if not self.line_doc(n)]):
                if x.startswith("/*!"):
                    a = squeeze(x[3:-3]); b = squeeze(n.get("markdown"))
                else:
                    a = squeeze(re.sub(r"(?m)^ \*/?", "", x[3:].replace("*/", "")))
                    b = ""
                    for q in n.iter():
                        if q.tag == "DOC_TEXT":
                            b += q.get("text")
                        elif q.tag == "DOC_TAG_SEE":
                            b += "@see"
                            tgt = ".".join(q.get(k) for k in ("referenced_package", "referenced_package_symbol", "referenced_scope_symbol") if q.get(k))
                            al = q.get("link_alias")
                            b += ('"%s"%s' % (al, tgt)) if al != tgt else tgt
                        elif q.tag == "DOC_TAG_TODO":
                            b += "@todo"
                        elif q.tag == "DOC_TAG_PARAM":
                            b += "@param" + q.get("name")
                        elif q.tag == "DOC_TAG_DEPRECATED":
                            b += "@deprecated"
                    b = squeeze(b)
                res.case(("xmldoc", a), len(a) > 20, None, ["xml: comment"])
                if a != b:
                    self.fail(res, "XML output: text of a comment of %s" % d.name, a, b, "xml comment text")

    @staticmethod
    def line_doc(n):
        return False

    def html(self, res, s, dir_, pk, xmlh):
        site = docs.Site(os.path.join(dir_, "doc"))
        want_pages = {"content/packages/%s.html" % p for p in pk}
        rules = any(isinstance(d, extras.RuleGroup) for d in s.order)
        for p in sorted(want_pages | {"index.html"}):
            if p not in site.pages:
                return self.fail(res, "no page " + p, p, sorted(site.pages)[:20], "html page")
        for name, page in site.pages.items():
            res.case((name, len(page.ids), len(page.links), str(page.ids)[:400]), len(page.ids) >= 8, {"page": name, "anchors": len(page.ids), "links": len(page.links)}, ["html: page"])
            if page.problems:
                self.fail(res, "page %s is not well-formed" % name, "balanced elements", page.problems[:3], "html form")
            dup = sorted({i for i in page.ids if page.ids.count(i) > 1})
            if dup and name != "content/rules_overview.html":
                self.fail(res, "anchor of page %s is not unique" % name, "unique", dup[:4], "html unique")
            dang = site.dangling(name)
            if dang:
                self.fail(res, "dangling link in page %s" % name, "existing file and anchor", dang[:4], "html dangling")
        byname = {(d.pkg, d.name): d for d in s.order}
        for n in site.pages["index.html"].tree.root.walk():
            if n.tag == "script":
                m = re.search(r'href="([^"]*)"', n.text())
                if not m or site.resolve("index.html", m.group(1))[0] not in site.pages:
                    self.fail(res, "index page leads nowhere", "a page", n.text().strip(), "html index")
        for p in pk:
            page = site.pages["content/packages/%s.html" % p]
            self.page(res, s, p, page, site, xmlh.get(p, []), pk)

    def page(self, res, s, p, page, site, sts, pk):
        decls = [d for d in s.pkgs[p] if not getattr(d, "hidden", False)]
        main = [n for n in page.tree.root.walk() if n.attrs.get("id") == "main"]
        if len(main) != 1:
            return self.fail(res, "page of %s has no main part" % p, 1, len(main), "html main")
        bodies = []
        for n in main[0].walk():
            if n.tag == "div" and "code" in n.cls():
                b = docs.plain(docs.tokens(docs.code_text(n)), pk)
                if b and b[-1] == ";":
                    try:
                        bodies += [strip_html(x) for x in docs.statements(b)]
                    except docs.Bad:
                        bodies.append(b)
        want = [["package"] + docs.plain(docs.tokens(p), []) + [";"]]
        want += [docs.plain(q, pk, False) for q in sts if q[0] != "rule_group"]
        bodies = [b for b in bodies if b[0] != "zserio_compatiblity_version"]
        for i, a in enumerate(want):
            b = bodies[i] if i < len(bodies) else None
            res.case(("html", tuple(a)), len(a) >= 8, {"output": "html", "declaration": " ".join(a)[:200]} if len(a) >= 8 else None, ["html: " + a[0]])
            if a != b:
                self.fail(res, "documentation does not show the declaration", " ".join(a), " ".join(b or ["nothing"]), "html " + a[0])
        if len(bodies) > len(want):
            self.fail(res, "documentation shows more declarations than the schema has", len(want), " ".join(bodies[len(want)]), "html more")
        self.anchors(res, s, p, page, main[0])
        self.used_by(res, s, p, page, main[0])
        self.comments(res, s, p, main[0])

    def anchors(self, res, s, p, page, main):
        want = []
        tables = {}
        for d in s.pkgs[p]:
            k = KINDS.get(type(d).__name__)
            if k is None:
                continue
            tpl = getattr(d, "template", None)
            a = "%s-%s" % (k, d.name if not tpl else tpl[0])
            if tpl:
                want.append("InstantiateType-" + d.name)
            want.append(a)
            for f in getattr(d, "fields", ()):
                want.append("%s-Field-%s" % (a, f.name))
            for f in getattr(d, "columns", ()):
                want.append("%s-Field-%s" % (a, f.name))
            for f in getattr(d, "funcs", ()):
                want.append("%s-Function-%s" % (a, f.name))
            for f in getattr(d, "methods", ()):
                want.append("%s-ServiceMethod-%s" % (a, f.name))
            for f in getattr(d, "messages", ()):
                want.append("%s-PubsubMessage-%s" % (a, f.name))
            if isinstance(d, extras.Database):
                for n, t in d.tables:
                    want.append("%s-Field-%s" % (a, n))
            for f in getattr(d, "items", ()):
                want.append("%s-%s-%s" % (a, "EnumItem" if isinstance(d, Enum) else "BitmaskValue", f.name))
            if isinstance(d, extras.RuleGroup):
                for i, _ in d.rules:
                    want.append(i)
        miss = [a for a in want if a not in page.idset]
        if miss:
            self.fail(res, "symbols of package %s have no anchor" % p, miss[:6], sorted(page.idset)[:60], "html anchor")
        # lists of symbols: all of this package, every link shows the name of its target
        top = [w for w in want if w.count("-") == 1 and w.split("-")[0] in list(KINDS.values()) + ["InstantiateType"]]
        for part in ("toc", "left_panel"):
            nodes = [n for n in page.tree.root.walk() if n.attrs.get("id") == part]
            got = [(n.text().strip(), n.attrs.get("href", "")) for x in nodes for n in x.walk() if n.tag == "a"]
            here = sorted(h.split("#")[1] for _, h in got if "#" in h and (h.startswith("#") or h.split("#")[0].endswith("/%s.html" % p)))
            exp = sorted(top + (["Package-" + p.replace(".", "-")] if part == "toc" else []))
            if part == "toc":
                ok = here == exp
            else:
                ok = here == exp
            if not ok:
                self.fail(res, "list of symbols (%s) of package %s" % (part, p), exp, here, "html " + part)
        names = {}
        for d in s.order:
            names.setdefault(d.name, []).append(d)
        for n in page.tree.root.walk():
            c = [x for x in n.cls() if x.endswith("-token")]
            if n.tag == "a" and c and "href" in n.attrs:
                t = n.text().strip()
                href = n.attrs["href"]
                tgt = href.split("#")
                if len(tgt) != 2:
                    continue
                page_name = os.path.basename(tgt[0])[:-5]
                parts = tgt[1].split("-")
                title = n.attrs.get("title", "")
                m = re.match(r"(\w+) defined in (.*)$", title)
                if m and (m.group(2) != page_name or (m.group(1) not in parts and m.group(1) != "Rule")):
                    self.fail(res, "title of a link does not describe its target", title, href, "html title")
                # a type link shows the declared symbol
                if len(parts) == 2 and parts[0] in KINDS.values() and not (n.parent and n.parent.tag in ("span",)):
                    shown = t.split(".")[-1]
                    ds = names.get(parts[1])
                    if ds and c[0] in ("structure-token", "union-token", "choice-token", "enum-token", "bitmask-token", "subtype-token", "constant-token"):
                        if not any(x.pkg == page_name for x in ds):
                            self.fail(res, "link to a symbol leads to another package", [x.pkg for x in ds], href, "html link package")

    def used_by(self, res, s, p, page, main):
        """the list of users of a type has exactly the symbols which name it"""
        names = {}
        for d in s.order:
            names.setdefault(d.name, []).append(d)
        secs = docs.sections(page)
        for hid, _, els in secs:
            parts = hid.split("-")
            if len(parts) != 2 or parts[0] not in ("Structure", "Union", "Choice", "Subtype", "Bitmask", "Enum", "Constant", "SqlTable"):
                continue
            if len(names.get(parts[1], ())) != 1 or parts[1] in self.templated:
                continue
            got = None
            for i, e in enumerate(els):
                if e.tag == "h3" and e.attrs.get("id", "").endswith("_used_by"):
                    got = sorted(n.text().strip() for n in els[i + 1].walk() if n.tag == "a")
            want = sorted(self.users.get(parts[1], ()))
            res.case(("users", tuple(want), parts[1]), len(want) > 1, {"symbol": parts[1], "used by": want} if len(want) > 1 else None, ["html: used by"])
            if (got or []) != want and not (set(got or []) | set(want)) & self.templated:
                self.fail(res, "documentation: users of %s" % parts[1], want, got, "html used by")

    def comments(self, res, s, p, main):
        """the comments of the page show exactly the texts of the schema"""
        got = []
        for n in main.walk():
            if docs.is_doc(n) and not any(docs.is_doc(k) for k in n.walk() if k is not n):
                got.append(squeeze(n.text()))
        want = []
        for d in s.pkgs[p]:
            if isinstance(d, (extras.RuleGroup, Choice)):
                continue
            for x in all_docs(d):
                if x[1] is not None:
                    want.append(squeeze(x[1]))
        i = 0
        for a in want:
            res.case(("htmldoc", a), len(a) > 20, {"output": "html", "comment": a[:160]} if len(a) > 20 else None, ["html: comment"])
            j = i
            while j < len(got) and got[j] != a:
                j += 1
            if j == len(got):
                near = [g for g in got if g[:6] == a[:6]]
                self.fail(res, "documentation does not show a comment", a, near[:2] or got[i:i + 2], "html comment")
                break
            i = j + 1


if __name__ == "__main__":
    sys.exit(runner.main(P27()))
