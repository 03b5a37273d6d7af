"""Reading back the XML and HTML outputs of the compiler: both have to print back to the tokens of the schema they were made from."""
import os, re, posixpath
import xml.etree.ElementTree as ET
from html.parser import HTMLParser
from urllib.parse import unquote

TOKEN = re.compile(r'''
    (?P<skip>\s+)
  | (?P<doc>/\*!.*?!\*/|/\*\*.*?\*/|//![^\n]*)
  | (?P<comment>/\*.*?\*/|//[^\n]*)
  | (?P<str>"(?:\\.|[^"\\])*")
  | (?P<float>(?:\d+\.\d*|\.\d+)(?:[eE][+-]?\d+)?f?|\d+[eE][+-]?\d+f?|\d+f)
  | (?P<bin>[01]+[bB])
  | (?P<hex>0[xX][0-9a-fA-F]+)
  | (?P<int>\d+)
  | (?P<id>@?[A-Za-z_]\w*)
  | (?P<op><<|>>|<=|>=|==|!=|&&|\|\||.)
''', re.X | re.S)


class Bad(Exception):
    pass


def tokens(text, comments=None):
    """token texts of a piece of schema; documentation goes to comments"""
    out = []
    for m in TOKEN.finditer(text):
        k = m.lastgroup
        if k in ("skip", "comment"):
            if k == "comment" and comments is not None:
                comments.append((len(out), m.group()))
            continue
        if k == "doc":
            if comments is not None:
                comments.append((len(out), m.group()))
            continue
        out.append(m.group())
    return out


def number(t, source=True):
    """canonical text of a literal as the XML output has it (no prefix or suffix)"""
    if not source:
        return t.lower().lstrip("0") or "0" if re.fullmatch(r"[0-9a-fA-F]+", t) else t
    if re.fullmatch(r"0[xX][0-9a-fA-F]+", t):
        return t[2:].lower().lstrip("0") or "0"
    if re.fullmatch(r"[01]+[bB]", t):
        return t[:-1].lstrip("0") or "0"
    if re.fullmatch(r"[0-9a-fA-F]+", t):
        return t.lower().lstrip("0") or "0"
    if re.fullmatch(r"(\d+\.\d*|\.\d+|\d+)([eE][+-]?\d+)?f", t):
        return t[:-1]
    return t


def plain(toks, packages, source=True):
    """tokens with names of packages dropped in front of symbols and literals in their canonical form; >> of type arguments split"""
    out = []
    i = 0
    pk = sorted((p.split(".") for p in packages), key=len, reverse=True)
    while i < len(toks):
        for p in pk:
            n = 2 * len(p)
            if toks[i:i + n] == [x for q in p for x in (q, ".")] and i + n < len(toks) and (not out or out[-1] != ".") and toks[i + n][:1].isupper():
                i += n
                break
        t = toks[i]
        if t == ">>":
            out += [">", ">"]
        else:
            out.append(number(t, source))
        i += 1
    return out


def statements(toks):
    """top level statements (each ends with ;)"""
    out = []; cur = []; depth = 0
    for t in toks:
        cur.append(t)
        if t in "{([" and len(t) == 1:
            depth += 1
        elif t in "})]" and len(t) == 1:
            depth -= 1
        elif t == ";" and depth == 0:
            out.append(cur); cur = []
    if cur:
        raise Bad("rest of the source: %s" % " ".join(cur)[:100])
    return out


# ---------------------------------------------------------------------------------------------------------------- XML
BINARY = {"+", "-", "*", "/", "%", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "&", "|", "^", "&&", "||"}
DOCS = ("DOC_COMMENT_CLASSIC", "DOC_COMMENT_MARKDOWN")


class XmlPrinter:
    """prints the elements of the syntax tree back as tokens of the language"""

    def __init__(self, html=False):
        self.html = html            # the documentation always puts the condition of ?: in parentheses

    def kids(self, e):
        return [c for c in e if c.tag not in DOCS]

    def only(self, e, known):
        for a in e.attrib:
            if a not in known:
                raise Bad("attribute %s of %s" % (a, e.tag))

    def expr(self, e):
        self.only(e, ("text", "type"))
        t = e.get("text")
        c = [self.expr(x) for x in e]
        if t == "isset":
            return [t, "("] + c[0] + [","] + c[1] + [")"]
        if t in ("lengthof", "valueof", "numbits"):
            return [t, "("] + c[0] + [")"]
        if t == "(":
            if e[0].get("type") == "FUNCTION":
                return c[0] + ["(", ")"]
            return ["("] + c[0] + [")"]
        if t == ")":
            return c[0] + ["(", ")"]
        if t == "[":
            return c[0] + ["["] + c[1] + ["]"]
        if t == ".":
            return c[0] + ["."] + c[1]
        if t == "?":
            return (["("] + c[0] + [")"] if self.html else c[0]) + ["?"] + c[1] + [":"] + c[2]
        if t in ("-", "+", "!", "~") and len(c) == 1:
            return [t] + c[0]
        if t in BINARY and len(c) == 2:
            return c[0] + [t] + c[1]
        if c:
            raise Bad("expression %r with %d operands" % (t, len(c)))
        return [t] if t[:1] == '"' or e.get("type") in ("INTEGER", "FLOAT") and t[:1].isalnum() else tokens(t)

    def reference(self, e):
        """TYPE_REFERENCE"""
        self.only(e, ("referencedPackageName", "referencedTypeName"))
        out = tokens(e.get("referencedTypeName"))
        a = [c for c in e if c.tag == "TEMPLATE_ARGUMENT"]
        if a:
            out += ["<"]
            for i, x in enumerate(a):
                out += [","] * (i > 0) + self.reference(x[0])
            out += [">"]
        return out

    def instantiation(self, e):
        """TYPE_INSTANTIATION -> tokens before the name, tokens after the name"""
        self.only(e, ("isImplicit", "isPacked"))
        r, rest = e[0], list(e[1:])
        if any(c.tag == "ARRAY" for c in r):
            pre = ["packed"] * (e.get("isPacked") == "true") + ["implicit"] * (e.get("isImplicit") == "true")
            el, length = rest[0], rest[1:]
            a, b = self.instantiation(el)
            if b:
                raise Bad("array of arrays")
            return pre + a, ["["] + (self.expr(length[0]) if length else []) + ["]"]
        out = self.reference(r)
        if any(c.tag == "DYNAMIC_BIT_FIELD" for c in r):
            return out + ["<"] + self.expr(rest[0]) + [">"], []
        if rest:
            out += ["("]
            for i, x in enumerate(rest):
                out += [","] * (i > 0) + self.expr(x)
            out += [")"]
        return out, []

    def field(self, e):
        self.only(e, ("name", "isExtended", "isOptional", "isVirtual"))
        x = {c.tag: c for c in self.kids(e)}
        pre, post = self.instantiation(x["TYPE_INSTANTIATION"])
        out = []
        if "ALIGN_EXPRESSION" in x:
            out += ["align", "("] + self.expr(x["ALIGN_EXPRESSION"]) + [")", ":"]
        if "OFFSET_EXPRESSION" in x:
            out += self.expr(x["OFFSET_EXPRESSION"]) + [":"]
        if e.get("isExtended"):
            out += ["extended"]
        if e.get("isOptional") and "OPTIONAL_EXPRESSION" not in x:
            out += ["optional"]
        if e.get("isVirtual"):
            out += ["sql_virtual"]
        out += pre + [e.get("name")] + post
        if "INITIALIZER_EXPRESSION" in x:
            out += ["="] + self.expr(x["INITIALIZER_EXPRESSION"])
        if "OPTIONAL_EXPRESSION" in x:
            out += ["if"] + self.expr(x["OPTIONAL_EXPRESSION"])
        if "CONSTRAINT_EXPRESSION" in x:
            out += [":"] + self.expr(x["CONSTRAINT_EXPRESSION"])
        if "SQL_CONSTRAINT" in x:
            out += ["sql"] + self.expr(x["SQL_CONSTRAINT"][0])
        return out + [";"]

    def decl(self, e):
        k = e.tag
        ks = self.kids(e)
        ks = [c for c in ks if c.tag != "INSTANTIATIONS"]
        name = e.get("name")
        if k == "CONST":
            return ["const"] + self.instantiation(ks[0])[0] + [name, "="] + self.expr(ks[1]) + [";"]
        if k == "SUBTYPE":
            return ["subtype"] + self.reference(ks[0]) + [name, ";"]
        if k in ("ENUM", "BITMASK"):
            out = [k.lower()] + self.instantiation(ks[0])[0] + [name, "{"]
            for i, c in enumerate(ks[1:]):
                if i:
                    out += [","]
                if c.get("isDeprecated"):
                    out += ["@deprecated"]
                if c.get("isRemoved"):
                    out += ["@removed"]
                out += [c.get("name")]
                v = self.kids(c)
                if v:
                    out += ["="] + self.expr(v[0])
            return out + ["}", ";"]
        if k in ("STRUCTURE", "UNION", "CHOICE"):
            out = [{"STRUCTURE": "struct"}.get(k, k.lower()), name]
            tp = [c.get("name") for c in ks if c.tag == "TEMPLATE_PARAMETER"]
            if tp:
                out += ["<"] + [x for i, n in enumerate(tp) for x in ([",", n] if i else [n])] + [">"]
            ps = [c for c in ks if c.tag == "PARAMETER"]
            if ps:
                out += ["("]
                for i, p in enumerate(ps):
                    out += [","] * (i > 0) + self.reference(p[0]) + [p.get("name")]
                out += [")"]
            for c in ks:
                if c.tag == "EXPRESSION":
                    out += ["on"] + self.expr(c)
            out += ["{"]
            for c in ks:
                if c.tag == "FIELD":
                    out += self.field(c)
                elif c.tag in ("CASE", "DEFAULT"):
                    f = [x for x in self.kids(c) if x.tag == "FIELD"]
                    for x in c:
                        if x.tag == "CASE_EXPRESSION":
                            out += ["case"] + self.expr(self.kids(x)[0]) + [":"]
                    if c.tag == "DEFAULT":
                        out += ["default", ":"]
                    out += self.field(f[0]) if f else [";"]
                elif c.tag == "FUNCTION":
                    f = self.kids(c)
                    out += ["function"] + self.reference(f[0]) + [c.get("name"), "(", ")", "{", "return"] + self.expr(f[1]) + [";", "}"]
            return out + ["}", ";"]
        if k == "SERVICE":
            out = ["service", name, "{"]
            for m in ks:
                r = self.kids(m)
                out += self.reference(r[0]) + [m.get("name"), "("] + self.reference(r[1]) + [")", ";"]
            return out + ["}", ";"]
        if k == "PUBSUB":
            out = ["pubsub", name, "{"]
            for m in ks:
                x = self.kids(m)
                p, s = m.get("publish"), m.get("subscribe")
                if not p and not s:
                    raise Bad("message which is neither published nor subscribed")
                out += (["publish"] if not s else ["subscribe"] if not p else []) + ["topic", "("] + self.expr(x[0]) + [")"]
                out += self.reference(x[1]) + [m.get("name"), ";"]
            return out + ["}", ";"]
        if k in ("SQL_TABLE", "SQL_DATABASE"):
            out = [k.lower(), name]
            tp = [c.get("name") for c in ks if c.tag == "TEMPLATE_PARAMETER"]
            if tp:
                out += ["<"] + [x for i, n in enumerate(tp) for x in ([",", n] if i else [n])] + [">"]
            out += ["{"]
            for c in ks:
                if c.tag == "FIELD":
                    out += self.field(c)
                elif c.tag == "SQL_CONSTRAINT":
                    out += ["sql"] + self.expr(c[0]) + [";"]
            return out + ["}", ";"]
        if k == "RULE_GROUP":
            out = ["rule_group", name, "{"]
            for c in ks:
                out += ["rule"] + self.expr(self.kids(c)[0]) + [";"]
            return out + ["}", ";"]
        if k == "INSTANTIATE_TYPE":
            return ["instantiate"] + self.reference(ks[0]) + [name, ";"]
        raise Bad("element " + k)


def xml_statements(path, html=False):
    """{package: [tokens of each statement]} and the root"""
    root = ET.parse(path).getroot()
    if root.tag != "ROOT":
        raise Bad("root element " + root.tag)
    out = {}
    pr = XmlPrinter(html)
    for p in root:
        if p.tag != "PACKAGE":
            raise Bad("element %s in ROOT" % p.tag)
        n = p.get("packageName")
        if n in out:
            raise Bad("package %s twice" % n)
        out[n] = sts = []
        for e in p:
            if e.tag in DOCS:
                continue
            if e.tag == "IMPORT":
                sts.append(["import"] + [x for i, q in enumerate(e.get("importedPackageName").split(".")) for x in ([".", q] if i else [q])] +
                           [".", e.get("importedName") or "*", ";"])
                continue
            if e.tag == "COMPATIBILITY_VERSION":
                sts.append(["zserio_compatibility_version", "(", '"%s"' % e.get("versionString"), ")", ";"])
                continue
            sts.append(pr.decl(e))
    return out, root


# ---------------------------------------------------------------------------------------------------------------- HTML
VOID = {"meta", "link", "br", "hr", "img", "input", "area", "base", "col", "embed", "source", "track", "wbr"}
OPTIONAL_END = {"tbody", "thead", "tfoot", "tr", "td", "th", "li", "p"}


class Node:
    def __init__(self, tag, attrs, parent):
        self.tag = tag; self.attrs = attrs; self.parent = parent; self.kids = []

    def cls(self):
        return (self.attrs.get("class") or "").split()

    def walk(self):
        yield self
        for k in self.kids:
            if isinstance(k, Node):
                yield from k.walk()

    def text(self, skip=lambda n: False):
        if skip(self):
            return " "
        return "".join(k if isinstance(k, str) else k.text(skip) for k in self.kids)


class Tree(HTMLParser):
    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.root = self.cur = Node("#root", {}, None)
        self.problems = []
        self.feed(text)
        self.close()
        if self.cur is not self.root:
            self.problems.append("element %s is never closed" % self.cur.tag)

    def handle_starttag(self, tag, attrs):
        names = [a for a, _ in attrs]
        if len(set(names)) != len(names):
            self.problems.append("duplicate attribute of %s" % tag)
        n = Node(tag, dict(attrs), self.cur)
        self.cur.kids.append(n)
        if tag not in VOID:
            self.cur = n

    def handle_startendtag(self, tag, attrs):
        self.cur.kids.append(Node(tag, dict(attrs), self.cur))

    def handle_endtag(self, tag):
        if self.cur.tag == tag:
            self.cur = self.cur.parent
            return
        n = self.cur
        while n.tag in OPTIONAL_END and n.tag != tag and n.parent is not None:
            n = n.parent
        if n.tag == tag:
            self.cur = n.parent
            return
        self.problems.append("line %d: </%s> closes %s" % (self.getpos()[0], tag, self.cur.tag))
        n = self.cur
        while n is not None and n.tag != tag:
            n = n.parent
        if n is not None and n.parent is not None:
            self.cur = n.parent

    def handle_data(self, d):
        self.cur.kids.append(d)


class Page:
    def __init__(self, path):
        with open(path, encoding="utf-8") as f:
            self.tree = Tree(f.read())
        self.problems = self.tree.problems
        self.ids = []
        self.links = []
        for n in self.tree.root.walk():
            if "id" in n.attrs:
                self.ids.append(n.attrs["id"])
            for a in ("href", "xlink:href", "src"):
                if a in n.attrs:
                    self.links.append((n, n.attrs[a]))
        self.idset = set(self.ids)


class Site:
    """all pages of a documentation"""

    def __init__(self, root):
        self.root = root
        self.pages = {}
        self.files = set()
        for r, _, fs in os.walk(root):
            for f in fs:
                p = posixpath.normpath(os.path.relpath(os.path.join(r, f), root))
                self.files.add(p)
                if f.endswith(".html"):
                    self.pages[p] = Page(os.path.join(r, f))

    def resolve(self, page, link):
        """(file, anchor) or None for an external link"""
        if re.match(r"[a-z]+:", link):
            return None
        path, _, frag = link.partition("#")
        path = unquote(path)
        if path:
            path = posixpath.normpath(posixpath.join(posixpath.dirname(page), path))
        else:
            path = page
        return path, unquote(frag)

    def dangling(self, page):
        out = []
        for n, l in self.pages[page].links:
            r = self.resolve(page, l)
            if r is None:
                continue
            f, a = r
            if f not in self.files and f != ".":
                out.append((l, "no file %s" % f))
            elif a and f in self.pages and a not in self.pages[f].idset:
                out.append((l, "no anchor %s in %s" % (a, f)))
        return out


def is_doc(n):
    return n.tag == "div" and "doc" in n.cls()


def code_text(n):
    return n.text(lambda x: x.tag == "button" or is_doc(x))


def sections(page):
    """[(id of the heading, its text, [elements up to the next heading h2])]"""
    out = []
    for h in page.tree.root.walk():
        if h.tag == "h2" and "anchor" in h.cls():
            ks = h.parent.kids
            i = ks.index(h) + 1
            el = []
            while i < len(ks) and not (isinstance(ks[i], Node) and ks[i].tag == "h2"):
                if isinstance(ks[i], Node):
                    el.append(ks[i])
                i += 1
            out.append((h.attrs.get("id"), " ".join(h.text().split()), el))
    return out
