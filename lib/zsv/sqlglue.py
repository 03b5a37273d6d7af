"""Glue between generated SQL tables / databases and the drivers: descriptors and C++ driver code."""
from . import langs
from .langs import cap, gname, cppname, tcode
from .model import *


def explicit_params(table):
    """[(name, parameter type, compound, parameter)] in order of the first use"""
    out = {}
    for c in table.columns:
        if c.args:
            for a, q in zip(c.args, c.ty.base().decl.params):
                if a[0] == "explicit" and a[1] not in out:
                    out[a[1]] = (a[1], q.ty, c.ty.base().decl, q)
    return list(out.values())


def table_desc(inst, table, tc):
    key = table.key.name if getattr(table, "key", None) is not None else ""
    return "!".join([inst, gname(table), key, ",".join("%s=%s" % (c.name, tc(c.ty)) for c in table.columns),
                     ",".join("%s=%s" % (n, tc(ty)) for n, ty, _, _ in explicit_params(table))])


def db_desc(db, tc):
    return ";".join(table_desc(i, t, tc) for i, t in db.tables)


RT = r'''
#include <map>
#include <deque>
#include <set>
#include <algorithm>
namespace {
using Strs = std::vector<std::string>;
inline Strs split(const std::string& s, char c)
{
    Strs r; size_t b = 0;
    for (;;) { const size_t e = s.find(c, b); if (e == std::string::npos) { r.push_back(s.substr(b)); return r; } r.push_back(s.substr(b, e - b)); b = e + 1; }
}
inline std::string hs(zserio::StringView v) { std::string r; zsv::hex(r, reinterpret_cast<const uint8_t*>(v.data()), v.size()); return r; }
inline std::string us(const std::string& h) { const auto b = zsv::unhex(h, 0); return std::string(b.begin(), b.end()); }
using Vals = std::map<std::string, Strs>;
inline Vals parsePP(const std::string& s)
{
    Vals r;
    for (auto&& e : split(s, '&')) { const size_t i = e.find('>'); if (i != std::string::npos) r[e.substr(0, i)] = split(e.substr(i + 1), '^'); }
    return r;
}
inline std::vector<zserio::string<>> colv(const std::string& s) { std::vector<zserio::string<>> r; if (s != "*") for (auto&& x : split(s, ',')) r.push_back(x); return r; }
inline bool selected(const std::string& cols, const std::string& c)
{
    if (cols == "*") return true;
    const Strs v = split(cols, ',');
    return std::find(v.begin(), v.end(), c) != v.end();
}
struct Obs : zserio::IValidationObserver
{
    size_t tables = 0, rows = 0; Strs l; std::string bad;
    void beginDatabase(size_t n) override { bad += "db" + std::to_string(n) + ','; }
    void endDatabase(size_t n) override { tables = n; }
    bool beginTable(zserio::StringView, size_t) override { return true; }
    bool endTable(zserio::StringView, size_t n) override { rows += n; return true; }
    bool reportError(zserio::StringView t, zserio::StringView f, zserio::Span<const zserio::StringView> keys, ErrorType e, zserio::StringView) override
    {
        static const char* const names[] = {"INVALID_COLUMN_TYPE", "INVALID_COLUMN_CONSTRAINT", "COLUMN_MISSING", "COLUMN_SUPERFLUOUS", "VALUE_OUT_OF_RANGE",
            "INVALID_VALUE", "BLOB_PARSE_FAILED", "BLOB_COMPARE_FAILED"};
        std::string s = std::string(t.data(), t.size()) + '.' + std::string(f.data(), f.size()) + ':' + names[e] + ':';
        for (auto&& k : keys) s += hs(k) + '/';
        l.push_back(s);
        return true;
    }
};
template <class D, bool PP> struct Call
{
    template <class T, class... A> static void write(T& t, const std::string& pp, A&&... a) { typename D::Prov p(pp); t.write(p, std::forward<A>(a)...); }
    template <class T, class... A> static void update(T& t, const std::string& pp, A&&... a) { typename D::Prov p(pp); t.update(p, std::forward<A>(a)...); }
    template <class T, class F, class... A> static void read(T& t, const std::string& pp, F f, A&&... a)
    { typename D::Prov p(pp); auto rd = t.createReader(p, std::forward<A>(a)...); while (rd.hasNext()) { auto row = rd.next(); f(row); } }
};
template <class D> struct Call<D, false>
{
    template <class T, class... A> static void write(T& t, const std::string&, A&&... a) { t.write(std::forward<A>(a)...); }
    template <class T, class... A> static void update(T& t, const std::string&, A&&... a) { t.update(std::forward<A>(a)...); }
    template <class T, class F, class... A> static void read(T& t, const std::string&, F f, A&&... a)
    { auto rd = t.createReader(std::forward<A>(a)...); while (rd.hasNext()) { auto row = rd.next(); f(row); } }
};
template <class T> auto ordinary(T& t, int) -> decltype(t.createOrdinaryRowIdTable()) { t.createOrdinaryRowIdTable(); }
template <class T> void ordinary(T&, long) { throw std::runtime_error("no createOrdinaryRowIdTable"); }
template <class T> auto create(T& db, const std::set<zserio::string<>>& s, int) -> decltype(db.createSchema(s)) { db.createSchema(s); }
template <class T> void create(T&, const std::set<zserio::string<>>&, long) { throw std::runtime_error("no createSchema with names"); }
template <class D> std::string tableAct(typename D::T& t, const Strs& a)
{
    using C = Call<D, D::HASPP>;
    if (a[0] == "c") { t.createTable(); return "done"; }
    if (a[0] == "k") { ordinary(t, 0); return "done"; }
    if (a[0] == "d") { t.deleteTable(); return "done"; }
    const auto cols = colv(a[2]);
    const zserio::Span<const zserio::string<>> cs(cols.data(), cols.size());
    if (a[0] == "W")
    {
        std::vector<typename D::T::Row> rows;
        if (!a[4].empty()) for (auto&& x : split(a[4], ';')) rows.push_back(D::row(a[2], x));
        const zserio::Span<typename D::T::Row> rs(rows.data(), rows.size());
        if (a[2] == "*") C::write(t, a[3], rs); else C::write(t, a[3], rs, cs);
        return "done";
    }
    const std::string cond = us(a[4]);
    if (a[0] == "U")
    {
        auto row = D::row(a[2], a[5]);
        if (a[2] == "*") C::update(t, a[3], row, zserio::StringView(cond)); else C::update(t, a[3], row, cs, zserio::StringView(cond));
        return "done";
    }
    Strs l;
    const auto f = [&](typename D::T::Row& r) { l.push_back(D::show(r)); };
    if (a[2] == "*") { if (cond.empty()) C::read(t, a[3], f); else C::read(t, a[3], f, zserio::StringView(cond)); }
    else { if (cond.empty()) C::read(t, a[3], f, cs); else C::read(t, a[3], f, cs, zserio::StringView(cond)); }
    std::sort(l.begin(), l.end());
    std::string r = "rows " + std::to_string(l.size()) + ' ';
    for (size_t i = 0; i < l.size(); ++i) { if (i) r += ';'; r += l[i]; }
    return r;
}
'''


def cpp_glue(db):
    """C++ source defining SQ(p)"""
    w = [RT]

    def rd(c, target):
        return "build(t, %s);" % target if c == "O" else "zsv::rd%s(t, %s);" % (c, target)

    def put(c, e):
        return "dump(r, %s);" % e if c == "O" else "zsv::out%s(r, %s);" % (c, e)
    for t in dict.fromkeys(t for _, t in db.tables):
        n = gname(t)
        T = cppname(t)
        ex = explicit_params(t)
        if ex:
            w.append("struct PP_%s : %s::IParameterProvider {" % (n, T))
            w.append("    Vals v; std::deque<std::string> keep; explicit PP_%s(const std::string& s) : v(parsePP(s)) {}" % n)
            w.append("    const std::string& val(%s::Row& row, size_t i) { std::string r;" % T)
            if getattr(t, "key", None) is not None:
                w.append("        if (row.is%sSet()) { %s }" % (cap(t.key.name), put(tcode(t.key.ty), "row.get%s()" % cap(t.key.name))))
            w.append("        (void)row; auto it = v.find(r); if (it == v.end()) it = v.find(\"*\"); return it->second.at(i); }")
            for i, (en, ty, d, q) in enumerate(ex):
                pt = "typename std::decay<decltype(std::declval<const %s&>().get%s())>::type" % (cppname(d), cap(q.name))
                c = tcode(ty)
                if c == "S":
                    w.append("    zserio::StringView get%s(%s::Row& row) override { zsv::Tok t(val(row, %d)); keep.emplace_back(); zsv::rdS(t, keep.back()); return keep.back(); }" % (cap(en), T, i))
                else:
                    w.append("    typename std::decay<decltype(std::declval<const %s&>().get%s())>::type get%s(%s::Row& row) override { zsv::Tok t(val(row, %d)); %s x{}; %s return x; }" % (
                        cppname(d), cap(q.name), cap(en), T, i, pt, rd(c, "x")))
            w.append("};")
        w.append("struct D_%s {\n    using T = %s; static constexpr bool HASPP = %s;%s" % (n, T, "true" if ex else "false", " using Prov = PP_%s;" % n if ex else ""))
        w.append("    static T::Row row(const std::string& cols, const std::string& toks) { T::Row o; const Strs v = split(toks, '^'); size_t i = 0;")
        for c in t.columns:
            cn = cap(c.name)
            w.append('        if (selected(cols, "%s")) { if (v.at(i) == "-") o.reset%s(); else { zsv::Tok t(v.at(i)); typename std::decay<decltype(o.get%s())>::type x{}; %s o.set%s(std::move(x)); } ++i; }' % (
                c.name, cn, cn, rd(tcode(c.ty), "x"), cn))
        w.append("        return o; }")
        w.append("    static std::string show(T::Row& o) { std::string r;")
        for i, c in enumerate(t.columns):
            cn = cap(c.name)
            w.append("        %sif (!o.is%sSet()) r += '-'; else { const auto& x = o.get%s(); %s }" % ("r += '^'; " if i else "", cn, cn, put(tcode(c.ty), "x")))
        w.append("        return r; }\n};")
    D = cppname(db)
    anypp = any(explicit_params(t) for _, t in db.tables)
    if anypp:
        w.append("struct DbPP : %s::IParameterProvider {" % D)
        for i, (inst, t) in enumerate(db.tables):
            if explicit_params(t):
                w.append("    std::unique_ptr<PP_%s> p%d; %s::IParameterProvider& get%sParameterProvider() override { return *p%d; }" % (gname(t), i, cppname(t), cap(inst), i))
        w.append("};")
    w.append("std::string sqDb(%s& db, const Strs& p) { std::string out;" % D)
    w.append("    for (size_t i = 7; i < p.size(); ++i) { const Strs a = split(p[i], '|'); std::string r; try {")
    w.append('        if (a[0] == "C") { if (a.size() > 1 && !a[1].empty()) { std::set<zserio::string<>> s; for (auto&& x : split(a[1], \',\')) s.insert(x); create(db, s, 0); } else db.createSchema(); r = "done"; }')
    w.append('        else if (a[0] == "D") { db.deleteSchema(); r = "done"; }')
    w.append('        else if (a[0] == "V") { Obs obs; std::map<std::string, std::string> m; for (auto&& e : split(a[1], \';\')) { const size_t k = e.find(\'=\'); if (k != std::string::npos) m[e.substr(0, k)] = e.substr(k + 1); }')
    if anypp:
        w.append("            DbPP pp;")
        for i, (inst, t) in enumerate(db.tables):
            if explicit_params(t):
                w.append('            pp.p%d.reset(new PP_%s(m["%s"]));' % (i, gname(t), inst))
        w.append("            db.validate(obs, pp);")
    else:
        w.append("            db.validate(obs);")
    w.append("            r = \"valid \" + std::to_string(obs.tables) + ' ' + std::to_string(obs.rows) + ' '; for (size_t k = 0; k < obs.l.size(); ++k) { if (k) r += ';'; r += obs.l[k]; } }")
    for inst, t in db.tables:
        w.append('        else if (a[1] == "%s") r = tableAct<D_%s>(db.get%s(), a);' % (inst, gname(t), cap(inst)))
    w.append('    } catch (const zserio::CppRuntimeException& e) { r = std::string("err CppRuntimeException ") + zsv::clean(e.what()); } catch (const std::exception& e) { r = std::string("err ") + zsv::clean(e.what()); }')
    w.append("    out += '\\t'; out += r; }\n    return out; }")
    w.append(r'''std::string sq(const Strs& p)
{
    std::map<zserio::string<>, zserio::string<>> reloc;
    for (auto&& e : split(p[5], ',')) { const size_t i = e.find('>'); if (i != std::string::npos) reloc[e.substr(0, i)] = e.substr(i + 1); }
    if (p[3] == "x")
    {
        sqlite3* c = nullptr; sqlite3_open(p[4].c_str(), &c);
        std::map<zserio::string<>, zserio::string<>> names; int k = 0;
        for (auto&& e : reloc) { if (k++ == 0) sqlite3_exec(c, ("ATTACH DATABASE '" + e.second + "' AS extdb").c_str(), nullptr, nullptr, nullptr); names[e.first] = "extdb"; }
        std::string r;
        { DB db(c, names); r = sqDb(db, p); }
        sqlite3_close(c);
        return "ok" + r;
    }
    DB db(p[4], reloc);
    return "ok" + sqDb(db, p);
}
}
'''.replace("DB ", D + " "))
    return "\n".join(w) + "\n"
