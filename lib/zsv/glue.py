"""Glue between generated services / pubsubs and the drivers: descriptors, Java implementation classes, C++ driver code."""
from . import langs
from .langs import cap, gname, cppname
from .model import *


def tdesc(ty):
    """B: bytes, otherwise the id of a compound"""
    return "B" if ty.base().kind == "bytes" else gname(ty.base().decl)


def svc_desc(s):
    return "%s|%s\t%s" % (s.pkg, s.name, ",".join("%s:%s:%s" % (m.name, tdesc(m.req), tdesc(m.resp)) for m in s.methods))


def ps_desc(p):
    return "%s|%s\t%s" % (p.pkg, p.name, ",".join("%s:%s" % (m.name, tdesc(m.ty)) for m in p.messages))


def jtype(ty):
    return "byte[]" if tdesc(ty) == "B" else langs.jclass(ty.base().decl)


def java_glue(services):
    """{file: text}"""
    out = {}
    for s in services:
        c = "Impl_" + s.name
        w = ["package zsvglue;", "public class %s extends %s.%s.%sService\n{" % (c, s.pkg, s.name, s.name),
             "    public java.util.function.BiFunction<Integer, Object[], Object> h;"]
        for i, m in enumerate(s.methods):
            w.append("    @Override protected %s %sImpl(%s request, Object context) { return (%s)h.apply(%d, new Object[] {request, context}); }" % (
                jtype(m.resp), m.name, jtype(m.req), jtype(m.resp), i))
        w.append("}")
        out["zsvglue/%s.java" % c] = "\n".join(w) + "\n"
    return out


def cpp_glue(services, pubsubs, objs):
    """C++ source defining SV(p) and PB(p)"""
    w = ["namespace {", "using zsv::u2s;", "using Strs = std::vector<std::string>;"]
    w.append(r'''
struct Boom {};
inline std::string hx(zserio::Span<const uint8_t> d) { std::string r; zsv::hex(r, d.data(), d.size()); return r; }
inline std::string hs(zserio::StringView v) { std::string r; zsv::hex(r, reinterpret_cast<const uint8_t*>(v.data()), v.size()); return r; }
inline std::string cx(void* c) { return c == nullptr ? "-" : std::to_string(*static_cast<int*>(c)); }
inline Strs split(const std::string& s, char c)
{
    Strs r; size_t b = 0;
    for (;;) { const size_t e = s.find(c, b); if (e == std::string::npos) { r.push_back(s.substr(b)); return r; } r.push_back(s.substr(b, e - b)); b = e + 1; }
}
inline std::vector<uint8_t> rawtok(const std::string& t) { return zsv::unhex(t, 1); }
struct Ctx
{
    int v = 0; bool has = false;
    explicit Ctx(const std::string& s) { if (s != "-") { v = std::stoi(s); has = true; } }
    void* get() { return has ? &v : nullptr; }
};
struct Call { std::string mode, m, ctx, req, resp; };
struct Transport : zserio::IServiceClient
{
    zserio::IService* s = nullptr; std::string* log = nullptr; bool fail = false;
    zserio::vector<uint8_t> callMethod(zserio::StringView name, const zserio::IServiceData& d, void* context) override
    {
        *log += "wire " + hs(name) + ' ' + hx(d.getData()) + ' ' + cx(context) + " obj=" + (d.getReflectable() ? "refl" : "none") + " ; ";
        if (fail)
            throw Boom();
        const std::vector<uint8_t> copy(d.getData().begin(), d.getData().end());
        const auto r = s->callMethod(name, copy, context);
        *log += "resp " + hx(r->getData()) + " ; ";
        return zserio::vector<uint8_t>(r->getData().begin(), r->getData().end());
    }
};
struct Broker : zserio::IPubsub
{
    struct Sub { SubscriptionId id; std::string topic; std::shared_ptr<OnTopicCallback> cb; };
    std::vector<Sub> subs; std::string* log = nullptr; SubscriptionId next = 7;
    void deliver(const std::string& topic, zserio::Span<const uint8_t> data)
    {
        const std::vector<Sub> now = subs;
        for (const Sub& s : now)
            if (s.topic == topic)
                try { (*s.cb)(topic, data); } catch (const Boom&) { *log += "cberr ; "; }
    }
    void publish(zserio::StringView topic, zserio::Span<const uint8_t> data, void* context) override
    {
        *log += "pub " + hs(topic) + ' ' + hx(data) + ' ' + cx(context) + " ; ";
        deliver(std::string(topic.data(), topic.size()), data);
    }
    SubscriptionId subscribe(zserio::StringView topic, const std::shared_ptr<OnTopicCallback>& cb, void* context) override
    {
        const SubscriptionId id = next; next += 5;
        *log += "sub " + hs(topic) + ' ' + cx(context) + ' ' + u2s(id) + " ; ";
        subs.push_back(Sub{id, std::string(topic.data(), topic.size()), cb});
        return id;
    }
    void unsubscribe(SubscriptionId id) override
    {
        *log += "unsub " + u2s(id) + " ; ";
        for (size_t i = 0; i < subs.size(); ++i)
            if (subs[i].id == id) { subs.erase(subs.begin() + static_cast<long>(i)); return; }
    }
};
template <class K> std::unique_ptr<typename K::T> mk(const std::string& s)
{
    zsv::Tok t(s); zsv::Tok pt(s); pt.next();
    std::unique_ptr<typename K::T> o(new typename K::T());
    K::build(t, *o);
    zsv::initChildren(*o, 0);
    return o;
}
''')

    def obj(var, ty, tok):
        """C++ statements which define var from tokens"""
        if tdesc(ty) == "B":
            return "const zserio::vector<uint8_t> %s_v = [&] { const auto b = rawtok(%s); return zserio::vector<uint8_t>(b.begin(), b.end()); }(); const zserio::Span<const uint8_t> %s(%s_v.data(), %s_v.size());" % (
                var, tok, var, var, var)
        return "const auto %s_p = mk<K_%s>(%s); auto& %s = *%s_p;" % (var, tdesc(ty), tok, var, var)

    def dmp(ty, e):
        return "log += 'b'; log += hx(%s);" % e if tdesc(ty) == "B" else "K_%s::dump(log, %s);" % (tdesc(ty), e)

    for s in services:
        ns = "::%s::%s" % (s.pkg.replace(".", "::"), s.name)
        w.append("struct Impl_%s : %s::Service {" % (s.name, ns))
        w.append("    std::string* plog = nullptr; const Call* call = nullptr;")
        for i, m in enumerate(s.methods):
            rt = "::zserio::vector<uint8_t>" if tdesc(m.resp) == "B" else cppname(m.resp.base().decl)
            qt = "::zserio::Span<const uint8_t>" if tdesc(m.req) == "B" else "const %s&" % cppname(m.req.base().decl)
            w.append("    %s %sImpl(%s request, void* context) override {" % (rt, m.name, qt))
            w.append('        std::string& log = *plog; log += "impl %d " + cx(context) + \' \'; %s log += " ; ";' % (i, dmp(m.req, "request")))
            w.append('        if (call->mode == "e") throw Boom();')
            w.append("        %s" % obj("r", m.resp, "call->resp"))
            w.append("        return %s;" % ("r_v" if tdesc(m.resp) == "B" else "std::move(r)"))
            w.append("    }")
        w.append("};")
        w.append("std::string sv_%s(const Strs& p) {" % s.name)
        w.append("    std::string out = \"ok\\t\"; out += hs(%s::Service::serviceFullName()); out += '\\t';" % ns)
        w.append("    for (auto&& n : %s::Service::methodNames()) { out += hs(n); out += ','; }" % ns)
        w.append("    Impl_%s impl; Transport tr; tr.s = &impl; %s::Client client(tr);" % (s.name, ns))
        w.append("    for (size_t i = 4; i < p.size(); ++i) {")
        w.append("        const Strs c = split(p[i], ';'); Call call{c[0], c[1], c[2], c[3], c[4]}; std::string log; Ctx ctx(call.ctx);")
        w.append("        impl.plog = &log; impl.call = &call; tr.log = &log; tr.fail = call.mode == \"t\";")
        w.append("        try {")
        w.append('            if (call.mode == "u" || call.mode == "d") { const auto n = zsv::unhex(call.m); const auto d = zsv::unhex(call.req);')
        w.append("                const auto r = static_cast<zserio::IService&>(impl).callMethod(zserio::StringView(reinterpret_cast<const char*>(n.data()), n.size()), d, ctx.get());")
        w.append('                log += "raw " + hx(r->getData()); }')
        w.append("            else switch (std::stoi(call.m)) {")
        for i, m in enumerate(s.methods):
            w.append("            case %d: { %s" % (i, obj("q", m.req, "call.req")))
            w.append("                const auto r = ctx.has ? client.%sMethod(q, ctx.get()) : client.%sMethod(q); log += \"got \"; %s break; }" % (m.name, m.name, dmp(m.resp, "r")))
        w.append("            default: break; }")
        w.append("        }")
        w.append('        catch (const Boom&) { log += "err boom"; }')
        w.append('        catch (const zserio::ServiceException& e) { log += "err ServiceException"; }')
        w.append('        catch (const std::exception& e) { log += std::string("err ") + zsv::clean(e.what()); }')
        w.append("        out += '\\t'; out += log;")
        w.append("    }")
        w.append("    return out;\n}")
    w.append("template <class T, class = void> struct Has { };")
    for p in pubsubs:
        cls = "::%s::%s" % (p.pkg.replace(".", "::"), p.name)
        for m in p.messages:
            for k in ("publish", "subscribe"):
                x = k + cap(m.name)
                w.append("template <class T> char has_%s_%s(decltype(&T::%s)); template <class T> long has_%s_%s(...);" % (p.name, x, x, p.name, x))
        for i, m in enumerate(p.messages):
            if not m.sub:
                continue
            mt = "::zserio::Span<const uint8_t>" if tdesc(m.ty) == "B" else cppname(m.ty.base().decl)
            w.append("struct Cb_%s_%d : %s::%sCallback<%s> {" % (p.name, i, cls, p.name, mt))
            w.append("    std::string label; std::string** log_; void operator()(::zserio::StringView topic, const %s& message) override {" % mt)
            w.append('        std::string& log = **log_; log += "cb " + label + \' \' + hs(topic) + \' \'; %s log += " ; "; if (label.back() == \'!\') throw Boom(); } };' % dmp(m.ty, "message"))
        w.append("std::string pb_%s(const Strs& p) {" % p.name)
        w.append("    std::string out = \"ok\\t\";")
        for m in p.messages:
            w.append("    out += sizeof(has_%s_publish%s<%s>(nullptr)) == 1 ? '1' : '0'; out += sizeof(has_%s_subscribe%s<%s>(nullptr)) == 1 ? '1' : '0'; out += ',';" % (
                p.name, cap(m.name), cls, p.name, cap(m.name), cls))
        w.append("    Broker br; %s ps(br); std::map<std::string, zserio::IPubsub::SubscriptionId> ids; std::string* cur = nullptr;" % cls)
        w.append("    for (size_t i = 4; i < p.size(); ++i) {")
        w.append("        const Strs c = split(p[i], ';'); std::string log; br.log = &log; cur = &log; Ctx ctx(c[2]);")
        w.append("        try {")
        w.append('            if (c[0] == "U") ps.unsubscribe(ids.at(c[1]));')
        w.append('            else if (c[0] == "T") { const auto n = zsv::unhex(c[1]); const auto d = zsv::unhex(c[3]); br.deliver(std::string(n.begin(), n.end()), d); }')
        w.append("            else switch (std::stoi(c[1])) {")
        for i, m in enumerate(p.messages):
            w.append("            case %d:" % i)
            if m.pub:
                w.append('                if (c[0] == "P") { %s if (ctx.has) ps.publish%s(q, ctx.get()); else ps.publish%s(q); }' % (obj("q", m.ty, "c[3]"), cap(m.name), cap(m.name)))
            if m.sub:
                w.append('                if (c[0] == "S") { const auto cb = std::make_shared<Cb_%s_%d>(); cb->label = c[3]; cb->log_ = &cur; const auto id = ctx.has ? ps.subscribe%s(cb, ctx.get()) : ps.subscribe%s(cb); ids[c[3]] = id; log += "id " + u2s(id); }' % (
                    p.name, i, cap(m.name), cap(m.name)))
            w.append("                break;")
        w.append("            default: break; }")
        w.append("        }")
        w.append('        catch (const Boom&) { log += "err boom"; }')
        w.append('        catch (const std::exception& e) { log += std::string("err ") + zsv::clean(e.what()); }')
        w.append("        out += '\\t'; out += log;")
        w.append("    }")
        w.append("    return out;\n}")
    w.append("std::string gl(const Strs& p) {")
    for s in services:
        w.append('    if (p[0] == "SV" && p[2] == "%s|%s") return sv_%s(p);' % (s.pkg, s.name, s.name))
    for s in pubsubs:
        w.append('    if (p[0] == "PB" && p[2] == "%s|%s") return pb_%s(p);' % (s.pkg, s.name, s.name))
    w.append('    return "FAIL\\tunknown service"; }')
    w.append("}")
    return "\n".join(w) + "\n"
