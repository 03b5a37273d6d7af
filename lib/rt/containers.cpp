// Executes operation histories on the containers of the C++ runtime and prints what happened.
// Every contained object registers itself: constructing over a live object, using or destroying a dead one is an error.
// Every memory resource keeps track of its blocks: a block has to come back to the same resource with the same size and alignment.
#include <iostream>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>
#include <set>
#include <map>
#include <cstdlib>
#include <cstring>
#include <optional>
#include <algorithm>
#include <iterator>
#include "zserio/OptionalHolder.h"
#include "zserio/AnyHolder.h"
#include "zserio/Span.h"
#include "zserio/StringView.h"
#include "zserio/StringConvertUtil.h"
#include "zserio/UniquePtr.h"
#include "zserio/Vector.h"
#include "zserio/String.h"
#include "zserio/AllocatorPropagatingCopy.h"
#include "zserio/pmr/PolymorphicAllocator.h"
#include "zserio/pmr/NewDeleteResource.h"

using zserio::NoInit;

static std::string g_error;
static void error(const std::string& e) { if (g_error.empty()) { g_error = e; } }

static std::map<const void*, size_t> g_live;
static long g_throw = -1;       // countdown to an exception
static bool g_armed = false;
struct Thrown : std::exception {};
static void step() { if (g_throw >= 0 && g_throw-- == 0) { throw Thrown(); } }

struct Resource : zserio::pmr::MemoryResource
{
    explicit Resource(int i) : id(i) {}
    int id;
    std::map<void*, std::pair<size_t, size_t>> blocks;
    void* doAllocate(size_t bytes, size_t alignment) override
    {
        step();
        void* p = ::operator new(bytes ? bytes : 1, std::align_val_t(alignment));
        blocks[p] = {bytes, alignment};
        return p;
    }
    void doDeallocate(void* p, size_t bytes, size_t alignment) override
    {
        auto f = blocks.find(p);
        if (f == blocks.end()) { error("block returned to the wrong resource or twice"); return; }
        if (f->second != std::make_pair(bytes, alignment)) { error("block returned with another size or alignment"); }
        alignment = f->second.second;
        blocks.erase(f);
        ::operator delete(p, std::align_val_t(alignment));
    }
    bool doIsEqual(const MemoryResource& other) const noexcept override { return this == &other; }
};
static Resource* g_res[3];

template <int KIND, bool NOTHROW, size_t PAD>
struct alignas(PAD % 64 == 48 ? 16 : 8) Obj
{
    int v; int mark;
    std::array<char, PAD> pad;
    void reg() { if (!g_live.emplace(this, sizeof(*this)).second) { error("constructed over a live object"); } }
    void check() const { auto f = g_live.find(this); if (f == g_live.end()) { error("use of a dead object"); } }
    explicit Obj(int x) : v(x), mark(0) { step(); reg(); }
    Obj(int x, int y) : v(x + y), mark(0) { step(); reg(); }
    Obj(const Obj& o) : v(o.v), mark(0) { o.check(); step(); reg(); }
    Obj(zserio::NoInitT, const Obj& o) : v(o.v), mark(1) { o.check(); step(); reg(); }
    Obj(Obj&& o) noexcept(NOTHROW) : v(o.v), mark(0) { o.check(); if (!NOTHROW) { step(); } o.v = -1; reg(); }
    Obj(zserio::NoInitT, Obj&& o) : v(o.v), mark(1) { o.check(); if (!NOTHROW) { step(); } o.v = -1; reg(); }
    Obj& operator=(const Obj& o) { o.check(); check(); step(); v = o.v; mark = 0; return *this; }
    Obj& operator=(Obj&& o) noexcept(NOTHROW) { o.check(); check(); if (!NOTHROW) { step(); } v = o.v; if (this != &o) { o.v = -1; } mark = 0; return *this; }
    ~Obj() { if (g_live.erase(this) == 0) { error("destroyed twice or never constructed"); } }
    bool operator==(const Obj& o) const { check(); o.check(); return v == o.v; }
    bool operator<(const Obj& o) const { check(); o.check(); return v < o.v; }
    std::string str() const { check(); return std::to_string(v) + (mark ? "'" : ""); }
    bool aligned() const { return reinterpret_cast<uintptr_t>(this) % alignof(Obj) == 0; }
};
template <size_t P> using Sz = std::array<char, P>;
using Small = Obj<0, true, 0>;
using Big = Obj<1, true, 72>;
using Thrower = Obj<2, false, 0>;
using Aligned = Obj<3, true, 48>;
using PA = zserio::pmr::PolymorphicAllocator<>;
using PP = zserio::pmr::PropagatingPolymorphicAllocator<>;

struct In
{
    std::istringstream s;
    std::string w() { std::string x; s >> x; return x; }
    int i() { int x = 0; s >> x; return x; }
};

// ------------------------------------------------------------------- optional holders
template <typename A> struct AllocOf
{
    static A make(int r) { return A(g_res[r]); }
    template <typename B> static std::string id(const B& a) { return std::to_string(static_cast<Resource*>(a.resource())->id); }
};
template <> struct AllocOf<std::allocator<uint8_t>>
{
    static std::allocator<uint8_t> make(int) { return {}; }
    template <typename B> static std::string id(const B&) { return "-"; }
};

template <typename T, typename A> struct HeapTr
{
    using AL = zserio::RebindAlloc<A, T>;
    using H = zserio::HeapOptionalHolder<T, AL>;
    static constexpr bool HEAP = true;
    static AL al(int r) { return AL(AllocOf<A>::make(r)); }
    static H make(int r) { return H(AL(AllocOf<A>::make(r))); }
    static H null(int r) { return H(zserio::NullOpt, AL(AllocOf<A>::make(r))); }
    static H val(const T& t, int r) { return H(t, AL(AllocOf<A>::make(r))); }
    static H val(T&& t, int r) { return H(std::move(t), AL(AllocOf<A>::make(r))); }
    static H noinit(T&& t, int r) { return H(NoInit, std::move(t), AL(AllocOf<A>::make(r))); }
    static H args(int x, int y, int r) { return H(AL(AllocOf<A>::make(r)), x, y); }
    static std::string id(const H& h) { return AllocOf<A>::id(h.get_allocator()); }
    static void copyTo(void* m, const H& h, int r) { new (m) H(h, AL(AllocOf<A>::make(r))); }
    static void moveTo(void* m, H& h, int r) { new (m) H(std::move(h), AL(AllocOf<A>::make(r))); }
};
template <typename T> struct InTr
{
    using H = zserio::InplaceOptionalHolder<T>;
    static constexpr bool HEAP = false;
    static PA al(int r) { return PA(g_res[r]); }
    static H make(int) { return H(); }
    static H null(int) { return H(zserio::NullOpt); }
    static H val(const T& t, int) { return H(t); }
    static H val(T&& t, int) { return H(std::move(t)); }
    static H noinit(T&& t, int) { return H(NoInit, std::move(t)); }
    static H args(int x, int y, int) { return H(zserio::InPlace, x, y); }
    static std::string id(const H&) { return "-"; }
    static void copyTo(void* m, const H& h, int) { new (m) H(h); }
    static void moveTo(void* m, H& h, int) { new (m) H(std::move(h)); }
};

template <typename H> struct Slot
{
    alignas(H) unsigned char mem[sizeof(H)];
    H* h() { return reinterpret_cast<H*>(mem); }
};

template <typename TR, typename T> std::string optional(In& in)
{
    using H = typename TR::H;
    const int N = 3;
    Slot<H> s[N];
    for (int i = 0; i < N; ++i) { new (s[i].mem) H(TR::make(i)); }
    std::string out;
    std::string op;
    while (!(op = in.w()).empty())
    {
        int i = in.i(), j = in.i(), x = in.i(), k = in.i();     // slot, other slot, value / resource, exception countdown
        H& a = *s[i].h(); H& b = *s[j].h();
        const H& ca = a; const H& cb = b;
        std::string r = ".";
        T tmp(x);
        g_throw = k; g_armed = k >= 0;
        // a slot which is constructed again: when the constructor throws, the slot gets an empty holder
#define REMAKE(EXPR) { a.~H(); bool done = false; try { EXPR; done = true; } catch (...) { g_throw = -1; } if (!done) { new (s[i].mem) H(TR::make(i)); r = "T"; } }
        try
        {
            if (op == "reset") { a.reset(); }
            else if (op == "set") { a = static_cast<const T&>(tmp); }
            else if (op == "setm") { a = std::move(tmp); }
            else if (op == "copy") { a = cb; }
            else if (op == "move") { a = std::move(b); }
            else if (op == "ncopy") { a.assign(NoInit, cb); }
            else if (op == "nmove") { a.assign(NoInit, std::move(b)); }
            else if (op == "self") { a = *a; }
            else if (op == "selfm") { a = std::move(*a); }
            else if (op == "ccopy") REMAKE(new (s[i].mem) H(cb))
            else if (op == "cmove") REMAKE(new (s[i].mem) H(std::move(b)))
            else if (op == "cncopy") REMAKE(new (s[i].mem) H(NoInit, cb))
            else if (op == "cnmove") REMAKE(new (s[i].mem) H(NoInit, std::move(b)))
            else if (op == "acopy") REMAKE(TR::copyTo(s[i].mem, cb, x % 3))
            else if (op == "amove") REMAKE(TR::moveTo(s[i].mem, b, x % 3))
            else if (op == "prop") REMAKE(new (s[i].mem) H(zserio::allocatorPropagatingCopy(cb, TR::al(x % 3))))
            else if (op == "val") REMAKE(new (s[i].mem) H(TR::val(static_cast<const T&>(tmp), x % 3)))
            else if (op == "valm") REMAKE(new (s[i].mem) H(TR::val(std::move(tmp), x % 3)))
            else if (op == "nval") REMAKE(new (s[i].mem) H(TR::noinit(std::move(tmp), x % 3)))
            else if (op == "args") REMAKE(new (s[i].mem) H(TR::args(x, 1, x % 3)))
            else if (op == "null") REMAKE(new (s[i].mem) H(TR::null(x % 3)))
            else if (op == "mod") { (*a).v = x; }
            else if (op == "modp") { a->v = x; }
            else if (op == "modv") { a.value().v = x; }
            else if (op == "get") { r = (*ca).str() + "," + std::to_string(ca->v) + "," + ca.value().str(); }
            else if (op == "cmp") { r = std::string(ca == cb ? "1" : "0") + (ca < cb ? "1" : "0") + (cb < ca ? "1" : "0") + (ca ? "1" : "0"); }
            else { r = "?"; }
        }
        catch (const Thrown&) { r = g_armed ? "T" : "T?"; }
        catch (const zserio::CppRuntimeException& e) { r = "X"; }
        g_throw = -1;
        out += r + "[";
        for (int q = 0; q < N; ++q)
        {
            H& h = *s[q].h();
            if (h.hasValue() && !(*h).aligned()) { error("value is not aligned"); }
            if (h.hasValue() != static_cast<bool>(h)) { error("hasValue and operator bool differ"); }
            out += (h.hasValue() ? (*h).str() : std::string("_")) + "@" + TR::id(h) + " ";
        }
        size_t vals = 0;
        for (int q = 0; q < N; ++q) { vals += s[q].h()->hasValue(); }
        if (g_live.size() != vals + 1) { error("number of live objects after " + op + ": " + std::to_string(g_live.size()) + ", holders and local: " + std::to_string(vals + 1)); }
        out += "]";
        if (!g_error.empty()) { break; }
    }
    for (int i = 0; i < N; ++i) { s[i].h()->~H(); }
    return out;
}

// ------------------------------------------------------------------- any holder
template <typename A> std::string any(In& in)
{
    using H = zserio::AnyHolder<A>;
    const int N = 3;
    Slot<H> s[N];
    for (int i = 0; i < N; ++i) { new (s[i].mem) H(AllocOf<A>::make(i)); }
    std::string out;
    std::string op;
    auto show = [](const H& h) -> std::string {
        if (!h.hasValue()) { return "_"; }
        int n = h.template isType<Small>() + h.template isType<Big>() + h.template isType<Thrower>() + h.template isType<Aligned>() + h.template isType<int>() + h.template isType<std::string>();
        if (n != 1) { return "types:" + std::to_string(n); }
        try {
            if (h.template isType<Small>()) { return "0:" + h.template get<Small>().str(); }
            if (h.template isType<Big>()) { return "1:" + h.template get<Big>().str(); }
            if (h.template isType<Thrower>()) { return "2:" + h.template get<Thrower>().str(); }
            if (h.template isType<Aligned>()) { if (!h.template get<Aligned>().aligned()) { error("value is not aligned"); } return "3:" + h.template get<Aligned>().str(); }
            if (h.template isType<int>()) { return "4:" + std::to_string(h.template get<int>()); }
            return "5:" + h.template get<std::string>();
        } catch (const zserio::CppRuntimeException&) { return "novalue"; }
    };
    while (!(op = in.w()).empty())
    {
        int i = in.i(), j = in.i(), ty = in.i(), x = in.i(), k = in.i();
        H& a = *s[i].h(); H& b = *s[j].h();
        const H& ca = a; const H& cb = b;
        std::string r = ".";
        g_throw = -1;
        Small t0(x); Big t1(x); Thrower t2(x); Aligned t3(x); int t4 = x; std::string t5(static_cast<size_t>(x % 40), static_cast<char>('a' + x % 26));
        g_throw = k; g_armed = k >= 0;
#define BYTYPE(EXPR) switch (ty) { case 0: { auto& t = t0; using T = Small; (void)sizeof(T); EXPR; break; } case 1: { auto& t = t1; using T = Big; (void)sizeof(T); EXPR; break; } \
        case 2: { auto& t = t2; using T = Thrower; (void)sizeof(T); EXPR; break; } case 3: { auto& t = t3; using T = Aligned; (void)sizeof(T); EXPR; break; } \
        case 4: { auto& t = t4; using T = int; (void)sizeof(T); EXPR; break; } default: { auto& t = t5; using T = std::string; (void)sizeof(T); EXPR; break; } }
#define REMAKE2(EXPR) { a.~H(); bool done = false; try { EXPR; done = true; } catch (...) { g_throw = -1; } if (!done) { new (s[i].mem) H(AllocOf<A>::make(i)); r = "T"; } }
        try
        {
            if (op == "reset") { a.reset(); }
            else if (op == "set") { BYTYPE(a.set(static_cast<const T&>(t))) }
            else if (op == "setm") { BYTYPE(a.set(std::move(t))) }
            else if (op == "asg") { BYTYPE(a = static_cast<const T&>(t)) }
            else if (op == "nset") { BYTYPE(a.set(NoInit, static_cast<const T&>(t))) }
            else if (op == "nsetm") { BYTYPE(a.set(NoInit, std::move(t))) }
            else if (op == "copy") { a = cb; }
            else if (op == "move") { a = std::move(b); }
            else if (op == "ncopy") { a.assign(NoInit, cb); }
            else if (op == "nmove") { a.assign(NoInit, std::move(b)); }
            else if (op == "ccopy") REMAKE2(new (s[i].mem) H(cb))
            else if (op == "cmove") REMAKE2(new (s[i].mem) H(std::move(b)))
            else if (op == "cncopy") REMAKE2(new (s[i].mem) H(NoInit, cb))
            else if (op == "cnmove") REMAKE2(new (s[i].mem) H(NoInit, std::move(b)))
            else if (op == "acopy") REMAKE2(new (s[i].mem) H(cb, AllocOf<A>::make(x % 3)))
            else if (op == "amove") REMAKE2(new (s[i].mem) H(std::move(b), AllocOf<A>::make(x % 3)))
            else if (op == "nacopy") REMAKE2(new (s[i].mem) H(NoInit, cb, AllocOf<A>::make(x % 3)))
            else if (op == "namove") REMAKE2(new (s[i].mem) H(NoInit, std::move(b), AllocOf<A>::make(x % 3)))
            else if (op == "prop") { BYTYPE(REMAKE2(new (s[i].mem) H(zserio::allocatorPropagatingCopy<T>(cb, AllocOf<A>::make(x % 3))))) }
            else if (op == "val") { BYTYPE(REMAKE2(new (s[i].mem) H(static_cast<const T&>(t), AllocOf<A>::make(x % 3)))) }
            else if (op == "valm") { BYTYPE(REMAKE2(new (s[i].mem) H(std::move(t), AllocOf<A>::make(x % 3)))) }
            else if (op == "nval") { BYTYPE(REMAKE2(new (s[i].mem) H(NoInit, static_cast<const T&>(t), AllocOf<A>::make(x % 3)))) }
            else if (op == "self") { BYTYPE(if (ca.template isType<T>()) { a.set(ca.template get<T>()); }) }
            else if (op == "get") { BYTYPE(r = a.template isType<T>() ? "1" : "0"; (void)a.template get<T>(); (void)ca.template get<T>(); r += "v") }
            else if (op == "mod") { BYTYPE(a.template get<T>() = t) }
            else { r = "?"; }
        }
        catch (const Thrown&) { r = g_armed ? "T" : "T?"; }
        catch (const zserio::CppRuntimeException& e) { r += "X"; }
        g_throw = -1;
        out += r + "[";
        size_t vals = 0;
        for (int q = 0; q < N; ++q)
        {
            const H& h = *s[q].h();
            std::string sh = show(h);
            vals += sh[0] >= '0' && sh[0] <= '3';
            out += sh + "@" + AllocOf<A>::id(h.get_allocator()) + " ";
        }
        if (g_live.size() != vals + 4) { error("number of live objects after " + op + ": " + std::to_string(g_live.size()) + ", expected " + std::to_string(vals + 4)); }
        out += "]";
        if (!g_error.empty()) { break; }
    }
    for (int i = 0; i < N; ++i) { s[i].h()->~H(); }
    return out;
}

// ------------------------------------------------------------------- vectors and strings
template <typename A> std::string vectors(In& in)
{
    using AL = zserio::RebindAlloc<A, Big>;
    using V = zserio::vector<Big, AL>;
    const int N = 3;
    Slot<V> s[N];
    for (int i = 0; i < N; ++i) { new (s[i].mem) V(AL(AllocOf<A>::make(i))); }
    std::string out;
    std::string op;
    while (!(op = in.w()).empty())
    {
        int i = in.i(), j = in.i(), x = in.i(), k = in.i();
        V& a = *s[i].h(); V& b = *s[j].h();
        const V& cb = b;
        std::string r = ".";
        g_throw = -1; g_armed = false;
        (void)k;
#define REMAKE3(EXPR) { a.~V(); EXPR; }
        if (op == "push") { a.push_back(Big(x)); }
        else if (op == "emp") { a.emplace_back(x, 1); }
        else if (op == "pop") { if (!a.empty()) { a.pop_back(); } }
        else if (op == "ins") { a.insert(a.begin() + x % static_cast<int>(a.size() + 1), Big(x)); }
        else if (op == "era") { if (!a.empty()) { a.erase(a.begin() + x % static_cast<int>(a.size())); } }
        else if (op == "clear") { a.clear(); }
        else if (op == "shrink") { a.shrink_to_fit(); }
        else if (op == "reserve") { a.reserve(static_cast<size_t>(x % 50)); }
        else if (op == "resize") { a.resize(static_cast<size_t>(x % 20), Big(x)); }
        else if (op == "copy") { a = cb; }
        else if (op == "move") { if (i != j) { a = std::move(b); } }
        else if (op == "ccopy") REMAKE3(new (s[i].mem) V(cb))
        else if (op == "cmove") REMAKE3(new (s[i].mem) V(std::move(b)))
        else if (op == "acopy") REMAKE3(new (s[i].mem) V(cb, AL(AllocOf<A>::make(x % 3))))
        else if (op == "amove") REMAKE3(new (s[i].mem) V(std::move(b), AL(AllocOf<A>::make(x % 3))))
        else if (op == "prop") REMAKE3(new (s[i].mem) V(zserio::allocatorPropagatingCopy(cb, AllocOf<A>::make(x % 3))))
        else if (op == "swap") { if (AL::propagate_on_container_swap::value || a.get_allocator() == b.get_allocator()) { a.swap(b); } }
        else { r = "?"; }
        out += r + "[";
        size_t vals = 0;
        for (int q = 0; q < N; ++q)
        {
            V& h = *s[q].h();
            for (const Big& o : h) { out += std::to_string(o.v) + ","; vals++; }
            out += "@" + AllocOf<A>::id(h.get_allocator()) + " ";
        }
        if (g_live.size() != vals) { error("number of live objects after " + op); }
        out += "]";
        if (!g_error.empty()) { break; }
    }
    for (int i = 0; i < N; ++i) { s[i].h()->~V(); }
    return out;
}

// vectors of strings and holders of them: everything a propagating copy allocates comes from the given resource
template <typename A> std::string deep(In& in)
{
    using S = zserio::string<zserio::RebindAlloc<A, char>>;
    using V = zserio::vector<S, zserio::RebindAlloc<A, S>>;
    using HO = zserio::HeapOptionalHolder<V, zserio::RebindAlloc<A, V>>;
    using IO = zserio::InplaceOptionalHolder<V>;
    int from = in.i(), to = in.i(), n = in.i(), len = in.i();
    A af(g_res[from]), at(g_res[to]);
    std::string out;
    {
        V v(af);
        for (int i = 0; i < n; ++i) { v.push_back(S(static_cast<size_t>(len + i), 'x', af)); }
        HO ho(v, af);
        zserio::AnyHolder<A> ah(v, af);
        IO io(v);
        HO empty(af);
        const size_t before = g_res[from]->blocks.size() + g_res[(from + 1) % 3]->blocks.size() + g_res[(from + 2) % 3]->blocks.size();
        const size_t toBefore = g_res[to]->blocks.size();
        V v2(zserio::allocatorPropagatingCopy(v, at));
        HO ho2(zserio::allocatorPropagatingCopy(ho, at));
        IO io2(zserio::allocatorPropagatingCopy(io, at));
        HO empty2(zserio::allocatorPropagatingCopy(empty, at));
        S s2(zserio::allocatorPropagatingCopy(n ? v[0] : S("abc", af), at));
        zserio::AnyHolder<A> ah2(zserio::allocatorPropagatingCopy<V>(ah, at));
        const size_t after = g_res[0]->blocks.size() + g_res[1]->blocks.size() + g_res[2]->blocks.size();
        out += v2 == v && *ho2 == v && *io2 == v && ah2.template get<V>() == v && !empty2.hasValue() && s2 == (n ? v[0] : S("abc", af)) ? "1" : "0";
        out += after - before == g_res[to]->blocks.size() - toBefore ? "1" : "0";
        out += v2.get_allocator().resource() == g_res[to] && ho2.get_allocator().resource() == g_res[to] && (*ho2).get_allocator().resource() == g_res[to] &&
                (*io2).get_allocator().resource() == g_res[to] && ah2.get_allocator().resource() == g_res[to] && ah2.template get<V>().get_allocator().resource() == g_res[to] &&
                s2.get_allocator().resource() == g_res[to] ? "1" : "0";
        for (const S& x : v2) { out += x.get_allocator().resource() == g_res[to] ? "" : "!"; }
    }
    return out;
}

// ------------------------------------------------------------------- views: zserio's answer and the standard's
static std::string hexs(const std::string& h)
{
    std::string o;
    if (h == "-") { return o; }
    for (size_t i = 0; i + 1 < h.size(); i += 2) { o += static_cast<char>(std::stoi(h.substr(i, 2), nullptr, 16)); }
    return o;
}
static int sgn(int x) { return (x > 0) - (x < 0); }
template <typename F> static std::string att(F f)
{
    try { return f(); } catch (const std::out_of_range&) { return "X"; } catch (const zserio::CppRuntimeException&) { return "X"; }
}
template <typename SV> static std::string view(const std::string& op, const std::string& A, const std::string& B, size_t p, size_t n, size_t p2, size_t n2)
{
    // exact heap blocks so that reading outside of them is seen
    std::vector<char> da(A.begin(), A.end()), db(B.begin(), B.end());
    std::vector<char> zb(db); zb.push_back(0);
    SV a(da.data(), da.size()), b(db.data(), db.size());
    auto N = [](size_t x) { return x == SV::npos ? std::string("npos") : std::to_string(x); };
    auto str = [](SV v) { return std::string(v.data() ? std::string(v.data(), v.size()) : std::string()); };
    const char c = B.empty() ? 'q' : B[0];
    const bool def = p == 77777;
    // searching for none of no characters has the answer "nothing" here
    if (op.find("_not_") != std::string::npos && (db.empty() || db[0] == 0)) { return "-"; }
    if (op.find("_not_") != std::string::npos && n == 0) { n = 1; }
#define FINDER(NAME) if (op == #NAME) { return def ? N(a.NAME(b)) + "," + N(a.NAME(c)) + "," + N(a.NAME(zb.data())) : \
        N(a.NAME(b, p)) + "," + N(a.NAME(c, p)) + "," + N(a.NAME(zb.data(), p)) + "," + N(a.NAME(db.data(), p, std::min(n, db.size()))); }
    FINDER(find) FINDER(rfind) FINDER(find_first_of) FINDER(find_last_of) FINDER(find_first_not_of) FINDER(find_last_not_of)
    if (op == "substr") { return att([&] { return def ? str(a.substr()) + "|" + str(a.substr(n)) : str(a.substr(p, n)); }); }
    if (op == "copy") { return att([&] { std::string d(std::min(n, da.size()) + 1, '#'); size_t r = a.copy(&d[0], std::min(n, da.size()), p); return N(r) + d; }); }
    if (op == "cmp") { return std::to_string(sgn(a.compare(b))) + std::to_string(sgn(b.compare(a))) + (a == b ? "1" : "0") + (a != b ? "1" : "0") + (a < b ? "1" : "0") + (a <= b ? "1" : "0") + (a > b ? "1" : "0") + (a >= b ? "1" : "0") + std::to_string(sgn(a.compare(zb.data()))); }
    if (op == "cmp3") { return att([&] { return std::to_string(sgn(a.compare(p, n, b))) + std::to_string(sgn(a.compare(p, n, zb.data()))) + std::to_string(sgn(a.compare(p, n, db.data(), std::min(n2, db.size())))); }); }
    if (op == "cmp5") { return att([&] { return std::to_string(sgn(a.compare(p, n, b, p2, n2))); }); }
    if (op == "at") { return att([&] { return std::string(1, a.at(p)); }); }
    if (op == "iter") { return std::string(a.begin(), a.end()) + "|" + std::string(a.rbegin(), a.rend()) + "|" + std::string(a.cbegin(), a.cend()) + std::string(a.crbegin(), a.crend()) + N(a.size()) + N(a.length()) + (a.empty() ? "e" : "n") +
            (a.empty() ? "" : std::string(1, a.front()) + a.back() + a[p % a.size()]); }
    if (op == "trim") { SV x(a); size_t q = std::min(p, x.size()); x.remove_prefix(q); x.remove_suffix(std::min(n, x.size())); SV y(b); x.swap(y); return str(x) + "|" + str(y); }
    return "?";
}
static std::string span(const std::string& op, const std::string& A, size_t p, size_t n)
{
    std::vector<uint8_t> v(A.begin(), A.end());
    zserio::Span<uint8_t> s(v);
    zserio::Span<const uint8_t> cs(static_cast<const std::vector<uint8_t>&>(v));
    zserio::Span<const uint8_t> cc(s);
    p = std::min(p, v.size()); n = std::min(n, v.size() - p);
    auto str = [](const auto& x) { return std::string(x.begin(), x.end()); };
    std::string z, m;
    if (op == "first") { z = str(s.first(n)) + str(cs.first(n)); m = A.substr(0, n) + A.substr(0, n); }
    else if (op == "last") { z = str(s.last(n)) + str(cc.last(n)); m = A.substr(A.size() - n) + A.substr(A.size() - n); }
    else if (op == "sub") { z = str(s.subspan(p, n)) + "|" + str(s.subspan(p)); m = A.substr(p, n) + "|" + A.substr(p); }
    else if (op == "ptr") { z = str(zserio::Span<uint8_t>(v.data() + p, n)) + str(zserio::Span<uint8_t>(v.data() + p, v.data() + p + n)); m = A.substr(p, n) + A.substr(p, n); }
    else if (op == "iter") { z = str(s) + std::string(s.rbegin(), s.rend()) + std::to_string(s.size()) + std::to_string(s.size_bytes()) + (s.empty() ? "e" : "n"); m = A + std::string(A.rbegin(), A.rend()) + std::to_string(A.size()) + std::to_string(A.size()) + (A.empty() ? "e" : "n");
        if (!v.empty()) { z += std::string(1, static_cast<char>(s.front())) + static_cast<char>(s.back()) + static_cast<char>(s[p % v.size()]); m += std::string(1, A.front()) + A.back() + A[p % A.size()]; } }
    else if (op == "fix") { std::array<int16_t, 5> arr{{1, 2, 3, 4, static_cast<int16_t>(n)}}; zserio::Span<int16_t, 5> f(arr); zserio::Span<int16_t> d(f); const auto f2 = f.first<2>(); const auto l3 = f.last<3>(); const auto sb = f.subspan<1, 3>(); const auto sr = f.subspan<2>();
        const auto d2 = d.first<2>(); const auto dl = d.last<2>(); const auto ds = d.subspan<1>(); const auto dsc = d.subspan<1, 2>();
        for (auto x : f2) { z += std::to_string(x); } for (auto x : l3) { z += std::to_string(x); } for (auto x : sb) { z += std::to_string(x); } for (auto x : sr) { z += std::to_string(x); }
        for (auto x : d2) { z += std::to_string(x); } for (auto x : dl) { z += std::to_string(x); } for (auto x : ds) { z += std::to_string(x); } for (auto x : dsc) { z += std::to_string(x); }
        z += std::to_string(f.size_bytes()) + std::to_string(d.size_bytes()) + std::to_string(decltype(sr)::extent);
        d[1] = 9; z += std::to_string(f[1]) + std::to_string(arr[1]);
        std::string N = std::to_string(n); m = "12" "34" + N + "234" "34" + N + "12" "4" + N + "234" + N + "23" "10103" "99"; }
    else { return "?"; }
    return z + "\x01" + m;
}

template <typename T> static std::string conv(T v)
{
    std::array<char, 24> buf;
    buf.fill('#');
    const std::string a = zserio::convertIntToString(buf, v);
    const std::string b = zserio::toString<std::allocator<char>>(v);
    const auto c = zserio::toString<zserio::pmr::PropagatingPolymorphicAllocator<char>>(v, zserio::pmr::PropagatingPolymorphicAllocator<char>(g_res[1]));
    if (a != b || a != c.c_str() || c.get_allocator().resource() != g_res[1]) { error("conversions differ"); }
    zserio::CppRuntimeException e("");
    e << v;
    if (sizeof(T) > 1 && a != e.what()) { error("text in an exception differs"); }
    return a;
}

static std::string hexo(const std::string& s)
{
    static const char* D = "0123456789abcdef";
    std::string o;
    for (unsigned char c : s) { o += D[c >> 4]; o += D[c & 15]; }
    return o;
}

static std::string dispatch(In& in)
{
    std::string kind = in.w();
    if (kind == "OPT")
    {
        std::string h = in.w();
        char t = h[1];
#define OPTS_(TYPE) switch (h[0]) { case 'i': return optional<InTr<TYPE>, TYPE>(in); case 's': return optional<HeapTr<TYPE, std::allocator<uint8_t>>, TYPE>(in); \
            case 'a': return optional<HeapTr<TYPE, PA>, TYPE>(in); default: return optional<HeapTr<TYPE, PP>, TYPE>(in); }
        switch (t) { case '0': OPTS_(Small) case '1': OPTS_(Big) case '2': OPTS_(Thrower) default: OPTS_(Aligned) }
    }
    if (kind == "ANY")
    {
        switch (in.w()[0]) { case 's': return any<std::allocator<uint8_t>>(in); case 'a': return any<PA>(in); default: return any<PP>(in); }
    }
    if (kind == "VEC") { return in.w() == "a" ? vectors<PA>(in) : vectors<PP>(in); }
    if (kind == "DEEP") { return in.w() == "a" ? deep<PA>(in) : deep<PP>(in); }
    if (kind == "VIEW")
    {
        std::string op = in.w(), a = hexs(in.w()), b = hexs(in.w());
        size_t p, n, p2, n2; in.s >> p >> n >> p2 >> n2;
        return hexo(view<zserio::StringView>(op, a, b, p, n, p2, n2)) + " " + hexo(view<std::string_view>(op, a, b, p, n, p2, n2));
    }
    if (kind == "SPAN")
    {
        std::string op = in.w(), a = hexs(in.w());
        size_t p, n; in.s >> p >> n;
        std::string r = span(op, a, p, n);
        size_t c = r.find('\x01');
        // the separator may occur in data only in equal halves: compare lengths
        size_t half = (r.size() - 1) / 2;
        if (r.size() % 2 == 1 && r[half] == '\x01') { c = half; }
        return hexo(r.substr(0, c)) + " " + hexo(r.substr(c + 1));
    }
    if (kind == "NUM")
    {
        std::string t = in.w(), v = in.w();
        if (t == "u8") { return conv(static_cast<uint8_t>(std::stoull(v))); }
        if (t == "i8") { return conv(static_cast<int8_t>(std::stoll(v))); }
        if (t == "u16") { return conv(static_cast<uint16_t>(std::stoull(v))); }
        if (t == "i16") { return conv(static_cast<int16_t>(std::stoll(v))); }
        if (t == "u32") { return conv(static_cast<uint32_t>(std::stoull(v))); }
        if (t == "i32") { return conv(static_cast<int32_t>(std::stoll(v))); }
        if (t == "u64") { return conv(static_cast<uint64_t>(std::stoull(v))); }
        if (t == "i64") { return conv(static_cast<int64_t>(std::stoll(v))); }
        if (t == "f") { float f; uint32_t u = static_cast<uint32_t>(std::stoull(v)); std::memcpy(&f, &u, 4); zserio::CppRuntimeException e(""); e << f; zserio::CppRuntimeException e2(""); e2 << static_cast<double>(f);
            return std::string(e.what()) + " " + e2.what(); }
    }
    if (kind == "EXC")
    {
        // text put together in pieces; the buffer of the exception is limited, the text is cut, never overrun
        zserio::CppRuntimeException e("");
        std::string want, p;
        while (!(p = in.w()).empty()) { std::string x = hexs(p); want += x; if (x.find('\0') == std::string::npos && x.size() % 2) { e << x.c_str(); } else { e.append(x.data(), x.size()); } }
        zserio::CppRuntimeException c(e);
        return hexo(std::string(e.what())) + " " + hexo(std::string(c.what()));
    }
    return "?";
}

int main()
{
    std::string line;
    while (std::getline(std::cin, line))
    {
        In in; in.s.str(line);
        std::string out;
        g_error.clear(); g_live.clear(); g_throw = -1;
        Resource r0(0), r1(1), r2(2);
        g_res[0] = &r0; g_res[1] = &r1; g_res[2] = &r2;
        zserio::pmr::MemoryResource* old = zserio::pmr::setDefaultResource(&r0);
        if (zserio::pmr::getDefaultResource() != &r0) { error("default resource"); }
        try { out = dispatch(in); } catch (const std::exception& e) { error(std::string("escaped: ") + e.what()); }
        g_throw = -1;
        if (g_error.empty())
        {
            if (!g_live.empty()) { error("objects never destroyed: " + std::to_string(g_live.size())); }
            for (Resource* r : {&r0, &r1, &r2}) { if (!r->blocks.empty()) { error("resource " + std::to_string(r->id) + " keeps " + std::to_string(r->blocks.size()) + " blocks"); } }
        }
        zserio::pmr::setDefaultResource(old);
        std::cout << (g_error.empty() ? out : "ERROR " + g_error + " after " + out) << std::endl;
    }
    return 0;
}
