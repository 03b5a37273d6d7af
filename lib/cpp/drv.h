// Common part of the generated C++ drivers: token parsing, dumping, operations.
#ifndef ZSV_DRV_H
#define ZSV_DRV_H
#include <algorithm>
#include <cerrno>
#include <cinttypes>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <utility>
#include <vector>
#include <zserio/AllocatorPropagatingCopy.h>
#include <zserio/AnyHolder.h>
#include <zserio/Array.h>
#include <zserio/ArrayTraits.h>
#include <zserio/BitBuffer.h>
#include <zserio/BitFieldUtil.h>
#include <zserio/BitPositionUtil.h>
#include <zserio/BitSizeOfCalculator.h>
#include <zserio/BitStreamReader.h>
#include <zserio/BitStreamWriter.h>
#include <zserio/BuiltInOperators.h>
#include <zserio/ConstraintException.h>
#include <zserio/CppRuntimeException.h>
#include <zserio/DebugStringUtil.h>
#include <zserio/DeltaContext.h>
#include <zserio/Enums.h>
#include <zserio/HashCodeUtil.h>
#include <zserio/ITypeInfo.h>
#include <zserio/OptionalHolder.h>
#include <zserio/Reflectable.h>
#include <zserio/ReflectableUtil.h>
#include <zserio/SerializeUtil.h>
#include <zserio/TypeInfo.h>
#include <zserio/Walker.h>
#include <zserio/ZserioTreeCreator.h>
#include <zserio/JsonReader.h>
#include <zserio/JsonWriter.h>

namespace zsv
{

struct HarnessError
{
    std::string msg;
};

struct Tok
{
    std::vector<std::string> t;
    size_t i;

    explicit Tok(const std::string& s) :
            i(0)
    {
        size_t p = 0;
        while (p <= s.size())
        {
            size_t e = s.find(' ', p);
            if (e == std::string::npos)
                e = s.size();
            if (e > p)
                t.push_back(s.substr(p, e - p));
            p = e + 1;
        }
    }
    const std::string& next()
    {
        if (i >= t.size())
            throw HarnessError{"tokens exhausted"};
        return t[i++];
    }
    const std::string& peek()
    {
        if (i >= t.size())
            throw HarnessError{"tokens exhausted"};
        return t[i];
    }
    void expect(const char* s)
    {
        if (next() != s)
            throw HarnessError{std::string("expected ") + s + " got " + t[i - 1]};
    }
    bool skip()
    {
        if (peek() == "-" || peek() == "~")
        {
            i++;
            return true;
        }
        return false;
    }
};

inline int hexval(char c)
{
    return c <= '9' ? c - '0' : c - 'a' + 10;
}

inline std::vector<uint8_t> unhex(const std::string& s, size_t from = 0)
{
    std::vector<uint8_t> r;
    for (size_t i = from; i + 1 < s.size(); i += 2)
        r.push_back(static_cast<uint8_t>(hexval(s[i]) * 16 + hexval(s[i + 1])));
    return r;
}

inline void hex(std::string& o, const uint8_t* p, size_t n)
{
    static const char* d = "0123456789abcdef";
    for (size_t i = 0; i < n; ++i)
    {
        o += d[p[i] >> 4];
        o += d[p[i] & 15];
    }
}

template <class T>
typename std::enable_if<std::is_signed<T>::value, T>::type num(const std::string& s)
{
    errno = 0;
    const long long v = strtoll(s.c_str(), nullptr, 10);
    if (errno != 0 || v < static_cast<long long>(std::numeric_limits<T>::min()) || v > static_cast<long long>(std::numeric_limits<T>::max()))
        throw HarnessError{"number " + s};
    return static_cast<T>(v);
}
template <class T>
typename std::enable_if<std::is_unsigned<T>::value, T>::type num(const std::string& s)
{
    errno = 0;
    const unsigned long long v = strtoull(s.c_str(), nullptr, 10);
    if (errno != 0 || v > static_cast<unsigned long long>(std::numeric_limits<T>::max()) || s[0] == '-')
        throw HarnessError{"number " + s};
    return static_cast<T>(v);
}

template <class T>
void rdI(Tok& t, T& v)
{
    v = num<T>(t.next());
}
inline void rdB(Tok& t, bool& v)
{
    v = t.next() == "1";
}
template <class T>
void rdF(Tok& t, T& v)
{
    const uint64_t b = strtoull(t.next().c_str() + 1, nullptr, 16);
    double d;
    memcpy(&d, &b, 8);
    v = static_cast<T>(d);
}
template <class T>
void rdS(Tok& t, T& v)
{
    const std::vector<uint8_t> b = unhex(t.next(), 1);
    v.assign(b.begin(), b.end());
}
template <class T>
void rdY(Tok& t, T& v)
{
    const std::vector<uint8_t> b = unhex(t.next(), 1);
    v.assign(b.begin(), b.end());
}
template <class A>
void rdX(Tok& t, zserio::BasicBitBuffer<A>& v)
{
    const std::string s = t.next();
    const size_t c = s.find(':');
    const std::vector<uint8_t> b = unhex(s, c + 1);
    v = zserio::BasicBitBuffer<A>(zserio::Span<const uint8_t>(b.data(), b.size()),
            static_cast<size_t>(strtoull(s.c_str() + 1, nullptr, 10)));
}
template <class T>
void rdE(Tok& t, T& v)
{
    v = zserio::valueToEnum<T>(num<typename std::underlying_type<T>::type>(t.next()));
}
template <class T>
void rdM(Tok& t, T& v)
{
    v = T(num<typename T::underlying_type>(t.next()));
}

template <class T>
typename std::enable_if<std::is_signed<T>::value>::type outI(std::string& o, T v)
{
    o += std::to_string(static_cast<long long>(v));
}
template <class T>
typename std::enable_if<std::is_unsigned<T>::value>::type outI(std::string& o, T v)
{
    o += std::to_string(static_cast<unsigned long long>(v));
}
inline void outB(std::string& o, bool v)
{
    o += v ? '1' : '0';
}
inline void outF(std::string& o, double d)
{
    if (d != d)
    {
        o += "fNaN";
        return;
    }
    uint64_t b;
    memcpy(&b, &d, 8);
    char buf[32];
    snprintf(buf, sizeof buf, "f%016" PRIx64, b);
    o += buf;
}
inline void outS(std::string& o, zserio::StringView v)
{
    o += 's';
    hex(o, reinterpret_cast<const uint8_t*>(v.data()), v.size());
}
template <class V>
void outY(std::string& o, const V& v)
{
    o += 'b';
    hex(o, v.data(), v.size());
}
template <class A>
void outX(std::string& o, const zserio::BasicBitBuffer<A>& v)
{
    const size_t n = v.getBitSize();
    o += 'x';
    o += std::to_string(n);
    o += ':';
    std::vector<uint8_t> d(v.getBuffer(), v.getBuffer() + (n + 7) / 8);
    if (n % 8)
        d.back() = static_cast<uint8_t>(d.back() & (0xff << (8 - n % 8)));
    hex(o, d.data(), d.size());
}
template <class T>
void outE(std::string& o, T v)
{
    outI(o, static_cast<typename std::underlying_type<T>::type>(v));
}
template <class T>
void outM(std::string& o, T v)
{
    outI(o, v.getValue());
}

template <class T>
auto initChildren(T& o, int) -> decltype(o.initializeChildren())
{
    o.initializeChildren();
}
template <class T>
void initChildren(T&, long)
{}

template <class T>
auto writable(T& o, int, size_t start) -> decltype(o.initializeOffsets(start))
{
    return o.initializeOffsets(start);
}

inline std::string clean(std::string s)
{
    for (char& c : s)
        if (c == '\t' || c == '\n')
            c = ' ';
    return s;
}

inline std::string errs(const std::string& ph, const std::exception& e)
{
    const char* n = "other";
    if (dynamic_cast<const zserio::ConstraintException*>(&e) != nullptr)
        n = "ConstraintException";
    else if (dynamic_cast<const zserio::CppRuntimeException*>(&e) != nullptr)
        n = "CppRuntimeException";
    else
        n = typeid(e).name();
    return "err\t" + ph + "\t" + n + "\t" + clean(e.what());
}

inline void pad(zserio::BitStreamWriter& w, size_t n)
{
    for (size_t i = 0; i < n; ++i)
        w.writeBits(1, 1);
}

inline std::string u2s(uint64_t v)
{
    return std::to_string(v);
}

// one root type: K supplies T, build, params, dump, reader construction
template <class K>
std::string opW(const std::string& toks, size_t start, bool init = true)
{
    using T = typename K::T;
    std::string ph = "build";
    try
    {
        Tok t(toks);
        Tok pt(toks.substr(2));
        typename K::Params ps(pt);
        std::unique_ptr<T> o(new T());
        K::build(t, *o);
        ph = "init";
        ps.init(*o);
        const size_t end = init ? o->initializeOffsets(start) : 0;
        ph = "size";
        const size_t size = o->bitSizeOf(start);
        ph = "write";
        if (size > (1U << 28))
            return "err\tsize\thuge\t";
        zserio::BitBuffer buf(start + size);
        zserio::BitStreamWriter w(buf);
        pad(w, start);
        o->write(w);
        const size_t pos = w.getBitPosition();
        std::string r = "ok\t" + u2s(end) + "\t" + u2s(size) + "\t" + u2s(pos) + "\t";
        hex(r, buf.getBuffer(), (start + size + 7) / 8);
        ph = "dump";
        r += '\t';
        K::dump(r, *o);
        ph = "read";
        zserio::BitStreamReader in(buf.getBuffer(), pos, zserio::BitsTag());
        in.setBitPosition(start);
        std::unique_ptr<T> o2(ps.read(in));
        r += '\t' + u2s(in.getBitPosition()) + '\t';
        ph = "dump2";
        K::dump(r, *o2);
        ph = "eq";
        const bool eq = (*o == *o2) && (*o2 == *o) && !(*o < *o2) && !(*o2 < *o);
        r += eq ? "\t1\t" : "\t0\t";
        r += u2s(o->hashCode()) + '\t' + u2s(o2->hashCode());
        ph = "rewrite";
        zserio::BitBuffer buf2(start + size);
        zserio::BitStreamWriter w2(buf2);
        pad(w2, start);
        o2->write(w2);
        if (w2.getBitPosition() == pos && memcmp(buf.getBuffer(), buf2.getBuffer(), (pos + 7) / 8) == 0)
            r += "\tsame";
        else
        {
            r += '\t';
            hex(r, buf2.getBuffer(), (start + size + 7) / 8);
            r += ':' + u2s(w2.getBitPosition());
        }
        return r;
    }
    catch (const std::exception& e)
    {
        return errs(ph, e);
    }
}

// the object of the first tokens gets the simple root fields of the second ones after its children were initialised
template <class K>
std::string opP(const std::string& toks, const std::string& toks2, size_t start)
{
    using T = typename K::T;
    std::string ph = "build";
    try
    {
        Tok t(toks);
        Tok t2(toks2);
        Tok pt(toks.substr(2));
        typename K::Params ps(pt);
        std::unique_ptr<T> o(new T());
        std::unique_ptr<T> b(new T());
        K::build(t, *o);
        K::build(t2, *b);
        ph = "init";
        ps.init(*o);
        K::poke(*o, *b);
        o->initializeOffsets(start);
        ph = "size";
        const size_t size = o->bitSizeOf(start);
        ph = "write";
        zserio::BitBuffer buf(start + size);
        zserio::BitStreamWriter w(buf);
        pad(w, start);
        o->write(w);
        const size_t pos = w.getBitPosition();
        std::string r = "ok\t0\t" + u2s(size) + "\t" + u2s(pos) + "\t";
        hex(r, buf.getBuffer(), (start + size + 7) / 8);
        return r;
    }
    catch (const std::exception& e)
    {
        return errs(ph, e);
    }
}

template <class T>
std::string wr(T& o)
{
    zserio::BitBuffer buf(o.bitSizeOf(0));
    zserio::BitStreamWriter w(buf);
    o.write(w);
    std::string r;
    hex(r, buf.getBuffer(), buf.getByteSize());
    return r;
}

// laws of copies: empty string or what went wrong
template <class K>
std::string copies(const std::string& toks, const std::string& toks2, bool full)
{
    using T = typename K::T;
    using P = typename K::Params;
    std::string d0;
    std::string b0;
    // every object is made again, so that each step starts from a fresh one
    const auto make = [](const std::string& s, std::unique_ptr<P>& ps) {
        Tok t(s);
        Tok pt(s.substr(2));
        ps.reset(new P(pt));
        std::unique_ptr<T> o(new T());
        K::build(t, *o);
        ps->init(*o);
        return o;
    };
    std::unique_ptr<P> ps;
    std::unique_ptr<P> ps2;
    const auto same = [&](T& c, const char* what) -> std::string {
        std::string d;
        K::dump(d, c);
        if (d != d0)
            return std::string(what) + " dump " + d + " instead of " + d0;
        if (full && wr(c) != b0)
            return std::string(what) + " bytes";
        return std::string();
    };
    std::string e;
    {
        auto o = make(toks, ps);
        K::dump(d0, *o);
        if (full)
        {
            o->initializeOffsets(0);
            b0 = wr(*o);
        }
        auto o2 = make(toks2, ps2);
        std::string other;
        K::dump(other, *o2);
        T c(*o);
        if (!(c == *o) || !(*o == c) || c < *o || *o < c || c.hashCode() != o->hashCode())
            return "copy is not equal";
        // changing the original does not change the copy and the other way round
        {
            Tok t2(toks2);
            K::build(t2, *o);
        }
        if (!(e = same(c, "copy after change of the original")).empty())
            return e;
        o.reset();
        if (!(e = same(c, "copy after destruction of the original")).empty())
            return e;
        T c2(c);
        {
            Tok t2(toks2);
            K::build(t2, c2);
        }
        if (!(e = same(c, "original after change of the copy")).empty())
            return e;
        std::unique_ptr<T> m(new T(std::move(c)));
        if (!(e = same(*m, "moved")).empty())
            return e;
        {
            T a;
            a = *m;
            if (!(a == *m))
                return "assigned is not equal";
            m.reset();
            if (!(e = same(a, "assigned to default")).empty())
                return e;
            *o2 = a;
            if (!(*o2 == a))
                return "assigned is not equal (2)";
            const T& ra = a;
            a = ra;
            if (!(e = same(a, "self assigned")).empty())
                return e;
            T b;
            b = std::move(a);
            if (!(e = same(b, "move assigned")).empty())
                return e;
            m.reset(new T(zserio::PropagateAllocator, b, typename T::allocator_type()));
        }
        if (!(e = same(*o2, "assigned to another")).empty())
            return e;
        if (!(e = same(*m, "allocator propagating copy")).empty())
            return e;
        std::swap(*m, *o2);
        if (!(e = same(*m, "swapped")).empty())
            return e;
    }
    return "ok";
}

// pairs of n objects: == and < matrices, hash codes, copies
// fresh object and another fresh one (with an allocator)
template <class K>
std::string opD(const std::string& toks)
{
    using T = typename K::T;
    std::string ph = "build";
    try
    {
        std::string r = "ok";
        for (int i = 0; i < 2; ++i)
        {
            Tok t(toks);
            Tok pt(toks.substr(2));
            typename K::Params ps(pt);
            std::unique_ptr<T> o(i == 0 ? new T() : new T(typename T::allocator_type()));
            K::build(t, *o);
            ph = "dump";
            std::string d;
            K::dump(d, *o);
            r += "\t" + d;
        }
        return r;
    }
    catch (const std::exception& e)
    {
        return errs(ph, e);
    }
}

template <class K>
std::string opQ(const std::vector<std::string>& p)
{
    using T = typename K::T;
    std::string ph = "build";
    try
    {
        std::vector<std::unique_ptr<T>> os;
        std::vector<std::unique_ptr<typename K::Params>> ps;
        for (size_t i = 3; i < p.size(); ++i)
        {
            Tok t(p[i]);
            Tok pt(p[i].substr(2));
            ps.emplace_back(new typename K::Params(pt));
            os.emplace_back(new T());
            K::build(t, *os.back());
            ps.back()->init(*os.back());
        }
        ph = "eq";
        std::string eq;
        std::string lt;
        std::string h;
        for (size_t i = 0; i < os.size(); ++i)
        {
            for (size_t j = 0; j < os.size(); ++j)
            {
                eq += (*os[i] == *os[j]) ? '1' : '0';
                lt += (*os[i] < *os[j]) ? '1' : '0';
            }
            h += (i == 0 ? "" : ",") + u2s(os[i]->hashCode());
        }
        ph = "copy";
        // p[2]: 1 for objects that can be written
        std::string c = "ok";
        for (size_t i = 3; i < p.size() && c == "ok"; ++i)
            c = copies<K>(p[i], p[i + 1 < p.size() ? i + 1 : 3], p[2][i - 3] == '1');
        return "ok\t" + eq + '\t' + h + '\t' + lt + '\t' + clean(c);
    }
    catch (const std::exception& e)
    {
        return errs(ph, e);
    }
}

template <class K>
std::string opR(const std::string& ptoks, size_t start, size_t nbits, const std::string& data)
{
    using T = typename K::T;
    std::string ph = "read";
    try
    {
        Tok pt(ptoks);
        typename K::Params ps(pt);
        const std::vector<uint8_t> v = unhex(data);
        // exactly sized heap block so that reads outside of it are seen by the sanitizer
        std::unique_ptr<uint8_t[]> d(new uint8_t[v.size()]);
        std::copy(v.begin(), v.end(), d.get());
        zserio::BitStreamReader in(d.get(), nbits, zserio::BitsTag());
        in.setBitPosition(start);
        std::unique_ptr<T> o(ps.read(in));
        const size_t pos = in.getBitPosition();
        ph = "dump";
        std::string r = "ok\t" + u2s(pos) + '\t';
        K::dump(r, *o);
        r += '\t';
        try
        {
            const size_t size = o->bitSizeOf(start);
            zserio::BitBuffer buf(start + size);
            zserio::BitStreamWriter w(buf);
            pad(w, start);
            o->write(w);
            std::string h;
            hex(h, buf.getBuffer(), (start + size + 7) / 8);
            r += h + ':' + u2s(w.getBitPosition());
        }
        catch (const std::exception& e)
        {
            r += "E" + clean(e.what());
        }
        return r;
    }
    catch (const std::exception& e)
    {
        return errs(ph, e);
    }
}

// only reads an object: position, dump, parsing information of all compounds
template <class K>
std::string opG(const std::string& ptoks, size_t start, size_t nbits, const std::string& data)
{
    using T = typename K::T;
    std::string ph = "read";
    try
    {
        Tok pt(ptoks);
        typename K::Params ps(pt);
        const std::vector<uint8_t> v = unhex(data);
        zserio::BitStreamReader in(v.data(), nbits, zserio::BitsTag());
        in.setBitPosition(start);
        std::unique_ptr<T> o(ps.read(in));
        std::string r = "ok\t" + u2s(in.getBitPosition()) + '\t';
        ph = "dump";
        K::dump(r, *o);
        r += '\t';
        ph = "info";
        K::info(r, *o);
        return r;
    }
    catch (const std::exception& e)
    {
        return errs(ph, e);
    }
}

// reads an object, writes it back, sets members one after the other, writes it
template <class K>
std::string opX(const std::vector<std::string>& p)
{
    using T = typename K::T;
    std::string ph = "read";
    const size_t start = num<size_t>(p[2]);
    auto write = [&](const T& o, std::vector<uint8_t>& keep) {
        const size_t size = o.bitSizeOf(start);
        zserio::BitBuffer buf(start + size);
        zserio::BitStreamWriter w(buf);
        pad(w, start);
        o.write(w);
        std::string h;
        hex(h, buf.getBuffer(), (start + size + 7) / 8);
        keep.assign(buf.getBuffer(), buf.getBuffer() + (start + size + 7) / 8);
        return h + ':' + u2s(w.getBitPosition());
    };
    try
    {
        Tok pt(p[5]);
        typename K::Params ps(pt);
        std::vector<uint8_t> v = unhex(p[4]);
        std::unique_ptr<uint8_t[]> d(new uint8_t[v.size()]);
        std::copy(v.begin(), v.end(), d.get());
        zserio::BitStreamReader in(d.get(), num<size_t>(p[3]), zserio::BitsTag());
        in.setBitPosition(start);
        std::unique_ptr<T> o(ps.read(in));
        std::string r = "ok\t" + u2s(in.getBitPosition()) + '\t';
        ph = "dump";
        K::dump(r, *o);
        ph = "write";
        r += '\t' + write(*o, v);
        r += "\tp" + K::present(*o);
        for (size_t i = 6; i < p.size(); i++)
        {
            ph = "set";
            Tok t(p[i]);
            K::build(t, *o);
            r += "\tp" + K::present(*o);
        }
        ph = "init";
        ps.init(*o);
        o->initializeOffsets(start);
        ph = "size";
        r += '\t' + u2s(o->bitSizeOf(start)) + '\t';
        ph = "dump2";
        K::dump(r, *o);
        ph = "write2";
        const std::string h = write(*o, v);
        r += '\t' + h;
        ph = "read2";
        zserio::BitStreamReader in2(v.data(), num<size_t>(h.substr(h.find(':') + 1)), zserio::BitsTag());
        in2.setBitPosition(start);
        std::unique_ptr<T> o2(ps.read(in2));
        return r + (*o2 == *o ? "\t1" : "\t0");
    }
    catch (const std::exception& e)
    {
        return errs(ph, e);
    }
}

inline std::vector<std::string> split(const std::string& s)
{
    std::vector<std::string> r;
    size_t p = 0;
    while (true)
    {
        const size_t e = s.find('\t', p);
        r.push_back(s.substr(p, e == std::string::npos ? e : e - p));
        if (e == std::string::npos)
            return r;
        p = e + 1;
    }
}

template <class F>
int mainLoop(F handle)
{
    std::string line;
    while (std::getline(std::cin, line))
    {
        std::string r;
        try
        {
            r = handle(split(line));
        }
        catch (const HarnessError& e)
        {
            r = "FAIL\t" + clean(e.msg);
        }
        r += '\n';
        fwrite(r.data(), 1, r.size(), stdout);
        fflush(stdout);
    }
    return 0;
}

} // namespace zsv
#endif
