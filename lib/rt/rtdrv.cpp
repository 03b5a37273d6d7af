// Drives the C++ runtime: one request per line, one reply per line.
#include <cstring>
#include <cmath>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
#include <limits>
#include "zserio/BitStreamWriter.h"
#include "zserio/BitStreamReader.h"
#include "zserio/BitSizeOfCalculator.h"
#include "zserio/BitBuffer.h"
#include "zserio/FloatUtil.h"
#include "zserio/JsonParser.h"
#include "zserio/JsonEncoder.h"

using std::string;
typedef std::vector<string> Strs;
typedef __int128 I;

struct Harness { string s; };
struct Skip {};

static Strs split(const string& s, char c)
{
    Strs r; size_t b = 0;
    for (;;) { size_t e = s.find(c, b); if (e == string::npos) { r.push_back(s.substr(b)); return r; } r.push_back(s.substr(b, e - b)); b = e + 1; }
}
static std::vector<uint8_t> unhex(const string& s)
{
    std::vector<uint8_t> r;
    for (size_t i = 0; i + 1 < s.size(); i += 2) r.push_back((uint8_t)std::stoi(s.substr(i, 2), nullptr, 16));
    return r;
}
static string hex(const uint8_t* b, size_t n)
{
    static const char* d = "0123456789abcdef"; string r;
    for (size_t i = 0; i < n; i++) { r += d[b[i] >> 4]; r += d[b[i] & 15]; }
    return r;
}
static string hexv(uint64_t v) { std::ostringstream o; o << std::hex << v; return o.str(); }
static double dbl(const string& h) { uint64_t v = std::stoull(h, nullptr, 16); double d; memcpy(&d, &v, 8); return d; }
static string dhex(double d) { if (d != d) return "7ff8000000000000"; uint64_t v; memcpy(&v, &d, 8); return hexv(v); }
static float fl(uint32_t v) { float f; memcpy(&f, &v, 4); return f; }
static I big(const string& s)
{
    bool neg = s[0] == '-'; I v = 0;
    for (size_t i = neg; i < s.size(); i++) v = v * 10 + (s[i] - '0');
    return neg ? -v : v;
}
template <class T> static T rng(I v)
{
    if (v < (I)std::numeric_limits<T>::min() || v > (I)std::numeric_limits<T>::max()) throw Skip();
    return (T)v;
}
static zserio::BitBuffer bb(const string& n, const string& h)
{
    std::vector<uint8_t> d = unhex(h);
    return zserio::BitBuffer(zserio::Span<const uint8_t>(d.data(), d.size()), (size_t)std::stoull(n));
}

static long wop(zserio::BitStreamWriter& w, const string& op)
{
    Strs p = split(op, ':');
    const string& k = p[0];
    if (k == "u" || k == "U" || k == "tu")
    {
        int n = std::stoi(p[1]); I v = big(p[2]);
        if (n <= 32 && k != "U") w.writeBits(rng<uint32_t>(v), (uint8_t)n);
        else w.writeBits64(rng<uint64_t>(v), (uint8_t)n);
        return -1;
    }
    if (k == "s" || k == "ts")
    {
        int n = std::stoi(p[1]); I v = big(p[2]);
        if (n <= 32 && (v & 1)) w.writeSignedBits(rng<int32_t>(v), (uint8_t)n);
        else w.writeSignedBits64(rng<int64_t>(v), (uint8_t)n);
        return -1;
    }
    if (k == "n")
    {
        I v = big(p[2]);
#define V(name, T, M) if (p[1] == name) { T x = rng<T>(v); w.write##M(x); return (long)zserio::bitSizeOf##M(x); }
        V("varint16", int16_t, VarInt16) V("varint32", int32_t, VarInt32) V("varint64", int64_t, VarInt64) V("varint", int64_t, VarInt)
        V("varuint16", uint16_t, VarUInt16) V("varuint32", uint32_t, VarUInt32) V("varuint64", uint64_t, VarUInt64) V("varuint", uint64_t, VarUInt)
        V("varsize", uint32_t, VarSize)
#undef V
    }
    if (k == "f16") { w.writeFloat16((float)dbl(p[1])); return -1; }
    if (k == "f32") { w.writeFloat32((float)dbl(p[1])); return -1; }
    if (k == "f64") { w.writeFloat64(dbl(p[1])); return -1; }
    if (k == "by") { auto d = unhex(p[1]); w.writeBytes(d); return (long)zserio::bitSizeOfBytes(d); }
    if (k == "st") { auto d = unhex(p[1]); zserio::StringView s((const char*)d.data(), d.size()); w.writeString(s); return (long)zserio::bitSizeOfString(s); }
    if (k == "b") { w.writeBool(p[1] == "1"); return -1; }
    if (k == "bb") { auto b = bb(p[1], p[2]); w.writeBitBuffer(b); return (long)zserio::bitSizeOfBitBuffer(b); }
    if (k == "al") { w.alignTo((size_t)std::stoull(p[1])); return -1; }
    throw Harness{op};
}

static string rop(zserio::BitStreamReader& r, const string& op)
{
    Strs p = split(op, ':');
    const string& k = p[0];
    int n = p.size() > 1 && (k == "u" || k == "U" || k == "tu" || k == "s" || k == "ts") ? std::stoi(p[1]) : 0;
    if (k == "u" || k == "tu") return n <= 32 ? std::to_string(r.readBits((uint8_t)n)) : std::to_string(r.readBits64((uint8_t)n));
    if (k == "U") return std::to_string(r.readBits64((uint8_t)n));
    if (k == "s") return n <= 32 ? std::to_string(r.readSignedBits((uint8_t)n)) : std::to_string(r.readSignedBits64((uint8_t)n));
    if (k == "ts") return std::to_string(r.readSignedBits64((uint8_t)n));
#define V(name, M) if (k == "n" && p[1] == name) return std::to_string(r.read##M());
    V("varint16", VarInt16) V("varint32", VarInt32) V("varint64", VarInt64) V("varint", VarInt)
    V("varuint16", VarUInt16) V("varuint32", VarUInt32) V("varuint64", VarUInt64) V("varuint", VarUInt) V("varsize", VarSize)
#undef V
    if (k == "f16") return dhex(r.readFloat16());
    if (k == "f32") return dhex(r.readFloat32());
    if (k == "f64") return dhex(r.readFloat64());
    if (k == "by") { auto v = r.readBytes<>(); return "x" + hex(v.data(), v.size()); }
    if (k == "st") { auto v = r.readString<>(); return "x" + hex((const uint8_t*)v.data(), v.size()); }
    if (k == "b") return r.readBool() ? "1" : "0";
    if (k == "bb") { auto b = r.readBitBuffer<>(); return std::to_string(b.getBitSize()) + ":" + hex(b.getBuffer(), b.getByteSize()); }
    if (k == "al") { r.alignTo((size_t)std::stoull(p[1])); return "-"; }
    if (k == "sp") { r.setBitPosition((size_t)std::stoull(p[1])); return "-"; }
    throw Harness{op};
}

static const char* cls(const std::exception& e)
{
    if (dynamic_cast<const zserio::BitStreamWriter::InsufficientCapacityException*>(&e)) return "InsufficientCapacityException";
    if (dynamic_cast<const zserio::CppRuntimeException*>(&e)) return "CppRuntimeException";
    return "other";
}

static string reads(zserio::BitStreamReader& r, const Strs& ops)
{
    string out;
    for (const string& op : ops)
    {
        if (!out.empty()) out += " ";
        try { string v = rop(r, op); out += v + "@" + std::to_string(r.getBitPosition()); }
        catch (const std::exception& e) { out += string("E") + cls(e); break; }
    }
    return out;
}

static string seq(long cap, const string& text)
{
    // an exact heap allocation, so that the address sanitizer sees any access past the end
    size_t bits = cap < 0 ? (size_t)1 << 17 : (size_t)cap;
    std::unique_ptr<uint8_t[]> buf(new uint8_t[(bits + 7) / 8]());
    zserio::BitStreamWriter w(zserio::Span<uint8_t>(buf.get(), (bits + 7) / 8), bits);
    zserio::BitStreamWriter dummy(nullptr, 0);
    string st; Strs ok;
    for (const string& op : split(text, ' '))
    {
        if (!st.empty()) st += " ";
        try
        {
            long s = wop(w, op);
            st += std::to_string(w.getBitPosition());
            if (s >= 0) st += "s" + std::to_string(s);
            ok.push_back(op);
        }
        catch (const Skip&) { st += "X"; continue; }
        catch (const std::exception& e) { st += "E" + std::to_string(w.getBitPosition()) + cls(e); if (cap >= 0) break; continue; }
        try { wop(dummy, op); if (dummy.getBitPosition() != w.getBitPosition()) st += "D"; } catch (...) { st += "D"; }
    }
    string h = hex(buf.get(), (w.getBitPosition() + 7) / 8);
    // reader over an exact copy
    std::vector<uint8_t> copy(buf.get(), buf.get() + (w.getBitPosition() + 7) / 8);
    std::unique_ptr<uint8_t[]> ex(new uint8_t[copy.size()]);
    std::copy(copy.begin(), copy.end(), ex.get());
    zserio::BitStreamReader r(zserio::Span<const uint8_t>(ex.get(), copy.size()), w.getBitPosition());
    return st + "|" + h + "|" + reads(r, ok);
}

static string bbs(const string& arg)
{
    std::vector<zserio::BitBuffer> l; string head;
    for (const string& s : split(arg, ' '))
    {
        Strs p = split(s, ':');
        try { l.push_back(bb(p[0], p[1])); head += "1"; } catch (const std::exception&) { head += "0"; }
    }
    string r = head + "|";
    for (auto& a : l) for (auto& b : l) r += a == b ? "1" : "0";
    r += "|";
    for (auto& a : l) r += std::to_string(a.hashCode()) + ",";
    r += "|";
    for (auto& a : l)
    {
        std::vector<uint8_t> buf(a.getByteSize() + 10);
        zserio::BitStreamWriter w(zserio::Span<uint8_t>(buf.data(), buf.size()));
        w.writeBits(1, 3);
        w.writeBitBuffer(a);
        zserio::BitStreamReader rd(buf.data(), w.getBitPosition(), zserio::BitsTag());
        rd.readBits(3);
        zserio::BitBuffer back = rd.readBitBuffer<>();
        zserio::BitBuffer c1(a), c2(a, std::allocator<uint8_t>()), c3; c3 = a;
        zserio::BitBuffer c4(std::move(c1)), c5; c5 = std::move(c2);
        zserio::BitBuffer c6(std::vector<uint8_t>(a.getBytes()), a.getBitSize()), c7(a.getBuffer(), a.getBitSize());
        bool same = back == a && a == back && back.hashCode() == a.hashCode() && c3 == a && c4 == a && c5 == a && c6 == a && c7 == a &&
                c3.hashCode() == a.hashCode() && !(back < a) && !(a < back) && a.getData().size() >= a.getByteSize();
        zserio::BitStreamReader rb(a);
        string bits;
        for (size_t i = 0; i < a.getBitSize(); i++) bits += std::to_string(rb.readBits(1));
        string over = "1";
        try { rb.readBits(1); over = "0"; } catch (const std::exception&) {}
        r += hex(buf.data(), (w.getBitPosition() + 7) / 8) + ":" + std::to_string(w.getBitPosition()) + ":" + (same ? "1" : "0") + ":" +
                std::to_string(a.getBitSize()) + ":" + std::to_string(a.getByteSize()) + ":" + bits + ":" + over + ",";
    }
    r += "|";
    for (auto& a : l) for (auto& b : l) r += a < b ? "1" : "0";
    return r;
}

struct Obs : zserio::JsonParser::IObserver
{
    string s;
    static string h(zserio::StringView v) { return hex((const uint8_t*)v.data(), v.size()); }
    void beginObject() override { s += "{ "; }
    void endObject() override { s += "} "; }
    void beginArray() override { s += "[ "; }
    void endArray() override { s += "] "; }
    void visitKey(zserio::StringView k) override { s += "k" + h(k) + " "; }
    void visitValue(std::nullptr_t) override { s += "n "; }
    void visitValue(bool v) override { s += v ? "t " : "f "; }
    void visitValue(int64_t v) override { s += "i" + std::to_string(v) + " "; }
    void visitValue(uint64_t v) override { s += "i" + std::to_string(v) + " "; }
    void visitValue(double v) override { s += "d" + dhex(v) + " "; }
    void visitValue(zserio::StringView v) override { s += "s" + h(v) + " "; }
};

static string json(const std::vector<uint8_t>& text)
{
    std::istringstream in(string(text.begin(), text.end()));
    Obs o;
    try { zserio::JsonParser p(in, o); o.s += p.parse() ? "$1" : "$0"; }
    catch (const zserio::JsonParserException&) { o.s += "!JsonParserException"; }
    catch (const std::exception& e) { o.s += string("!") + cls(e); }
    return o.s;
}

static uint64_t fnv(uint64_t h, uint64_t v, int bytes) { for (int i = 0; i < bytes; i++) { h ^= (v >> (8 * i)) & 0xff; h *= 0x100000001b3ULL; } return h; }

// independent conversion from the definition of binary16: nearest, ties away from zero, zero below the smallest subnormal
static uint16_t oracle16(float f)
{
    uint32_t b; memcpy(&b, &f, 4);
    uint16_t s = (uint16_t)(b >> 16 & 0x8000);
    if (f != f) return 0x7e00;
    double a = std::fabs((double)f);
    if (a >= 65520.0) return (uint16_t)(s | 0x7c00);
    int e = 0;
    double q;
    if (a < 5.9604644775390625e-08) return s;
    if (a < 6.103515625e-05) q = 5.9604644775390625e-08;      // subnormal spacing 2^-24
    else { std::frexp(a, &e); q = std::ldexp(1.0, e - 11); }
    double n = a / q;                                          // exact: power of two
    double fl_ = std::floor(n), d = n - fl_;
    if (d >= 0.5) fl_ += 1;
    double v = fl_ * q;
    if (v == 0) return s;
    if (v < 6.103515625e-05) return (uint16_t)(s | (uint16_t)(v / 5.9604644775390625e-08));
    std::frexp(v, &e);
    double m = std::ldexp(v, 11 - e);                          // [1024, 2048)
    return (uint16_t)(s | ((e + 14) << 10) | ((int)m - 1024));
}

static string handle(const Strs& p)
{
    const string& k = p[0];
    if (k == "SEQ") return seq(std::stol(p[1]), p[2]);
    if (k == "RD")
    {
        auto d = unhex(p[2]);
        std::unique_ptr<uint8_t[]> ex(new uint8_t[d.size()]);
        std::copy(d.begin(), d.end(), ex.get());
        zserio::BitStreamReader r(zserio::Span<const uint8_t>(ex.get(), d.size()), (size_t)std::stoull(p[1]));
        return reads(r, split(p[3], ' '));
    }
    if (k == "BB") return bbs(p[1]);
    if (k == "J") return json(unhex(p[1]));
    if (k == "JE")
    {
        std::ostringstream o;
        if (p[1] == "s") { auto d = unhex(p[2]); zserio::JsonEncoder::encodeString(o, zserio::StringView((const char*)d.data(), d.size())); }
        else if (p[1] == "d") zserio::JsonEncoder::encodeFloatingPoint(o, dbl(p[2]));
        else if (p[1] == "i") { I v = big(p[2]); if (v < 0) zserio::JsonEncoder::encodeIntegral(o, (int64_t)v); else zserio::JsonEncoder::encodeIntegral(o, (uint64_t)v); }
        else if (p[1] == "b") zserio::JsonEncoder::encodeBool(o, p[2] == "1");
        else zserio::JsonEncoder::encodeNull(o);
        string s = o.str();
        return hex((const uint8_t*)s.data(), s.size());
    }
    string r;
    if (k == "F16BLK" || k == "F16ORA")
    {
        uint64_t start = std::stoull(p[1]), stride = std::stoull(p[2]), n = std::stoull(p[3]);
        uint64_t h = 0xcbf29ce484222325ULL;
        for (uint64_t i = 0; i < n; i++)
        {
            float f = fl((uint32_t)(start + i * stride));
            uint16_t v;
            if (k == "F16ORA") v = oracle16(f);
            else
            {
                v = zserio::convertFloatToUInt16(f);
                if (f != f) v = (v & 0x7c00) == 0x7c00 && (v & 0x3ff) != 0 ? 0x7e00 : 0xdead;
            }
            h = fnv(h, v, 2);
        }
        return hexv(h);
    }
    for (const string& x : split(p[1], ' '))
    {
        if (!r.empty()) r += " ";
        if (k == "F16") r += dhex(zserio::convertUInt16ToFloat((uint16_t)std::stoul(x, nullptr, 16)));
        else if (k == "F32") r += dhex(zserio::convertUInt32ToFloat((uint32_t)std::stoul(x, nullptr, 16)));
        else if (k == "F64") r += dhex(zserio::convertUInt64ToDouble(std::stoull(x, nullptr, 16)));
        else if (k == "TF16") r += hexv(zserio::convertFloatToUInt16((float)dbl(x)));
        else if (k == "TF32") r += hexv(zserio::convertFloatToUInt32((float)dbl(x)));
        else if (k == "TF64") r += hexv(zserio::convertDoubleToUInt64(dbl(x)));
        else return "FAIL unknown";
    }
    return r;
}

int main()
{
    std::ios::sync_with_stdio(false);
    string l;
    while (std::getline(std::cin, l))
    {
        string r;
        try { r = handle(split(l, '\t')); }
        catch (const Harness& h) { r = "FAIL " + h.s; }
        catch (const std::exception& e) { r = string("FAIL ") + e.what(); }
        std::cout << r << "\n" << std::flush;
    }
    return 0;
}
