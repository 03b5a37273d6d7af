import sys, re, common
from zsv import runner, refcodec
from zsv.model import *
from zsv.scriptcheck import ScriptCheck, Plan
from zsv.script import Script

PY = r'''
import warnings, importlib, sys
warnings.simplefilter("ignore")
import zserio
def emit(k, v): sys.stdout.write("%s\t%s\n" % (k, v))
def tryit(k, f):
    try:
        v = f()
    except (zserio.PythonRuntimeException, ValueError) as e:
        v = "err"
    except Exception as e:
        v = "%s: %s" % (type(e).__name__, e)
    emit(k, v)
def wr(o):
    w = zserio.BitStreamWriter()
    o.write(w)
    return "%s:%d" % (bytes(w.byte_array).hex(), w.bitposition)
def rd(cls, s):
    h, n = s.split(":")
    r = zserio.BitStreamReader(bytes.fromhex(h), int(n))
    v = cls.from_reader(r)
    return "%s@%d" % (v.value, r.bitposition)
def en(mod, name, values, names, streams):
    c = getattr(importlib.import_module(mod), name)
    emit("names " + name, ",".join(i.name for i in c))
    emit("values " + name, ",".join(str(i.value) for i in c))
    for o, i in enumerate(c):
        k = name + " " + i.name
        tryit("ordinal " + k, lambda: list(c).index(i))
        tryit("size " + k, lambda: "%d %d" % (i.bitsizeof(), i.initialize_offsets(13)))
        tryit("write " + k, lambda: wr(i))
        tryit("same " + k, lambda: all((i == j) is (i is j) and (i != j) is (i is not j) and (hash(i) == hash(j) or i is not j) for j in c))
    for v in values:
        tryit("value %s %d" % (name, v), lambda: c(v).name)
    for n in names:
        tryit("name %s %s" % (name, n), lambda: c.from_name(n).name)
    for s in streams:
        tryit("read %s %s" % (name, s), lambda: rd(c, s))
def bm(mod, name, items, values, pairs, streams):
    c = getattr(importlib.import_module(mod), name)
    emit("items " + name, ",".join("%s=%d" % (k, v.value) for k, v in vars(c.Values).items() if isinstance(v, c)))
    emit("default " + name, c().value)
    for v in values:
        k = "%s %d" % (name, v)
        tryit("value " + k, lambda: c.from_value(v).value)
        tryit("str " + k, lambda: str(c.from_value(v)))
        tryit("not " + k, lambda: (~c.from_value(v)).value)
        tryit("write " + k, lambda: wr(c.from_value(v)))
        tryit("size " + k, lambda: "%d %d" % (c.from_value(v).bitsizeof(), c.from_value(v).initialize_offsets(13)))
    for a, b in pairs:
        k = "%s %d,%d" % (name, a, b)
        x, y = c.from_value(a), c.from_value(b)
        tryit("or " + k, lambda: (x | y).value); tryit("and " + k, lambda: (x & y).value); tryit("xor " + k, lambda: (x ^ y).value)
        tryit("eq " + k, lambda: int(x == y)); tryit("kept " + k, lambda: "%d %d" % (x.value, y.value))
        tryit("hash " + k, lambda: x != y or hash(x) == hash(y))
    for s in streams:
        tryit("read %s %s" % (name, s), lambda: rd(c, s))
'''

JAVA = r'''
import java.lang.reflect.*;
import java.math.BigInteger;
import java.util.*;
import zserio.runtime.io.*;
public class Main {
  interface F { Object get() throws Throwable; }
  static StringBuilder out = new StringBuilder();
  static void emit(String k, Object v) { out.append(k).append('\t').append(v).append('\n'); }
  static void tryit(String k, F f) {
    Object v;
    try { v = f.get(); }
    catch (Throwable t) {
      Throwable e = t instanceof InvocationTargetException ? t.getCause() : t;
      v = e instanceof zserio.runtime.ZserioError || e instanceof IllegalArgumentException || e instanceof java.io.IOException ? "err" : e.toString().replace('\n', ' ');
    }
    emit(k, v);
  }
  static Object conv(Class<?> c, String s) {
    BigInteger v = new BigInteger(s);
    if (c == BigInteger.class) return v;
    int bits = c == byte.class ? 8 : c == short.class ? 16 : c == int.class ? 32 : 64;
    if (v.bitLength() >= bits) throw new NoFit();
    if (c == byte.class) return v.byteValue();
    if (c == short.class) return v.shortValue();
    if (c == int.class) return v.intValue();
    return v.longValue();
  }
  static class NoFit extends RuntimeException {}
  static String hex(byte[] b) { StringBuilder s = new StringBuilder(); for (byte x : b) s.append(String.format("%02x", x)); return s.toString(); }
  static String wr(zserio.runtime.io.Writer o) throws Throwable {
    ByteArrayBitStreamWriter w = new ByteArrayBitStreamWriter();
    o.write(w);
    long n = w.getBitPosition();
    return hex(Arrays.copyOf(w.toByteArray(), (int)((n + 7) / 8))) + ":" + n;
  }
  static BitStreamReader rdr(String s) {
    String[] p = s.split(":", -1);
    byte[] b = new byte[p[0].length() / 2];
    for (int i = 0; i < b.length; i++) b[i] = (byte)Integer.parseInt(p[0].substring(2 * i, 2 * i + 2), 16);
    return new ByteArrayBitStreamReader(b, Integer.parseInt(p[1]));
  }
  static String gv(Object o) throws Throwable { return String.valueOf(o.getClass().getMethod("getValue").invoke(o)); }
  static String sz(Object o) throws Throwable {
    return o.getClass().getMethod("bitSizeOf").invoke(o) + " " + o.getClass().getMethod("initializeOffsets", long.class).invoke(o, 13L);
  }
  static void en(String pkg, String name, String[] values, String[] names, String[] streams) throws Throwable {
    Class<?> c = Class.forName(pkg + "." + name);
    Object[] items = c.getEnumConstants();
    StringBuilder a = new StringBuilder(), b = new StringBuilder();
    for (Object i : items) { a.append(a.length() > 0 ? "," : "").append(((Enum<?>)i).name()); b.append(b.length() > 0 ? "," : "").append(gv(i)); }
    emit("names " + name, a); emit("values " + name, b);
    Method m0 = null;
    for (Method m : c.getMethods()) if (m.getName().equals("toEnum") && m.getParameterTypes()[0] != String.class) m0 = m;
    final Method tv = m0;
    for (Object i : items) {
      String k = name + " " + ((Enum<?>)i).name();
      tryit("ordinal " + k, () -> ((Enum<?>)i).ordinal());
      tryit("size " + k, () -> sz(i));
      tryit("write " + k, () -> wr((zserio.runtime.io.Writer)i));
      tryit("generic " + k, () -> ((zserio.runtime.ZserioEnum)i).getGenericValue());
    }
    for (String v : values) {
      try { Object x = conv(tv.getParameterTypes()[0], v); tryit("value " + name + " " + v, () -> tv.invoke(null, x)); }
      catch (NoFit e) { emit("value " + name + " " + v, "err"); }
    }
    for (String n : names) tryit("name " + name + " " + n, () -> c.getMethod("toEnum", String.class).invoke(null, n));
    for (String s : streams) tryit("read " + name + " " + s, () -> { BitStreamReader r = rdr(s); Object o = c.getMethod("readEnum", BitStreamReader.class).invoke(null, r); return gv(o) + "@" + r.getBitPosition(); });
  }
  static void bm(String pkg, String name, String[] its, String[] values, String[][] pairs, String[] streams) throws Throwable {
    Class<?> c = Class.forName(pkg + "." + name);
    Class<?> vs = Class.forName(pkg + "." + name + "$Values");
    StringBuilder a = new StringBuilder();
    for (String n : its) a.append(a.length() > 0 ? "," : "").append(n).append("=").append(gv(vs.getField(n).get(null)));
    if (vs.getFields().length != its.length) a.append(" and more");
    emit("items " + name, a);
    emit("default " + name, gv(c.getConstructor().newInstance()));
    Constructor<?> k0 = null;
    for (Constructor<?> k : c.getConstructors()) if (k.getParameterCount() == 1 && k.getParameterTypes()[0] != BitStreamReader.class) k0 = k;
    final Constructor<?> ctor = k0;
    final Class<?> vt = ctor.getParameterTypes()[0];
    for (String v : values) {
      String k = name + " " + v;
      Object x;
      try { x = conv(vt, v); } catch (NoFit e) { for (String q : "value str not write size generic".split(" ")) emit(q + " " + k, "err"); continue; }
      tryit("value " + k, () -> gv(ctor.newInstance(x)));
      tryit("str " + k, () -> ctor.newInstance(x).toString());
      tryit("not " + k, () -> { Object o = ctor.newInstance(x); return gv(c.getMethod("not").invoke(o)); });
      tryit("write " + k, () -> wr((zserio.runtime.io.Writer)ctor.newInstance(x)));
      tryit("size " + k, () -> sz(ctor.newInstance(x)));
      tryit("generic " + k, () -> ((zserio.runtime.ZserioBitmask)ctor.newInstance(x)).getGenericValue());
    }
    for (String[] p : pairs) {
      String k = name + " " + p[0] + "," + p[1];
      Object x = ctor.newInstance(conv(vt, p[0])), y = ctor.newInstance(conv(vt, p[1]));
      for (String op : new String[] {"or", "and", "xor"}) tryit(op + " " + k, () -> gv(c.getMethod(op, c).invoke(x, y)));
      tryit("eq " + k, () -> x.equals(y) ? 1 : 0);
      tryit("kept " + k, () -> gv(x) + " " + gv(y));
      tryit("hash " + k, () -> (!x.equals(y) || x.hashCode() == y.hashCode()) ? "True" : "False");
    }
    for (String s : streams) tryit("read " + name + " " + s, () -> { BitStreamReader r = rdr(s); Object o = c.getConstructor(BitStreamReader.class).newInstance(r); return gv(o) + "@" + r.getBitPosition(); });
  }
  public static void main(String[] args) throws Throwable {
    run();
    System.out.print(out);
  }
'''

CPP = r'''
#include <iostream>
#include <string>
#include <vector>
#include "zserio/Enums.h"
#include "zserio/BitStreamReader.h"
#include "zserio/BitStreamWriter.h"
typedef std::string S; typedef std::vector<std::string> VS;
static void emit(const S& k, const S& v) { std::cout << k << "\t" << v << "\n"; }
template <class F> void tryit(const S& k, F f)
{
    S v;
    try { v = f(); } catch (const zserio::CppRuntimeException&) { v = "err"; } catch (const std::exception& e) { v = S("other exception ") + e.what(); }
    emit(k, v);
}
template <class T> typename std::enable_if<std::is_signed<T>::value, S>::type num(T v) { return std::to_string((long long)v); }
template <class T> typename std::enable_if<!std::is_signed<T>::value, S>::type num(T v) { return std::to_string((unsigned long long)v); }
template <class T> bool conv(const S& s, T& out)
{
    if (s[0] == '-') { long long v = std::stoll(s); out = (T)v; return std::is_signed<T>::value && (long long)out == v; }
    if (s.size() > 20) return false;
    if (s.size() == 20 && s > "18446744073709551615") return false;
    unsigned long long v = std::stoull(s); out = (T)v;
    return (unsigned long long)out == v && !(std::is_signed<T>::value && out < T());
}
static S hex(const std::vector<uint8_t>& b, size_t n) { S r; char t[3]; for (size_t i = 0; i < (n + 7) / 8; ++i) { snprintf(t, 3, "%02x", b[i]); r += t; } return r + ":" + std::to_string(n); }
static S join(const VS& v) { S r; for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + v[i]; return r; }
struct Rd { std::vector<uint8_t> b; size_t n; Rd(const S& s) { size_t c = s.find(':'); n = std::stoul(s.substr(c + 1)); for (size_t i = 0; i + 1 < c + 1 && i < c; i += 2) b.push_back((uint8_t)std::stoul(s.substr(i, 2), nullptr, 16)); } };
template <class E> void en(const S& name, const VS& values, const VS& names, const VS& streams)
{
    typedef typename std::underlying_type<E>::type U;
    typedef zserio::EnumTraits<E> T;
    VS a, b;
    for (auto x : T::names) a.push_back(x);
    for (auto x : T::values) b.push_back(num(zserio::enumToValue(x)));
    emit("names " + name, join(a)); emit("values " + name, join(b));
    emit("enumname " + name, T::enumName);
    for (size_t i = 0; i < T::values.size(); ++i) {
        const E e = T::values[i]; const S k = name + " " + T::names[i];
        tryit("ordinal " + k, [&]{ return std::to_string(zserio::enumToOrdinal(e)); });
        tryit("size " + k, [&]{ return std::to_string(zserio::bitSizeOf(e)) + " " + std::to_string(zserio::initializeOffsets(13, e)); });
        tryit("string " + k, [&]{ return S(zserio::enumToString(e)); });
        tryit("same " + k, [&]{ for (auto f : T::values) if (e == f && zserio::enumHashCode(e) != zserio::enumHashCode(f)) return S("False"); return S("True"); });
        tryit("write " + k, [&]{ std::vector<uint8_t> d(64); zserio::BitStreamWriter w(d.data(), d.size()); zserio::write(w, e); return hex(d, w.getBitPosition()); });
    }
    for (auto& v : values) {
        U u;
        if (!conv(v, u)) { emit("value " + name + " " + v, "err"); emit("ordv " + name + " " + v, "err"); continue; }
        tryit("value " + name + " " + v, [&]{ return S(zserio::enumToString(zserio::valueToEnum<E>(u))); });
        tryit("ordv " + name + " " + v, [&]{ return std::to_string(zserio::enumToOrdinal(static_cast<E>(u))); });
    }
    for (auto& n : names) tryit("name " + name + " " + n, [&]{ return S(zserio::enumToString(zserio::stringToEnum<E>(zserio::StringView(n.data(), n.size())))); });
    for (auto& s : streams) tryit("read " + name + " " + s, [&]{ Rd d(s); zserio::BitStreamReader r(d.b.data(), d.n, zserio::BitsTag()); E e = zserio::read<E>(r); return num(zserio::enumToValue(e)) + "@" + std::to_string(r.getBitPosition()); });
}
template <class B> void bm(const S& name, const VS& values, const std::vector<VS>& pairs, const VS& streams, const VS& items)
{
    typedef typename B::underlying_type U;
    emit("items " + name, join(items));
    emit("default " + name, num(B().getValue()));
    for (auto& v : values) {
        const S k = name + " " + v; U u;
        if (!conv(v, u)) { for (auto q : {"value ", "str ", "not ", "write ", "size "}) emit(q + k, "err"); continue; }
        tryit("value " + k, [&]{ B b(u); if (static_cast<U>(b) != b.getValue()) return S("conversion differs"); return num(b.getValue()); });
        tryit("str " + k, [&]{ auto s = B(u).toString(); return S(s.begin(), s.end()); });
        tryit("not " + k, [&]{ return num((~B(u)).getValue()); });
        tryit("size " + k, [&]{ return std::to_string(B(u).bitSizeOf()) + " " + std::to_string(B(u).initializeOffsets(13)); });
        tryit("write " + k, [&]{ B b(u); std::vector<uint8_t> d(64); zserio::BitStreamWriter w(d.data(), d.size()); b.write(w); return hex(d, w.getBitPosition()); });
    }
    for (auto& p : pairs) {
        const S k = name + " " + p[0] + "," + p[1];
        U ua, ub; conv(p[0], ua); conv(p[1], ub);
        const B x(ua), y(ub);
        tryit("or " + k, [&]{ B z(x); z |= y; B q = x | y; return num(q.getValue()) + (q == z ? "" : " |= differs"); });
        tryit("and " + k, [&]{ B z(x); z &= y; B q = x & y; return num(q.getValue()) + (q == z ? "" : " &= differs"); });
        tryit("xor " + k, [&]{ B z(x); z ^= y; B q = x ^ y; return num(q.getValue()) + (q == z ? "" : " ^= differs"); });
        tryit("eq " + k, [&]{ return S(x == y ? "1" : "0") + ((x == y) == (x != y) ? " != differs" : ""); });
        tryit("less " + k, [&]{ return S(x < y ? "1" : "0"); });
        tryit("kept " + k, [&]{ return num(x.getValue()) + " " + num(y.getValue()); });
        tryit("hash " + k, [&]{ return S(x == y && x.hashCode() != y.hashCode() ? "False" : "True"); });
    }
    for (auto& s : streams) tryit("read " + name + " " + s, [&]{ Rd d(s); zserio::BitStreamReader r(d.b.data(), d.n, zserio::BitsTag()); B b(r); return num(b.getValue()) + "@" + std::to_string(r.getBitPosition()); });
}
'''


def enc(ty, v):
    """(hex:bits)"""
    if ty.kind == "var":
        bs = refcodec.varint_enc(ty.name, v)
        val, n = bs if isinstance(bs, tuple) else (int.from_bytes(bs, "big"), 8 * len(bs))
        return "%s:%d" % (refcodec.bits_to_bytes(val, n).hex(), n), n
    return "%s:%d" % (refcodec.bits_to_bytes(v & ((1 << ty.bits) - 1), ty.bits).hex(), ty.bits), ty.bits


def num_text(t, v):
    """a literal of the schema language"""
    if v < 0:
        return "-" + str(-v) if v > -(1 << 63) else str(v)
    return t.weighted([(5, str(v)), (1, "0x%X" % v), (1, "0x%x" % v), (1, bin(v)[2:] + "b"), (1, "0" + oct(v)[2:] if v else "0")])


class P28(ScriptCheck):
    PROPERTY = "P28"
    NTASKS = {"quick": 40, "thorough": 800}
    RULE = ("a case is one random enumeration or bitmask (underlying type of any width and sign, explicit values in every notation, "
            "implicit values, constants and expressions, removed and deprecated items): all items, ordinals, names, values next to "
            "items, undefined values, encodings and (bitmasks) all operators on random pairs, compared in Python, Java and C++; "
            "non-trivial: distinct and at least two items")
    ASSUMPTIONS = ["the order of enumerations without operators of their own (Java, Python) is the ordinal and not judged",
                   "implicit bitmask values follow a non-zero value (known finding)"]

    def ty(self, t, unsigned):
        k = t.raw(4)
        if k == 0:
            return var(t.pick(["varsize", "varuint", "varuint16", "varuint32", "varuint64"] if unsigned else sorted(VAR)))
        if k == 1:
            return fixed(t.pick([8, 16, 32, 64]), not unsigned and t.chance(50))
        b = t.pick([3, 1, 2, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 47, 48, 49, 63, 64])
        return bitf(b, not unsigned and t.chance(50) and b > 1)

    def value(self, t, lo, hi, last):
        k = t.raw(7)
        if k == 0 and last is not None:
            v = last + t.int(1, 3)
        elif k == 1:
            v = lo + t.int(0, 2)
        elif k == 2:
            v = hi - t.int(0, 2)
        elif k == 3:
            v = t.pick([-1, 1]) * (1 << t.raw(64)) + t.int(-1, 1)
        elif k == 4:
            v = lo + t.bits(66) % (hi - lo + 1)
        else:
            v = t.int(0, 20) - (5 if lo < 0 else 0)
        return v if lo <= v <= hi else lo + v % (hi - lo + 1)

    def expr(self, t, v, consts):
        """text of an expression of value v"""
        k = t.raw(6)
        if k == 1 and consts:
            n, c = t.pick(consts)
            d = v - c
            if d == 0:
                return n
            if abs(d) < 1 << 40 and abs(c) < 1 << 40:
                return "%s %s %d" % (n, "+" if d > 0 else "-", abs(d))
        if k == 2 and v > 0 and v & (v - 1) == 0 and v.bit_length() < 60:
            return "1 << %d" % (v.bit_length() - 1)
        if k == 3 and 0 < v < 1 << 40:
            a = t.raw(v)
            return "%d + %d" % (a, v - a)
        if k == 4 and 2 < v < 1 << 60:
            return "0x%x | %d" % (v & ~5, v & 5)
        return num_text(t, v)

    def items(self, t, ty, mask, consts):
        lo, hi = ty.lo, ty.hi
        n = t.weighted([(6, t.int(1, 6)), (1, t.int(10, 60))])
        used = set(); out = []; last = None
        names = set()
        for i in range(n):
            if mask:
                imp = 1 if last is None else 1 << last.bit_length()
                if last == 0:
                    imp = None          # known finding bitmask-after-zero
            else:
                imp = 0 if last is None else last + 1
            if imp is not None and imp not in used and lo <= imp <= hi and t.chance(45):
                v = imp; e = None
            else:
                for _ in range(10):
                    v = self.value(t, lo, hi, last)
                    if mask and t.chance(60):
                        v = 1 << t.raw(hi.bit_length())
                    if v not in used and lo <= v <= hi:
                        break
                else:
                    continue
                if v in used or not lo <= v <= hi:
                    continue
                e = self.expr(t, v, consts)
            nm = t.pick(["IT_%d", "it%d", "Item%d", "VALUE%dX", "i_%d"]) % i
            flag = None if mask else t.weighted([(8, None), (1, "deprecated"), (2, "removed")])
            used.add(v); last = v
            out.append((nm, v, e, flag))
        if not out:
            out.append(("ONE", 1 if hi >= 1 else 0, "1" if hi >= 1 else "0", None))
        if not mask and all(f == "removed" for _, _, _, f in out):
            out[0] = out[0][:3] + (None,)
        return out

    def plan(self, t, task):
        p = Plan()
        lines = ["package a;"]
        consts = []
        for i in range(t.int(0, 3)):
            v = self.value(t, -(1 << 31), (1 << 31) - 1, None)
            lines.append("const int32 CN%d = %s;" % (i, str(v))); consts.append(("CN%d" % i, v))
        py = [PY]; jr = []; cr = ["int main() {"]
        exp = {"*": {}}
        java_only, cpp_only, pynames = {}, {}, {}
        ex = exp["*"]
        for n in range(t.int(4, 9)):
            mask = t.chance(50)
            name = ("Bm%d" if mask else "En%d") % n
            ty = self.ty(t, mask)
            tn = ty.name
            if t.chance(25):
                lines.append("subtype %s Sub%d;" % (tn, n)); tn = "Sub%d" % n
            elif ty.kind == "int" and tn.startswith(("bit:", "int:")) and t.chance(30):
                tn = "%s<%d>" % (tn[:3], ty.bits)
            its = self.items(t, ty, mask, consts)
            lines.append("%s %s %s\n{" % ("bitmask" if mask else "enum", tn, name))
            lines.append(",\n".join("    " + ("@%s " % f if f else "") + nm + (" = " + e if e is not None else "") for nm, v, e, f in its) + t.pick(["", ","]))
            lines.append("};")
            vals = set()
            for _, v, _, _ in its:
                vals |= {v - 1, v, v + 1}
            vals |= {ty.lo, ty.hi, 0, 1}
            for _ in range(8):
                vals.add(ty.lo + t.bits(66) % (ty.hi - ty.lo + 1))
            byv = {v: (nm, f) for nm, v, _, f in its}
            p.cases.append((name + repr(its), len(its) > 1, "\n".join(lines[-3:])[:300]))
            if not mask:
                vals = sorted(v for v in vals if ty.lo <= v <= ty.hi)
                gn = lambda nm, f: "ZSERIO_REMOVED_" + nm if f == "removed" else nm
                names = [gn(nm, f) for nm, _, _, f in its]
                ex["names " + name] = ",".join(names)
                ex["values " + name] = ",".join(str(v) for _, v, _, _ in its)
                for o, (nm, v, _, f) in enumerate(its):
                    k = name + " " + gn(nm, f)
                    h, bits = enc(ty, v)
                    ex["ordinal " + k] = str(o)
                    ex["size " + k] = "%d %d" % (bits, 13 + bits)
                    ex["write " + k] = "err" if f == "removed" else h
                    java_only["generic " + k] = str(v)
                    cpp_only["string " + k] = gn(nm, f)
                    ex["same " + k] = "True"
                for v in vals:
                    x = byv.get(v)
                    ex["value %s %d" % (name, v)] = gn(*x) if x else "err"
                    cpp_only["ordv %s %d" % (name, v)] = str([q[1] for q in its].index(v)) if x else "err"
                cpp_only["enumname " + name] = name
                probe = names + [n2.lower() if n2.lower() != n2 else n2.upper() for n2 in names[:3]] + [names[0] + "_", names[0][:-1], "", "NoSuch", name + "." + names[0]]
                probe += [nm for nm, _, _, f in its if f == "removed"]
                probe = sorted(set(probe))
                for q in probe:
                    ex["name %s %s" % (name, q)] = q if q in names else "err"
                pn = [q.upper() for q in names]
                pprobe = sorted(set(pn + [q.lower() for q in pn[:3]] + [pn[0] + "_", pn[0][:-1], "", "NoSuch", name + "." + pn[0]] + [nm.upper() for nm, _, _, f in its if f == "removed"]))
                for q in pprobe:
                    pynames["%s %s" % (name, q)] = q if q in pn else "err"
                streams = {}
                for v in vals:
                    h, bits = enc(ty, v)
                    streams[h] = "%d@%d" % (v, bits) if v in byv else "err"
                for h, r in streams.items():
                    ex["read %s %s" % (name, h)] = r
                py.append("en('a.%s', %r, %r, %r, %r)" % (name.lower(), name, vals, pprobe, sorted(streams)))
                jr.append('en("a", "%s", %s, %s, %s);' % (name, jl(vals), jl(probe), jl(sorted(streams))))
                cr.append('en<a::%s>("%s", %s, %s, %s);' % (name, name, cl(vals), cl(probe), cl(sorted(streams))))
            else:
                inr = sorted(v for v in vals if ty.lo <= v <= ty.hi)
                for _ in range(6):
                    x = 0
                    for nm, v, _, _ in its:
                        if t.chance(50):
                            x |= v
                    inr.append(x)
                inr = sorted(set(inr))
                outr = [ty.hi + 1, ty.hi * 2 + 1, -1, -(1 << 40)]
                ex["items " + name] = ",".join("%s=%d" % (nm, v) for nm, v, _, _ in its)
                ex["default " + name] = "0"
                for v in inr + outr:
                    k = "%s %d" % (name, v)
                    if v in outr:
                        for q in "value", "str", "not", "write", "size":
                            ex[q + " " + k] = "err"
                        java_only["generic " + k] = "err"
                        continue
                    s = [nm for nm, w, _, _ in its if w and v & w == w]
                    if not s and v == 0:
                        s = [nm for nm, w, _, _ in its if w == 0]
                    h, bits = enc(ty, v)
                    ex["value " + k] = str(v)
                    ex["str " + k] = "%d[%s]" % (v, " | ".join(s))
                    ex["not " + k] = str(~v & ty.hi)
                    ex["write " + k] = h
                    ex["size " + k] = "%d %d" % (bits, 13 + bits)
                    java_only["generic " + k] = str(v)
                pairs = [(t.pick(inr), t.pick(inr)) for _ in range(20)] + [(inr[0], inr[0]), (inr[-1], inr[-1])]
                pairs = sorted(set(pairs))
                for x, y in pairs:
                    k = "%s %d,%d" % (name, x, y)
                    ex["or " + k] = str(x | y); ex["and " + k] = str(x & y); ex["xor " + k] = str(x ^ y)
                    ex["eq " + k] = str(int(x == y)); ex["kept " + k] = "%d %d" % (x, y); ex["hash " + k] = "True"
                    cpp_only["less " + k] = str(int(x < y))
                streams = {}
                for v in inr:
                    h, bits = enc(ty, v)
                    streams[h] = "%d@%d" % (v, bits)
                for h, r in streams.items():
                    ex["read %s %s" % (name, h)] = r
                py.append("bm('a.%s', %r, %r, %r, %r, %r)" % (name.lower(), name, [i[0] for i in its], inr + outr, pairs, sorted(streams)))
                jr.append('bm("a", "%s", %s, %s, new String[][] {%s}, %s);' % (name, jl([i[0] for i in its]), jl(inr + outr),
                          ", ".join("{\"%d\", \"%d\"}" % x for x in pairs), jl(sorted(streams))))
                cr.append('bm<a::%s>("%s", %s, {%s}, %s, {%s});' % (name, name, cl(inr + outr), ", ".join('VS{"%d", "%d"}' % x for x in pairs), cl(sorted(streams)),
                          ", ".join('S("%s=") + num(a::%s(a::%s::Values::%s).getValue())' % (i[0], name, name, i[0]) for i in its)))
        p.files = {"a.zs": "\n".join(lines) + "\n"}
        p.scripts = {"python": "\n".join(py) + "\n",
                     "java": JAVA + "".join("  static void r%d() throws Throwable { %s }\n" % (i, x) for i, x in enumerate(jr)) +
                     "  static void run() throws Throwable { " + " ".join("r%d();" % i for i in range(len(jr))) + " }\n}\n",
                     "cpp": CPP + "\n".join(cr) + "\n}\n"}
        je = dict(ex); je.update(java_only)
        for k in list(je):
            if k.startswith("same "):
                del je[k]
        ce = dict(ex); ce.update(cpp_only)
        # Python writes item names in upper case
        up = lambda x: re.sub(r"(ZSERIO_REMOVED_)?(It|it|i_|Item)(\d+)", lambda m: m.group(0).upper(), x) if x != "err" else x
        pe = {}
        for k, v in ex.items():
            w = k.split(" ")
            if w[0] == "name":
                continue
            if w[0] in ("ordinal", "size", "write", "same") and w[1].startswith("En"):
                k = " ".join(w[:2] + [up(w[2])])
            if w[0] in ("names", "items", "str") or w[0] == "value" and w[1].startswith("En"):
                v = up(v)
            pe[k] = v
        for k, v in pynames.items():
            pe["name " + k] = v
        p.expected = {"python": pe, "java": je, "cpp": ce}
        return p

    def probe(self, ctx, f):
        if f["key"] == "bitmask-after-zero":
            s = Script(ctx.worker, "package a;\nbitmask uint8 B { Z = 0, A };\n", main="a.zs", langs=("python",))
            try:
                rc, out = s.python("from a.b import B\nprint(B.Values.A.value)")
                return out.strip() == "2"
            finally:
                s.close()
        return False


def jl(xs):
    return "new String[] {%s}" % ", ".join('"%s"' % x for x in xs)


def cl(xs):
    return "VS{%s}" % ", ".join('"%s"' % x for x in xs)


if __name__ == "__main__":
    sys.exit(runner.main(P28()))
