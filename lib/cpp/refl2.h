// Walker, reflection and tree creator operations on generated code.
#ifndef ZSV_REFL2_H
#define ZSV_REFL2_H
#include <deque>
#include <zserio/ReflectableUtil.h>
#include <zserio/Walker.h>
#include <zserio/ZserioTreeCreator.h>

namespace zsv
{

template <class F>
bool throwsCpp(F f)
{
    try
    {
        f();
    }
    catch (const zserio::CppRuntimeException&)
    {
        return true;
    }
    return false;
}

inline std::string str(zserio::StringView v)
{
    return std::string(v.data(), v.size());
}

inline bool isSignedType(zserio::CppType t)
{
    return t == zserio::CppType::INT8 || t == zserio::CppType::INT16 || t == zserio::CppType::INT32 || t == zserio::CppType::INT64;
}

// value of a simple reflectable
inline std::string leaf(const zserio::IReflectable& v)
{
    std::string r;
    switch (v.getTypeInfo().getCppType())
    {
    case zserio::CppType::BOOL: outB(r, v.getBool()); break;
    case zserio::CppType::INT8: outI(r, v.getInt8()); break;
    case zserio::CppType::INT16: outI(r, v.getInt16()); break;
    case zserio::CppType::INT32: outI(r, v.getInt32()); break;
    case zserio::CppType::INT64: outI(r, v.getInt64()); break;
    case zserio::CppType::UINT8: outI(r, v.getUInt8()); break;
    case zserio::CppType::UINT16: outI(r, v.getUInt16()); break;
    case zserio::CppType::UINT32: outI(r, v.getUInt32()); break;
    case zserio::CppType::UINT64: outI(r, v.getUInt64()); break;
    case zserio::CppType::FLOAT: outF(r, static_cast<double>(v.getFloat())); break;
    case zserio::CppType::DOUBLE: outF(r, v.getDouble()); break;
    case zserio::CppType::STRING: outS(r, v.getStringView()); break;
    case zserio::CppType::BYTES: outY(r, v.getBytes()); break;
    case zserio::CppType::BIT_BUFFER: outX(r, v.getBitBuffer()); break;
    case zserio::CppType::ENUM:
        if (isSignedType(v.getTypeInfo().getUnderlyingType().getCppType()))
            outI(r, v.toInt());
        else
            outI(r, v.toUInt());
        break;
    case zserio::CppType::BITMASK: outI(r, v.toUInt()); break;
    default: r = "?compound";
    }
    return r;
}

// conversions and getters of other types
inline void leafChecks(const zserio::IReflectable& v)
{
    const zserio::ITypeInfo& ti = v.getTypeInfo();
    const zserio::CppType t = ti.getCppType();
    const std::string path = str(ti.getSchemaName());
    const auto bad = [&](const char* what) { throw std::runtime_error(std::string("conversion ") + what + " of " + path); };
    if (v.isArray())
        bad("isArray");
    const bool sig = isSignedType(t);
    const bool uns = t == zserio::CppType::UINT8 || t == zserio::CppType::UINT16 || t == zserio::CppType::UINT32 || t == zserio::CppType::UINT64;
    const std::string l = leaf(v);
    if (sig || uns)
    {
        if (v.toString() != l)
            bad("toString");
        if (sig && std::to_string(v.toInt()) != l)
            bad("toInt");
        if (uns && std::to_string(v.toUInt()) != l)
            bad("toUInt");
        if (v.toDouble() != (sig ? static_cast<double>(v.toInt()) : static_cast<double>(v.toUInt())))
            bad("toDouble");
        if (sig != throwsCpp([&] { v.toUInt(); }) || uns != throwsCpp([&] { v.toInt(); }))
            bad("to other sign");
    }
    if (t == zserio::CppType::FLOAT || t == zserio::CppType::DOUBLE)
    {
        std::string d;
        outF(d, v.toDouble());
        if (d != l)
            bad("toDouble");
        if (!throwsCpp([&] { v.toInt(); }) || !throwsCpp([&] { v.toUInt(); }))
            bad("float to integer");
    }
    if (t == zserio::CppType::STRING && v.toString() != str(v.getStringView()))
        bad("toString");
    if (t == zserio::CppType::ENUM)
    {
        std::string name;
        const bool us = isSignedType(ti.getUnderlyingType().getCppType());
        for (const auto& i : ti.getEnumItems())
            if (us ? static_cast<int64_t>(i.value) == v.toInt() : i.value == v.toUInt())
                name = str(i.schemaName);
        if (v.toString() != name)
            bad("toString of an enumeration");
        if (v.toDouble() != (us ? static_cast<double>(v.toInt()) : static_cast<double>(v.toUInt())))
            bad("toDouble of an enumeration");
    }
    if ((t != zserio::CppType::BOOL) != throwsCpp([&] { v.getBool(); }))
        bad("getBool");
    if ((t != zserio::CppType::DOUBLE) != throwsCpp([&] { v.getDouble(); }))
        bad("getDouble");
    if ((t != zserio::CppType::FLOAT) != throwsCpp([&] { v.getFloat(); }))
        bad("getFloat");
    if ((t != zserio::CppType::STRING) != throwsCpp([&] { v.getStringView(); }))
        bad("getStringView");
    if ((t != zserio::CppType::BYTES) != throwsCpp([&] { v.getBytes(); }))
        bad("getBytes");
    if ((t != zserio::CppType::BIT_BUFFER) != throwsCpp([&] { v.getBitBuffer(); }))
        bad("getBitBuffer");
    if (t != zserio::CppType::ENUM && t != zserio::CppType::BITMASK)
    {
        if ((t != zserio::CppType::UINT8) != throwsCpp([&] { v.getUInt8(); }))
            bad("getUInt8");
        if ((t != zserio::CppType::INT16) != throwsCpp([&] { v.getInt16(); }))
            bad("getInt16");
        if ((t != zserio::CppType::UINT32) != throwsCpp([&] { v.getUInt32(); }))
            bad("getUInt32");
        if ((t != zserio::CppType::INT64) != throwsCpp([&] { v.getInt64(); }))
            bad("getInt64");
    }
    if (!throwsCpp([&] { v.getField("x"); }) || !throwsCpp([&] { v.getChoice(); }) || !throwsCpp([&] { v.size(); }) || !throwsCpp([&] { v.at(0); }))
        bad("compound access");
    if (v.find("x") != nullptr)
        bad("find");
}

template <class P>
void rdump(std::string& r, const P& o, const P& root, const std::string& path);

template <class P>
void rvalue(std::string& r, const P& v, const P& root, const std::string& path)
{
    if (zserio::TypeInfoUtil::isCompound(v->getTypeInfo().getSchemaType()))
    {
        rdump(r, v, root, path);
        return;
    }
    const std::string l = leaf(*v);
    r += l;
    leafChecks(*v);
    if (!path.empty())
    {
        const P f = root->find(path);
        if (!f || leaf(*f) != l)
            throw std::runtime_error("find " + path);
    }
}

// the reflected object in the format of the typed dump; path is empty where find does not reach
template <class P>
void rdump(std::string& r, const P& o, const P& root, const std::string& path)
{
    const zserio::ITypeInfo& ti = o->getTypeInfo();
    const auto sub = [&](zserio::StringView n) { return path.empty() ? path : path == "." ? str(n) : path + "." + str(n); };
    r += "{";
    for (const auto& p : ti.getParameters())
    {
        r += ' ';
        const P v = o->getParameter(p.schemaName);
        if (!v)
            r += "null";
        else if (zserio::TypeInfoUtil::isCompound(p.typeInfo.getSchemaType()))
            r += "@";
        else
            rvalue(r, v, root, sub(p.schemaName));
    }
    const auto field = [&](const zserio::FieldInfo& f) {
        r += ' ';
        const P v = o->getField(f.schemaName);
        if (!v)
        {
            r += "-";
            if (!sub(f.schemaName).empty() && root->find(sub(f.schemaName)))
                throw std::runtime_error("find of an absent field");
            return;
        }
        if (v->isArray() != f.isArray)
            throw std::runtime_error("isArray of " + str(f.schemaName));
        if (!f.isArray)
        {
            rvalue(r, v, root, sub(f.schemaName));
            return;
        }
        r += "[ " + u2s(v->size());
        for (size_t i = 0; i < v->size(); ++i)
        {
            r += ' ';
            rvalue(r, v->at(i), root, "");
        }
        if (!throwsCpp([&] { v->at(v->size()); }) || !throwsCpp([&] { v->getField("x"); }) || !throwsCpp([&] { v->toInt(); }))
            throw std::runtime_error("array access of " + str(f.schemaName));
        r += " ]";
    };
    if (zserio::TypeInfoUtil::hasChoice(ti.getSchemaType()))
    {
        const std::string c = str(o->getChoice());
        size_t n = 0;
        for (const auto& f : ti.getFields())
        {
            if (c == str(f.schemaName))
            {
                r += " " + u2s(n);
                field(f);
                break;
            }
            ++n;
        }
        if (n == ti.getFields().size())
        {
            r += " -";
            if (!c.empty())
                throw std::runtime_error("getChoice " + c);
        }
    }
    else
        for (const auto& f : ti.getFields())
            field(f);
    r += " |";
    for (const auto& f : ti.getFunctions())
    {
        r += ' ';
        std::string s;
        try
        {
            const P v = o->callFunction(f.schemaName);
            if (!v)
                s = "!";
            else
                rvalue(s, v, root, sub(f.schemaName));
        }
        catch (const zserio::CppRuntimeException&)
        {
            s = "!";
        }
        r += s;
    }
    if (!throwsCpp([&] { o->getField("noSuchField"); }) || !throwsCpp([&] { o->getParameter("noSuchField"); }) ||
            !throwsCpp([&] { o->callFunction("noSuchField"); }) || !throwsCpp([&] { o->getInt8(); }) || !throwsCpp([&] { o->size(); }))
        throw std::runtime_error("wrong access of " + str(ti.getSchemaName()));
    if (o->find("noSuchField") || o->find("no.such"))
        throw std::runtime_error("find of nothing");
    r += " }";
}

struct Log : zserio::IWalkObserver
{
    std::string r;
    using Ptr = zserio::IReflectableConstPtr;
    using FI = zserio::FieldInfo;
    static std::string ix(size_t i)
    {
        return i == zserio::WALKER_NOT_ELEMENT ? "-" : u2s(i);
    }
    void add(const std::string& s)
    {
        r += (r.empty() ? "" : " ") + s;
    }
    void beginRoot(const Ptr&) override
    {
        add("R");
    }
    void endRoot(const Ptr&) override
    {
        add("r");
    }
    void beginArray(const Ptr& a, const FI& f) override
    {
        add("A:" + str(f.schemaName) + ":" + u2s(a->size()));
    }
    void endArray(const Ptr&, const FI& f) override
    {
        add("a:" + str(f.schemaName));
    }
    void beginCompound(const Ptr&, const FI& f, size_t i) override
    {
        add("C:" + str(f.schemaName) + ":" + ix(i));
    }
    void endCompound(const Ptr&, const FI& f, size_t i) override
    {
        add("c:" + str(f.schemaName) + ":" + ix(i));
    }
    void visitValue(const Ptr& v, const FI& f, size_t i) override
    {
        add("V:" + str(f.schemaName) + ":" + ix(i) + ":" + (v ? leaf(*v) : "null"));
    }
};

// answers from a list of bits
struct Scripted : zserio::IWalkFilter
{
    explicit Scripted(const std::string& b) : bits(b)
    {}
    std::string bits;
    size_t n = 0;
    bool next()
    {
        return bits[n++ % bits.size()] == '1';
    }
    using Ptr = zserio::IReflectableConstPtr;
    using FI = zserio::FieldInfo;
    bool beforeArray(const Ptr&, const FI&) override
    {
        return next();
    }
    bool afterArray(const Ptr&, const FI&) override
    {
        return next();
    }
    bool beforeCompound(const Ptr&, const FI&, size_t) override
    {
        return next();
    }
    bool afterCompound(const Ptr&, const FI&, size_t) override
    {
        return next();
    }
    bool beforeValue(const Ptr&, const FI&, size_t) override
    {
        return next();
    }
    bool afterValue(const Ptr&, const FI&, size_t) override
    {
        return next();
    }
};

struct Filters
{
    std::deque<std::unique_ptr<zserio::IWalkFilter>> all;
    // prefix notation, comma separated: D3 L2 X<hex> S<bits> N(default) &<n>
    zserio::IWalkFilter& make(std::vector<std::string>& p, size_t& i)
    {
        const std::string s = p.at(i++);
        std::unique_ptr<zserio::IWalkFilter> f;
        if (s[0] == 'D')
            f.reset(new zserio::DepthWalkFilter(num<uint32_t>(s.substr(1))));
        else if (s[0] == 'L')
            f.reset(new zserio::ArrayLengthWalkFilter(num<uint32_t>(s.substr(1))));
        else if (s[0] == 'X')
        {
            const auto b = unhex(s, 1);
            f.reset(new zserio::RegexWalkFilter(std::string(b.begin(), b.end()).c_str()));
        }
        else if (s[0] == 'S')
            f.reset(new Scripted(s.substr(1)));
        else if (s[0] == 'N')
            f.reset(new zserio::DefaultWalkFilter());
        else
        {
            zserio::AndWalkFilter::WalkFilters v;
            const size_t n = num<uint32_t>(s.substr(1));
            for (size_t k = 0; k < n; ++k)
                v.push_back(std::ref(make(p, i)));
            f.reset(new zserio::AndWalkFilter(v));
        }
        all.push_back(std::move(f));
        return *all.back();
    }
};

inline std::vector<std::string> commas(const std::string& s)
{
    std::vector<std::string> r;
    std::istringstream i(s);
    std::string x;
    while (std::getline(i, x, ','))
        r.push_back(x);
    return r;
}

// object with the parameters it refers to
template <class K>
struct Made
{
    explicit Made(const std::string& toks) : t(toks), pt(toks.substr(2)), ps(pt), o(new typename K::T())
    {
        K::build(t, *o);
        ps.init(*o);
        o->initializeOffsets(0);
    }
    Tok t, pt;
    typename K::Params ps;
    std::unique_ptr<typename K::T> o;
    typename K::T& operator*() const
    {
        return *o;
    }
    typename K::T* operator->() const
    {
        return o.get();
    }
};

// event logs of several walks
template <class K>
std::string opK(const std::vector<std::string>& p)
{
    std::string ph = "build";
    try
    {
        const Made<K> o(p.back());
        std::string r = "ok";
        for (size_t i = 2; i + 1 < p.size(); ++i)
        {
            ph = "walk " + p[i];
            Log log;
            const zserio::IReflectableConstPtr ro = const_cast<const typename K::T&>(*o).reflectable();
            if (p[i] == "-")
            {
                zserio::Walker w(log);
                w.walk(ro);
            }
            else
            {
                Filters f;
                std::vector<std::string> parts = commas(p[i]);
                size_t k = 0;
                zserio::IWalkFilter& wf = f.make(parts, k);
                zserio::Walker w(log, wf);
                w.walk(ro);
            }
            r += '\t' + log.r;
        }
        return r;
    }
    catch (const std::exception& e)
    {
        return errs(ph, e);
    }
}

// dump by reflection (constant and not), size and serialization
template <class K>
std::string opV(const std::string& toks, size_t start)
{
    std::string ph = "build";
    try
    {
        const Made<K> o(toks);
        std::string r = "ok\t";
        ph = "const dump";
        {
            const zserio::IReflectableConstPtr p = const_cast<const typename K::T&>(*o).reflectable();
            rdump(r, p, p, ".");
        }
        r += '\t';
        ph = "dump";
        const zserio::IReflectablePtr p = o->reflectable();
        rdump(r, p, p, ".");
        ph = "size";
        r += '\t' + u2s(p->initializeOffsets(start)) + '\t' + u2s(p->bitSizeOf(start));
        ph = "write";
        zserio::BitBuffer buf(start + p->bitSizeOf(start));
        zserio::BitStreamWriter w(buf);
        pad(w, start);
        p->write(w);
        r += '\t';
        hex(r, buf.getBuffer(), (w.getBitPosition() + 7) / 8);
        r += ':' + u2s(w.getBitPosition());
        return r;
    }
    catch (const std::exception& e)
    {
        return errs(ph, e);
    }
}

// feeds a tree creator with what the walker finds
struct Copy : zserio::IWalkObserver
{
    explicit Copy(zserio::ZserioTreeCreator& c) : c(c)
    {}
    zserio::ZserioTreeCreator& c;
    using Ptr = zserio::IReflectableConstPtr;
    using FI = zserio::FieldInfo;
    static std::string nm(const FI& f)
    {
        return str(f.schemaName);
    }
    void beginRoot(const Ptr&) override
    {
        c.beginRoot();
    }
    void endRoot(const Ptr&) override
    {}
    void beginArray(const Ptr&, const FI& f) override
    {
        if (&c.getFieldType(nm(f)) != &f.typeInfo)
            throw std::runtime_error("getFieldType of " + nm(f));
        c.beginArray(nm(f));
        if (&c.getElementType() != &f.typeInfo)
            throw std::runtime_error("getElementType of " + nm(f));
    }
    void endArray(const Ptr&, const FI&) override
    {
        c.endArray();
    }
    void beginCompound(const Ptr&, const FI& f, size_t i) override
    {
        if (i == zserio::WALKER_NOT_ELEMENT)
        {
            if (!throwsCpp([&] { c.beginArray(nm(f)); }) || !throwsCpp([&] { c.endArray(); }) || !throwsCpp([&] { c.beginCompoundElement(); }))
                throw std::runtime_error("creator accepts an array at " + nm(f));
            c.beginCompound(nm(f));
        }
        else
        {
            if (!throwsCpp([&] { c.beginCompound(nm(f)); }) || !throwsCpp([&] { c.endCompound(); }))
                throw std::runtime_error("creator accepts a compound at " + nm(f));
            c.beginCompoundElement();
        }
    }
    void endCompound(const Ptr&, const FI&, size_t i) override
    {
        if (i == zserio::WALKER_NOT_ELEMENT)
            c.endCompound();
        else
            c.endCompoundElement();
    }
    template <class V>
    void put(const FI& f, size_t i, V&& v)
    {
        if (i == zserio::WALKER_NOT_ELEMENT)
            c.setValue(nm(f), std::forward<V>(v));
        else
            c.addValueElement(std::forward<V>(v));
    }
    void visitValue(const Ptr& v, const FI& f, size_t i) override
    {
        if (!v)
        {
            c.setValue(nm(f), nullptr);
            return;
        }
        switch (v->getTypeInfo().getCppType())
        {
        case zserio::CppType::BOOL: put(f, i, v->getBool()); break;
        case zserio::CppType::INT8: put(f, i, v->getInt8()); break;
        case zserio::CppType::INT16: put(f, i, v->getInt16()); break;
        case zserio::CppType::INT32: put(f, i, v->toInt()); break;
        case zserio::CppType::INT64: put(f, i, v->getInt64()); break;
        case zserio::CppType::UINT8: put(f, i, v->getUInt8()); break;
        case zserio::CppType::UINT16: put(f, i, v->toUInt()); break;
        case zserio::CppType::UINT32: put(f, i, v->getUInt32()); break;
        case zserio::CppType::UINT64: put(f, i, v->getUInt64()); break;
        case zserio::CppType::FLOAT: put(f, i, v->getFloat()); break;
        case zserio::CppType::DOUBLE: put(f, i, v->toDouble()); break;
        case zserio::CppType::STRING: put(f, i, v->getStringView()); break;
        case zserio::CppType::BYTES:
            put(f, i, std::vector<uint8_t>(v->getBytes().begin(), v->getBytes().end()));
            break;
        case zserio::CppType::BIT_BUFFER: put(f, i, zserio::BitBuffer(v->getBitBuffer())); break;
        case zserio::CppType::ENUM:
            if (i % 2)
                put(f, i, v->toString());
            else if (isSignedType(v->getTypeInfo().getUnderlyingType().getCppType()))
                put(f, i, v->toInt());
            else
                put(f, i, v->toUInt());
            break;
        case zserio::CppType::BITMASK: put(f, i, v->toUInt()); break;
        default: throw std::runtime_error("value of a compound type");
        }
    }
};

template <class K>
std::string opZ(const std::string& toks)
{
    using T = typename K::T;
    std::string ph = "build";
    try
    {
        const Made<K> o(toks);
        ph = "create";
        zserio::ZserioTreeCreator c(T::typeInfo());
        Copy obs(c);
        zserio::Walker w(obs);
        const zserio::IReflectableConstPtr ro = const_cast<const T&>(*o).reflectable();
        w.walk(ro);
        const zserio::IReflectablePtr p = c.endRoot();
        ph = "value";
        std::unique_ptr<T> n(new T(std::move(zserio::ReflectableUtil::getValue<T>(p))));
        ph = "init";
        Tok pt(toks.substr(2));
        typename K::Params ps(pt);
        ps.init(*n);
        ph = "dump";
        std::string r = "ok\t";
        K::dump(r, *n);
        ph = "write";
        n->initializeOffsets(0);
        zserio::BitBuffer buf(n->bitSizeOf(0));
        zserio::BitStreamWriter bw(buf);
        n->write(bw);
        r += '\t';
        hex(r, buf.getBuffer(), (bw.getBitPosition() + 7) / 8);
        r += ':' + u2s(bw.getBitPosition());
        ph = "equal";
        const zserio::IReflectableConstPtr rn = const_cast<const T&>(*n).reflectable();
        r += zserio::ReflectableUtil::equal(ro, rn) ? "\t1" : "\t0";
        return r;
    }
    catch (const std::exception& e)
    {
        return errs(ph, e);
    }
}

} // namespace zsv
#endif
