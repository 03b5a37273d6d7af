// Canonical text of all type information reachable from a type.
#ifndef ZSV_TINFO_H
#define ZSV_TINFO_H
#include <deque>
#include <map>
#include <zserio/ITypeInfo.h>
#include <zserio/CppRuntimeException.h>

namespace zsv
{

inline std::string tiStr(zserio::StringView v)
{
    return std::string(v.data(), v.size());
}

inline std::string tiField(const zserio::FieldInfo& f)
{
    std::string r = tiStr(f.schemaName) + " " + tiStr(f.typeInfo.getSchemaName()) + " " + std::to_string(f.typeArguments.size()) + " ";
    if (f.isExtended)
        r += "x";
    if (!f.alignment.empty())
        r += "a" + tiStr(f.alignment);
    if (!f.offset.empty())
        r += "o";
    if (!f.initializer.empty())
        r += "i";
    if (f.isOptional)
        r += "p";
    if (!f.optionalCondition.empty())
        r += "c";
    if (!f.constraint.empty())
        r += "k";
    if (f.isArray)
        r += "A";
    if (!f.arrayLength.empty())
        r += "L";
    if (f.isPacked)
        r += "P";
    if (f.isImplicit)
        r += "I";
    return r;
}

inline bool tiSigned(zserio::CppType t)
{
    return t == zserio::CppType::INT8 || t == zserio::CppType::INT16 || t == zserio::CppType::INT32 || t == zserio::CppType::INT64;
}

inline std::string tiRecord(const zserio::ITypeInfo& t, std::deque<const zserio::ITypeInfo*>& next)
{
    std::string r = tiStr(t.getSchemaName()) + " ";
    const zserio::SchemaType k = t.getSchemaType();
    if (k == zserio::SchemaType::ENUM || k == zserio::SchemaType::BITMASK)
    {
        const zserio::ITypeInfo& u = t.getUnderlyingType();
        next.push_back(&u);
        r += (k == zserio::SchemaType::ENUM ? "E " : "M ") + tiStr(u.getSchemaName()) + " " +
                std::to_string(t.getUnderlyingTypeArguments().size());
        const bool sgn = tiSigned(u.getCppType());
        for (const zserio::ItemInfo& i : k == zserio::SchemaType::ENUM ? t.getEnumItems() : t.getBitmaskValues())
            r += " i:" + tiStr(i.schemaName) + "=" + (sgn ? std::to_string(static_cast<int64_t>(i.value)) : std::to_string(i.value)) +
                    (i.isDeprecated ? "d" : "") + (i.isRemoved ? "r" : "");
        return r;
    }
    if (k != zserio::SchemaType::STRUCT && k != zserio::SchemaType::UNION && k != zserio::SchemaType::CHOICE)
    {
        r += "B ";
        try
        {
            r += std::to_string(t.getBitSize());
        }
        catch (const zserio::CppRuntimeException&)
        {
            r += "-";
        }
        return r + " " + std::to_string(static_cast<int>(t.getSchemaType())) + " " + std::to_string(static_cast<int>(t.getCppType()));
    }
    r += k == zserio::SchemaType::STRUCT ? "S" : k == zserio::SchemaType::UNION ? "U" : "C";
    for (const auto& p : t.getParameters())
    {
        r += " p:" + tiStr(p.schemaName) + " " + tiStr(p.typeInfo.getSchemaName());
        next.push_back(&p.typeInfo);
    }
    for (const auto& f : t.getFields())
    {
        r += " f:" + tiField(f);
        next.push_back(&f.typeInfo);
    }
    for (const auto& f : t.getFunctions())
    {
        r += " u:" + tiStr(f.schemaName) + " " + tiStr(f.typeInfo.getSchemaName());
        if (f.functionResult.empty())
            r += " EMPTY";
        next.push_back(&f.typeInfo);
    }
    if (k == zserio::SchemaType::CHOICE)
    {
        for (const auto& c : t.getCases())
        {
            r += " c:" + (c.field == nullptr ? std::string("-") : tiStr(c.field->schemaName));
            for (const auto& e : c.caseExpressions)
                r += e.empty() ? ",EMPTY" : ",?";
        }
    }
    return r;
}

template <class K>
std::string opT()
{
    std::map<std::string, std::string> m;
    std::deque<const zserio::ITypeInfo*> q;
    q.push_back(&K::T::typeInfo());
    while (!q.empty())
    {
        const zserio::ITypeInfo& t = *q.front();
        q.pop_front();
        const std::string n = tiStr(t.getSchemaName());
        if (m.count(n) == 0)
            m[n] = tiRecord(t, q);
    }
    std::string r = "ok\t";
    bool first = true;
    for (const auto& e : m)
    {
        r += (first ? "" : "; ") + e.second;
        first = false;
    }
    return r + "\t";
}

}
#endif
