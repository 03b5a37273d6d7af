// Operations on generated code with type information and reflection.
#ifndef ZSV_REFL_H
#define ZSV_REFL_H
#include <fstream>
#include <zserio/DebugStringUtil.h>
#include <zserio/JsonReader.h>
#include <zserio/JsonWriter.h>
#include <zserio/Walker.h>

namespace zsv
{

inline std::string slurp(const std::string& path)
{
    std::ifstream f(path, std::ios::binary);
    std::ostringstream s;
    s << f.rdbuf();
    return s.str();
}

// mode: S string, N string with numbers for enumerations, F file, D default arguments
template <class K>
std::string opJ(const std::string& mode, const std::string& indent, const std::string& path, const std::string& toks)
{
    using T = typename K::T;
    std::string ph = "build";
    try
    {
        Tok t(toks);
        Tok pt(toks.substr(2));
        typename K::Params ps(pt);
        std::unique_ptr<T> o(new T());
        K::build(t, *o);
        ph = "init";
        ps.init(*o);
        o->initializeOffsets(0);
        ph = "json";
        std::string js;
        const bool none = indent == "-";
        const uint8_t ind = none ? 0 : num<uint8_t>(indent);
        if (mode == "N")
        {
            std::ostringstream s;
            if (none)
            {
                zserio::JsonWriter jw(s);
                jw.setEnumerableFormat(zserio::JsonWriter::EnumerableFormat::NUMBER);
                zserio::Walker w(jw);
                w.walk(o->reflectable());
            }
            else
            {
                zserio::JsonWriter jw(s, ind);
                jw.setEnumerableFormat(zserio::JsonWriter::EnumerableFormat::NUMBER);
                zserio::Walker w(jw);
                w.walk(o->reflectable());
            }
            js = s.str();
        }
        else if (mode == "F")
        {
            if (none)
                zserio::toJsonFile(*o, path);
            else
                zserio::toJsonFile(*o, path, ind);
            js = slurp(path);
        }
        else if (none)
            js = zserio::toJsonString(*o);
        else
            js = zserio::toJsonString(*o, ind);
        std::string r = "ok\t";
        hex(r, reinterpret_cast<const uint8_t*>(js.data()), js.size());
        return r;
    }
    catch (const std::exception& e)
    {
        return errs(ph, e);
    }
}

template <class K>
std::string opI(const std::string& mode, const std::string& path, const std::string& data, const std::string& ptoks)
{
    using T = typename K::T;
    std::string ph = "read";
    try
    {
        Tok pt(ptoks);
        typename K::Params ps(pt);
        const std::vector<uint8_t> v = unhex(data);
        const std::string js(v.begin(), v.end());
        std::unique_ptr<T> o;
        if (mode == "F")
        {
            {
                std::ofstream f(path, std::ios::binary);
                f << js;
            }
            o.reset(new T(zserio::fromJsonFile<T>(path)));
        }
        else if (mode == "N")
        {
            std::istringstream is(js);
            o.reset(new T(zserio::fromJsonStream<T>(is)));
        }
        else
            o.reset(new T(zserio::fromJsonString<T>(js)));
        ph = "init";
        ps.init(*o);
        ph = "dump";
        std::string r = "ok\t";
        K::dump(r, *o);
        ph = "write";
        const size_t size = o->bitSizeOf(0);
        zserio::BitBuffer buf(size);
        zserio::BitStreamWriter w(buf);
        o->write(w);
        r += '\t';
        hex(r, buf.getBuffer(), (size + 7) / 8);
        r += ':' + u2s(w.getBitPosition());
        return r;
    }
    catch (const std::exception& e)
    {
        return errs(ph, e);
    }
}

} // namespace zsv
#endif
