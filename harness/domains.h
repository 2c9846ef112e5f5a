// Boundary values per type: where encodings, widths and sizes change.
#pragma once
#include "dx.h"

namespace dom
{
    using dx::MV;
    using dx::Kind;
    using namespace dots::type;
    using dots::type::Type;

    inline std::vector<MV> leaf(bool text = false)
    {
        auto I = [](int64_t x) { return MV::Int(Type::int32, x); };
        std::vector<MV> r{ MV::St(), MV::St({ { 3, I(-25) } }), MV::St({ { 3, I(0) }, { 1, MV::S("x") }, { 17, MV::V({ I(1), I(-70000) }) } }), MV::St({ { 17, MV::V({}) } }) };
        (void)text;
        return r;
    }

    inline std::vector<MV> ints(Type t)
    {
        int bits = t == Type::int8 ? 8 : t == Type::int16 ? 16 : t == Type::int32 ? 32 : 64;
        int64_t lo = bits == 64 ? INT64_MIN : -(1ll << (bits - 1)), hi = bits == 64 ? INT64_MAX : (1ll << (bits - 1)) - 1;
        std::vector<MV> r;
        for (int64_t x : { INT64_C(0), INT64_C(1), INT64_C(-1), INT64_C(9), INT64_C(-10), INT64_C(23), INT64_C(24), INT64_C(-24), INT64_C(-25), INT64_C(127), INT64_C(-128), INT64_C(128), INT64_C(-129), INT64_C(255), INT64_C(256), INT64_C(-256), INT64_C(-257), INT64_C(32767), INT64_C(-32768), INT64_C(65535), INT64_C(65536), INT64_C(-65536), INT64_C(-65537), INT64_C(2147483647), INT64_C(-2147483648), INT64_C(4294967295), INT64_C(4294967296), INT64_C(-4294967296), INT64_C(-4294967297), INT64_C(9007199254740993), INT64_MAX, INT64_MIN })
            if (x >= lo && x <= hi) r.push_back(MV::Int(t, x));
        return r;
    }
    inline std::vector<MV> uints(Type t)
    {
        uint64_t hi = t == Type::uint8 ? 255 : t == Type::uint16 ? 65535 : t == Type::uint64 ? UINT64_MAX : UINT32_MAX;
        std::vector<MV> r;
        for (uint64_t x : { UINT64_C(0), UINT64_C(1), UINT64_C(9), UINT64_C(23), UINT64_C(24), UINT64_C(127), UINT64_C(128), UINT64_C(255), UINT64_C(256), UINT64_C(65535), UINT64_C(65536), UINT64_C(2147483648), UINT64_C(4294967295), UINT64_C(4294967296), UINT64_C(9007199254740993), UINT64_MAX })
            if (x <= hi) r.push_back(MV::UInt(t, x));
        return r;
    }
    inline std::vector<MV> doubles(Type t, bool finiteOnly)
    {
        std::vector<double> v{ 0.0, -0.0, 1, -1, 0.5, -1.5, 0.1, 1.0 / 3, 1e-5, 123456789.123456, -1e15, 1e20, 1e300, 5e-324, 1.7976931348623157e308, 1637345527.123456 };
        if (!finiteOnly) { v.push_back(INFINITY); v.push_back(-INFINITY); v.push_back(NAN); }
        if (t == Type::float32) { v.push_back(1.17549435e-38); v.push_back(3.40282347e38f); v.push_back(16777217); v.push_back(1.4e-45); }
        std::vector<MV> r;
        for (double d : v)
        {
            if (t == Type::float32) { float f = static_cast<float>(d); if (finiteOnly && !std::isfinite(f)) continue; d = f; }
            r.push_back(MV::F(t, d));
        }
        return r;
    }
    inline std::vector<MV> strings()
    {
        std::vector<MV> r;
        for (const char* s : { "", "a", "null", "true", "quote\" backslash\\ slash/", "\b\f\n\r\t\v\a", "\xc3\xa4\xe2\x82\xac\xf0\x9f\x98\x80", "{\"a\":[1,2}", "'single'", "\x01\x1f\x7f", "\\u0041\\n", " lead and trail ", "dots::x, y" }) r.push_back(MV::S(s));
        r.push_back(MV::S(std::string("nul\0inside", 10)));
        for (size_t n : { 15, 16, 23, 24, 255, 256 }) r.push_back(MV::S(std::string(n, 'z')));
        return r;
    }

    // full: every boundary value of a property's type
    inline std::vector<MV> full(const Descriptor<>& d, bool finiteOnly = false)
    {
        Type t = d.type();
        switch (dx::kind(t))
        {
            case Kind::I:
                if (t == Type::boolean) return { MV::Bool(false), MV::Bool(true) };
                if (t == Type::Enum) return { MV::E(0), MV::E(7), MV::E(100000) };
                return ints(t);
            case Kind::U: return uints(t);
            case Kind::D: return doubles(t, finiteOnly);
            case Kind::S:
                if (t == Type::uuid) return { MV::U(std::string(16, '\0')), MV::U(std::string("\x01\x23\x45\x67\x89\xab\xcd\xef\x01\x23\x45\x67\x89\xab\xcd\xef", 16)), MV::U(std::string(16, '\xff')), MV::U(std::string("\xf0\x0d\0\0\0\0\0\0\0\0\0\0\0\0\0\x01", 16)) };
                return strings();
            case Kind::V:
            {
                auto e = full(static_cast<const Descriptor<Vector<>>&>(d).valueDescriptor(), finiteOnly);
                std::vector<MV> r{ MV::V({}), MV::V({ e[0] }), MV::V({ e[1], e[0] }), MV::V(e) };
                for (size_t n : { 23, 24, 256 }) r.push_back(MV::V(std::vector<MV>(n, e[1 % e.size()])));
                return r;
            }
            default:
            {
                auto& sd = static_cast<const StructDescriptor&>(d);
                if (sd.name() == "VLeaf") return leaf();
                std::vector<MV> r{ MV::St() };
                for (auto& l : leaf()) r.push_back(MV::St({ { 2, l } }));
                r.push_back(MV::St({ { 2, leaf()[2] }, { 4, MV::Bool(false) }, { 31, MV::F(Type::float64, -0.1) } }));
                return r;
            }
        }
    }
    // few: two values per type
    inline std::vector<MV> few(const Descriptor<>& d)
    {
        auto f = full(d, true);
        size_t n = f.size();
        if (d.type() == Type::Vector) return { f[0], f[2] };
        return { f[n > 3 ? 2 : 0], f[n - 1] };
    }
}
