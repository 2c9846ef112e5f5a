// A model of record values that is independent of the library's own record operations, plus the bridge to it.
#pragma once
#include <algorithm>
#include <cmath>
#include <map>
#include <optional>
#include <string>
#include <vector>
#include "vh.h"
#include <dots/type/AnyStruct.h>
#include <dots/type/DynamicStruct.h>
#include <dots/type/DynamicEnum.h>
#include <dots/type/FundamentalTypes.h>

namespace dx
{
    using namespace dots::type;
    using dots::type::Type;

    struct MV
    {
        Type type = Type::boolean;
        int64_t i = 0;      // bool, signed integers, enums
        uint64_t u = 0;     // unsigned integers, property sets
        double d = 0;       // floats, times (seconds)
        std::string s;      // strings, uuids
        std::vector<MV> v;  // vectors
        std::map<uint32_t, MV> p; // structs: tag -> value, absent means invalid

        static MV Bool(bool b) { MV m; m.type = Type::boolean; m.i = b; return m; }
        static MV Int(Type t, int64_t x) { MV m; m.type = t; m.i = x; return m; }
        static MV UInt(Type t, uint64_t x) { MV m; m.type = t; m.u = x; return m; }
        static MV F(Type t, double x) { MV m; m.type = t; m.d = x; return m; }
        static MV S(std::string x) { MV m; m.type = Type::string; m.s = std::move(x); return m; }
        static MV U(std::string x) { MV m; m.type = Type::uuid; x.resize(16); m.s = std::move(x); return m; }
        static MV E(int64_t x) { MV m; m.type = Type::Enum; m.i = x; return m; }
        static MV V(std::vector<MV> x) { MV m; m.type = Type::Vector; m.v = std::move(x); return m; }
        static MV St(std::map<uint32_t, MV> x = {}) { MV m; m.type = Type::Struct; m.p = std::move(x); return m; }
    };

    enum class Kind { I, U, D, S, V, P };
    inline Kind kind(Type t)
    {
        switch (t)
        {
            case Type::boolean: case Type::int8: case Type::int16: case Type::int32: case Type::int64: case Type::Enum: return Kind::I;
            case Type::uint8: case Type::uint16: case Type::uint32: case Type::uint64: case Type::property_set: return Kind::U;
            case Type::float32: case Type::float64: case Type::timepoint: case Type::steady_timepoint: case Type::duration: return Kind::D;
            case Type::string: case Type::uuid: return Kind::S;
            case Type::Vector: return Kind::V;
            default: return Kind::P;
        }
    }

    inline bool eq(const MV& a, const MV& b)
    {
        if (a.type != b.type) return false;
        switch (kind(a.type))
        {
            case Kind::I: return a.i == b.i;
            case Kind::U: return a.u == b.u;
            case Kind::D: return a.d == b.d;
            case Kind::S: return a.s == b.s;
            case Kind::V:
                if (a.v.size() != b.v.size()) return false;
                for (size_t i = 0; i < a.v.size(); ++i) if (!eq(a.v[i], b.v[i])) return false;
                return true;
            default:
                if (a.p.size() != b.p.size()) return false;
                for (auto& [t, x] : a.p) { auto it = b.p.find(t); if (it == b.p.end() || !eq(x, it->second)) return false; }
                return true;
        }
    }

    inline std::string str(const MV& m)
    {
        char b[64];
        switch (kind(m.type))
        {
            case Kind::I: return std::to_string(m.i);
            case Kind::U: return std::to_string(m.u) + "u";
            case Kind::D: std::snprintf(b, sizeof b, "%.17g", m.d); return b;
            case Kind::S:
                if (m.type == Type::string)
                {
                    std::string r = "'";
                    for (char c : m.s) { if (c >= 0x20 && c < 0x7f) r += c; else { std::snprintf(b, sizeof b, "\\x%02x", static_cast<uint8_t>(c)); r += b; } }
                    return r.size() > 200 ? r.substr(0, 60) + "...(" + std::to_string(m.s.size()) + ")'" : r + "'";
                }
                return "#" + vh::hexv(m.s);
            case Kind::V: { std::string r = "["; for (auto& e : m.v) r += str(e) + ","; return r + "]"; }
            default: { std::string r = "{"; for (auto& [t, x] : m.p) r += std::to_string(t) + "=" + str(x) + ";"; return r + "}"; }
        }
    }

    inline uint64_t hash(const MV& m) { return vh::hashStr(str(m)); }

    // --- reading from the library ---
    inline MV readStruct(const Struct& s);

    inline MV readValue(const Typeless& v, const Descriptor<>& d)
    {
        using namespace dots;
        Type t = d.type();
        switch (t)
        {
            case Type::boolean: { MV m; m.type = t; m.i = *reinterpret_cast<const uint8_t*>(&v); return m; }
            case Type::int8: return MV::Int(t, v.to<int8_t>());
            case Type::int16: return MV::Int(t, v.to<int16_t>());
            case Type::int32: return MV::Int(t, v.to<int32_t>());
            case Type::int64: return MV::Int(t, v.to<int64_t>());
            case Type::Enum: return MV::Int(t, v.to<int32_t>());
            case Type::uint8: return MV::UInt(t, v.to<uint8_t>());
            case Type::uint16: return MV::UInt(t, v.to<uint16_t>());
            case Type::uint32: return MV::UInt(t, v.to<uint32_t>());
            case Type::uint64: return MV::UInt(t, v.to<uint64_t>());
            case Type::property_set: return MV::UInt(t, v.to<property_set_t>().toValue());
            case Type::float32: return MV::F(t, v.to<float32_t>());
            case Type::float64: return MV::F(t, v.to<float64_t>());
            case Type::timepoint: return MV::F(t, v.to<timepoint_t>().time_since_epoch().count());
            case Type::steady_timepoint: return MV::F(t, v.to<steady_timepoint_t>().time_since_epoch().count());
            case Type::duration: return MV::F(t, v.to<duration_t>().count());
            case Type::string: return MV::S(v.to<string_t>());
            case Type::uuid: { auto& x = v.to<uuid_t>().data(); return MV::U(std::string(x.begin(), x.end())); }
            case Type::Vector:
            {
                auto& vd = static_cast<const Descriptor<Vector<>>&>(d);
                auto& vec = v.to<Vector<>>();
                MV m; m.type = t;
                for (size_t i = 0, n = vec.typelessSize(); i < n; ++i) m.v.push_back(readValue(vec.typelessAt(i), vd.valueDescriptor()));
                return m;
            }
            default: return readStruct(v.to<Struct>());
        }
    }

    inline MV readStruct(const Struct& s)
    {
        MV m; m.type = Type::Struct;
        const StructDescriptor& d = s._descriptor();
        const PropertyArea& area = s._descriptor().propertyArea(s);
        for (const PropertyDescriptor& pd : d.propertyDescriptors())
        {
            ProxyProperty<> p{ const_cast<PropertyArea&>(area), pd };
            if (area.validProperties().toValue() & (1u << pd.tag())) m.p.emplace(pd.tag(), readValue(p.storage(), pd.valueDescriptor()));
        }
        return m;
    }

    // --- writing into the library ---
    inline void writeStruct(Struct& s, const MV& m);

    template <typename F>
    inline void withValue(const MV& m, const Descriptor<>& d, F&& f) // f(const Typeless&)
    {
        using namespace dots;
        auto give = [&](const auto& x) { f(Typeless::From(x)); };
        switch (d.type())
        {
            case Type::boolean: give(static_cast<bool>(m.i)); break;
            case Type::int8: give(static_cast<int8_t>(m.i)); break;
            case Type::int16: give(static_cast<int16_t>(m.i)); break;
            case Type::int32: case Type::Enum: give(static_cast<int32_t>(m.i)); break;
            case Type::int64: give(static_cast<int64_t>(m.i)); break;
            case Type::uint8: give(static_cast<uint8_t>(m.u)); break;
            case Type::uint16: give(static_cast<uint16_t>(m.u)); break;
            case Type::uint32: give(static_cast<uint32_t>(m.u)); break;
            case Type::uint64: give(static_cast<uint64_t>(m.u)); break;
            case Type::property_set: give(property_set_t{ static_cast<uint32_t>(m.u) }); break;
            case Type::float32: give(static_cast<float>(m.d)); break;
            case Type::float64: give(m.d); break;
            case Type::timepoint: give(timepoint_t{ timepoint_t::base_t{ std::chrono::duration<double>(m.d) } }); break;
            case Type::steady_timepoint: give(steady_timepoint_t{ steady_timepoint_t::base_t{ std::chrono::duration<double>(m.d) } }); break;
            case Type::duration: give(duration_t{ m.d }); break;
            case Type::string: give(m.s); break;
            case Type::uuid: give(uuid_t{ reinterpret_cast<const uint8_t*>(m.s.data()) }); break;
            default: std::abort();
        }
    }

    inline void fillVector(Vector<>& vec, const Descriptor<Vector<>>& vd, const MV& m)
    {
        const Descriptor<>& ed = vd.valueDescriptor();
        for (const MV& e : m.v)
        {
            if (ed.type() == Type::Struct)
            {
                AnyStruct a{ static_cast<const StructDescriptor&>(ed) };
                writeStruct(*a, e);
                vec.typelessPushBack(Typeless::From(std::as_const(*a)));
            }
            else if (ed.type() == Type::boolean)
            {
                uint8_t b = static_cast<uint8_t>(e.i);
                vec.typelessPushBack(Typeless::From(std::as_const(b)));
            }
            else
                withValue(e, ed, [&](const Typeless& t) { vec.typelessPushBack(t); });
        }
    }

    inline void writeProp(PropertyArea& area, const PropertyDescriptor& pd, const MV& m)
    {
        ProxyProperty<> p{ area, pd };
        const Descriptor<>& d = pd.valueDescriptor();
        p.reset();
        if (d.type() == Type::Struct) { p.emplace(); writeStruct(p.storage().to<Struct>(), m); }
        else if (d.type() == Type::Vector) { p.emplace(); fillVector(p.storage().to<Vector<>>(), static_cast<const Descriptor<Vector<>>&>(d), m); }
        else withValue(m, d, [&](const Typeless& t) { p.emplace(t); });
    }

    inline void writeStruct(Struct& s, const MV& m)
    {
        const StructDescriptor& d = s._descriptor();
        PropertyArea& area = d.propertyArea(s);
        for (const PropertyDescriptor& pd : d.propertyDescriptors())
        {
            auto it = m.p.find(pd.tag());
            if (it == m.p.end()) { ProxyProperty<> p{ area, pd }; p.reset(); }
            else writeProp(area, pd, it->second);
        }
    }

    inline AnyStruct make(const StructDescriptor& d, const MV& m)
    {
        AnyStruct a{ d };
        writeStruct(*a, m);
        return a;
    }

    inline const PropertyDescriptor* propOf(const StructDescriptor& d, uint32_t tag)
    {
        for (auto& pd : d.propertyDescriptors()) if (pd.tag() == tag) return &pd;
        return nullptr;
    }
    inline uint32_t maskOf(const MV& m) { uint32_t r = 0; for (auto& [t, x] : m.p) r |= 1u << t; return r; }
    inline uint32_t keyMask(const StructDescriptor& d) { uint32_t r = 0; for (auto& pd : d.propertyDescriptors()) if (pd.isKey()) r |= 1u << pd.tag(); return r; }
    inline uint32_t allMask(const StructDescriptor& d) { uint32_t r = 0; for (auto& pd : d.propertyDescriptors()) r |= 1u << pd.tag(); return r; }
    inline bool in(uint32_t mask, uint32_t tag) { return (mask >> tag) & 1; }

    // --- model operations ---
    inline MV mAssign(const MV&, const MV& b, uint32_t inc) { MV r = MV::St(); for (auto& [t, x] : b.p) if (in(inc, t)) r.p[t] = x; return r; }
    inline MV mCopy(const MV& a, const MV& b, uint32_t inc)
    {
        MV r = MV::St();
        for (auto& [t, x] : a.p) if (!in(inc, t)) r.p[t] = x;
        for (auto& [t, x] : b.p) if (in(inc, t)) r.p[t] = x;
        return r;
    }
    inline MV mMerge(const MV& a, const MV& b, uint32_t inc)
    {
        MV r = a;
        for (auto& [t, x] : b.p) if (in(inc, t))
        {
            if (x.type == Type::Struct) { auto it = r.p.find(t); MV base = it == r.p.end() ? MV::St() : it->second; r.p[t] = mMerge(base, x, ~0u); }
            else r.p[t] = x;
        }
        return r;
    }
    inline MV mOnly(const MV& a, uint32_t inc) { MV r = MV::St(); for (auto& [t, x] : a.p) if (in(inc, t)) r.p[t] = x; return r; }
    inline MV mWithout(const MV& a, uint32_t inc) { return mOnly(a, ~inc); }
    inline uint32_t mDiff(const MV& a, const MV& b, uint32_t inc)
    {
        uint32_t r = 0;
        for (uint32_t t = 0; t < 32; ++t) if (in(inc, t))
        {
            auto x = a.p.find(t), y = b.p.find(t);
            bool hx = x != a.p.end(), hy = y != b.p.end();
            if (hx != hy || (hx && !eq(x->second, y->second))) r |= 1u << t;
        }
        return r;
    }
    // total order: invalid before valid, properties in declaration order
    inline int mCmpV(const MV& a, const MV& b, const Descriptor<>& d);
    inline int mCmp(const MV& a, const MV& b, const StructDescriptor& d, uint32_t inc)
    {
        for (const PropertyDescriptor& pd : d.propertyDescriptors()) if (in(inc, pd.tag()))
        {
            auto x = a.p.find(pd.tag()), y = b.p.find(pd.tag());
            bool hx = x != a.p.end(), hy = y != b.p.end();
            if (hx != hy) return hx ? 1 : -1;
            if (!hx) continue;
            if (int c = mCmpV(x->second, y->second, pd.valueDescriptor()); c != 0) return c;
        }
        return 0;
    }
    inline int mCmpV(const MV& a, const MV& b, const Descriptor<>& d)
    {
        auto c = [](const auto& x, const auto& y) { return x < y ? -1 : (y < x ? 1 : 0); };
        switch (kind(a.type))
        {
            case Kind::I: return c(a.i, b.i);
            case Kind::U: return c(a.u, b.u);
            case Kind::D: return c(a.d, b.d);
            case Kind::S:
            {
                int r = a.s.compare(b.s);
                return r < 0 ? -1 : r > 0;
            }
            case Kind::V:
            {
                auto& ed = static_cast<const Descriptor<Vector<>>&>(d).valueDescriptor();
                for (size_t i = 0; i < std::min(a.v.size(), b.v.size()); ++i) if (int r = mCmpV(a.v[i], b.v[i], ed); r != 0) return r;
                return c(a.v.size(), b.v.size());
            }
            default: return mCmp(a, b, static_cast<const StructDescriptor&>(d), ~0u);
        }
    }
}
