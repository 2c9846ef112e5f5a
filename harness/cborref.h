// An encoder, a decoder and a comparison for the binary wire format, written from its description alone.
#pragma once
#include "dx.h"

namespace cref
{
    using dx::MV;
    using dx::Kind;
    using namespace dots::type;
    using dots::type::Type;
    using bytes = std::vector<uint8_t>;

    struct Item
    {
        int major = 0;
        int info = 0;
        uint64_t n = 0;      // argument
        bytes raw;           // strings, float payloads
        std::vector<Item> a; // arrays; maps as key, value, key, value
    };

    inline void head(bytes& o, int major, uint64_t n, int width = -1) // width 0,1,2,4,8; -1: shortest
    {
        if (width < 0) width = n < 24 ? 0 : n < 256 ? 1 : n < 65536 ? 2 : n < (1ull << 32) ? 4 : 8;
        int ai = width == 0 ? static_cast<int>(n) : width == 1 ? 24 : width == 2 ? 25 : width == 4 ? 26 : 27;
        o.push_back(static_cast<uint8_t>(major << 5 | ai));
        for (int i = width - 1; i >= 0; --i) o.push_back(static_cast<uint8_t>(n >> (8 * i)));
    }
    inline void f64(bytes& o, double d) { uint64_t u; std::memcpy(&u, &d, 8); head(o, 7, u, 8); }
    inline void f32(bytes& o, float d) { uint32_t u; std::memcpy(&u, &d, 4); head(o, 7, u, 4); }

    struct Bad { std::string what; };
    inline Item decode(const bytes& b, size_t& pos, int depth = 0)
    {
        auto need = [&](size_t n) { if (n > b.size() - pos) throw Bad{ "truncated" }; };
        need(1);
        Item it;
        it.major = b[pos] >> 5;
        it.info = b[pos] & 31;
        ++pos;
        if (it.info < 24) it.n = it.info;
        else if (it.info <= 27)
        {
            int w = 1 << (it.info - 24);
            need(w);
            for (int i = 0; i < w; ++i) it.n = it.n << 8 | b[pos++];
        }
        else throw Bad{ "unsupported head" };
        if (it.major == 2 || it.major == 3) { need(it.n); it.raw.assign(b.begin() + pos, b.begin() + pos + it.n); pos += it.n; }
        else if (it.major == 4) for (uint64_t i = 0; i < it.n; ++i) it.a.push_back(decode(b, pos, depth + 1));
        else if (it.major == 5) for (uint64_t i = 0; i < 2 * it.n; ++i) it.a.push_back(decode(b, pos, depth + 1));
        else if (it.major == 6) throw Bad{ "tagged item" };
        return it;
    }

    inline double num(const Item& it)
    {
        if (it.major != 7) throw Bad{ "not a float" };
        if (it.info == 27) { double d; std::memcpy(&d, &it.n, 8); return d; }
        if (it.info == 26) { uint32_t u = static_cast<uint32_t>(it.n); float f; std::memcpy(&f, &u, 4); return f; }
        if (it.info == 25)
        {
            int e = (it.n >> 10) & 31, m = it.n & 1023;
            double d = e == 0 ? std::ldexp(m, -24) : e < 31 ? std::ldexp(m + 1024, e - 25) : m == 0 ? INFINITY : NAN;
            return it.n & 0x8000 ? -d : d;
        }
        throw Bad{ "not a float" };
    }
    inline int enumTag(int64_t value) { return value == 0 ? 1 : value == 7 ? 3 : value == 100000 ? 5 : -1; }

    inline bool sameDouble(double a, double b, bool sign) { return (std::isnan(a) && std::isnan(b)) || (a == b && (!sign || std::signbit(a) == std::signbit(b))); }

    // what the item means, as a value of the descriptor's type; experimental: structs are arrays headed by their property set
    inline MV value(const Item& it, const Descriptor<>& d, bool experimental);
    inline MV structure(const Item& it, const StructDescriptor& d)
    {
        MV m = MV::St();
        if (it.major != 5) throw Bad{ "a record has to be a map" };
        for (size_t i = 0; i < it.a.size(); i += 2)
        {
            if (it.a[i].major != 0) throw Bad{ "a property's key has to be its tag" };
            auto* pd = dx::propOf(d, static_cast<uint32_t>(it.a[i].n));
            if (pd == nullptr || pd->tag() != it.a[i].n) throw Bad{ "unknown tag" };
            if (!m.p.emplace(pd->tag(), value(it.a[i + 1], pd->valueDescriptor(), false)).second) throw Bad{ "tag repeated" };
        }
        return m;
    }
    inline MV value(const Item& it, const Descriptor<>& d, bool)
    {
        Type t = d.type();
        MV m; m.type = t;
        switch (dx::kind(t))
        {
            case Kind::I:
                if (t == Type::boolean) { if (it.major != 7 || (it.info != 20 && it.info != 21)) throw Bad{ "not a boolean" }; m.i = it.info == 21; return m; }
                if (t == Type::Enum) { if (it.major != 0) throw Bad{ "an enum has to be its tag" }; m.i = it.n == 1 ? 0 : it.n == 3 ? 7 : it.n == 5 ? 100000 : -999; return m; }
                if (it.major == 0) m.i = static_cast<int64_t>(it.n);
                else if (it.major == 1) m.i = static_cast<int64_t>(~it.n);
                else throw Bad{ "not an integer" };
                return m;
            case Kind::U: if (it.major != 0) throw Bad{ "not an unsigned integer" }; m.u = it.n; return m;
            case Kind::D: m.d = num(it); return m;
            case Kind::S:
                if (it.major != (t == Type::string ? 3 : 2)) throw Bad{ "not a string" };
                m.s.assign(it.raw.begin(), it.raw.end());
                return m;
            case Kind::V:
                if (it.major != 4) throw Bad{ "a vector has to be an array" };
                for (auto& e : it.a) m.v.push_back(value(e, static_cast<const Descriptor<Vector<>>&>(d).valueDescriptor(), false));
                return m;
            default: return structure(it, static_cast<const StructDescriptor&>(d));
        }
    }

    // the experimental format: array(number of properties), property set, then the values in order of declaration - flat
    inline MV expValue(const bytes& b, size_t& pos, const Descriptor<>& d)
    {
        auto headOf = [&](int major) {
            bytes one;
            if (pos >= b.size()) throw Bad{ "truncated" };
            int ai = b[pos] & 31, w = ai < 24 ? 0 : ai <= 27 ? 1 << (ai - 24) : 99;
            if (b[pos] >> 5 != major || w == 99) throw Bad{ "unexpected head" };
            ++pos;
            uint64_t n = w == 0 ? ai : 0;
            if (b.size() - pos < static_cast<size_t>(w)) throw Bad{ "truncated" };
            for (int i = 0; i < w; ++i) n = n << 8 | b[pos++];
            return n;
        };
        if (d.type() == Type::Struct)
        {
            uint64_t n = headOf(4), set = headOf(0);
            MV m = MV::St();
            for (auto& pd : static_cast<const StructDescriptor&>(d).propertyDescriptors())
                if (set >> pd.tag() & 1) { m.p.emplace(pd.tag(), expValue(b, pos, pd.valueDescriptor())); --n; set &= ~(1ull << pd.tag()); }
            if (n != 0 || set != 0) throw Bad{ "property count" };
            return m;
        }
        if (d.type() == Type::Vector)
        {
            MV m; m.type = Type::Vector;
            for (uint64_t n = headOf(4); n > 0; --n) m.v.push_back(expValue(b, pos, static_cast<const Descriptor<Vector<>>&>(d).valueDescriptor()));
            return m;
        }
        Item it = decode(b, pos);
        return value(it, d, true);
    }

    inline void encode(bytes& o, const MV& m, const Descriptor<>& d)
    {
        Type t = d.type();
        switch (dx::kind(t))
        {
            case Kind::I:
                if (t == Type::boolean) o.push_back(m.i ? 0xf5 : 0xf4);
                else if (t == Type::Enum) head(o, 0, enumTag(m.i));
                else if (m.i >= 0) head(o, 0, m.i);
                else head(o, 1, ~static_cast<uint64_t>(m.i));
                break;
            case Kind::U: head(o, 0, m.u); break;
            case Kind::D: if (t == Type::float32) f32(o, static_cast<float>(m.d)); else f64(o, m.d); break;
            case Kind::S: head(o, t == Type::string ? 3 : 2, m.s.size()); o.insert(o.end(), m.s.begin(), m.s.end()); break;
            case Kind::V: head(o, 4, m.v.size()); for (auto& e : m.v) encode(o, e, static_cast<const Descriptor<Vector<>>&>(d).valueDescriptor()); break;
            default:
                head(o, 5, m.p.size());
                for (auto& pd : static_cast<const StructDescriptor&>(d).propertyDescriptors())
                    if (auto it = m.p.find(pd.tag()); it != m.p.end()) { head(o, 0, pd.tag()); encode(o, it->second, pd.valueDescriptor()); }
        }
    }

    inline bool eq(const MV& a, const MV& b, bool sign)
    {
        if (a.type != b.type) return false;
        switch (dx::kind(a.type))
        {
            case Kind::D: return sameDouble(a.d, b.d, sign);
            case Kind::V:
                if (a.v.size() != b.v.size()) return false;
                for (size_t i = 0; i < a.v.size(); ++i) if (!eq(a.v[i], b.v[i], sign)) return false;
                return true;
            case Kind::P:
                if (a.p.size() != b.p.size()) return false;
                for (auto& [t, x] : a.p) { auto it = b.p.find(t); if (it == b.p.end() || !eq(x, it->second, sign)) return false; }
                return true;
            default: return dx::eq(a, b);
        }
    }
}
