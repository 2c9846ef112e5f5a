// C04: whatever bytes are given to a decoder, it stays inside the input, ends, allocates in proportion to the input, and either reports an error
// or yields a record; typed and run-time described targets agree; what it yields survives another round trip; truncation is always noticed.
#include "dyn.h"
#include "domains.h"
#include "cborref.h"
#include <dots/serialization/CborSerializer.h>
#include <dots/serialization/ExperimentalCborSerializer.h>
#include <dots/serialization/JsonSerializer.h>
#include <dots/serialization/RapidJsonSerializer.h>
#include <dots/serialization/StringSerializer.h>
#include <VRec.dots.h>
#include <VAll.dots.h>
#include <VVecs.dots.h>
#include <VNode.dots.h>
#include <memory>

extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*malloc_hook)(const volatile void*, size_t), void (*free_hook)(const volatile void*));

using namespace dx;
using vh::Chooser;
using namespace dots::serialization;

namespace
{
    size_t biggest = 0;
    void onMalloc(const volatile void*, size_t n) { if (n > biggest) biggest = n; }
    void onFree(const volatile void*) {}
    const int hooked = __sanitizer_install_malloc_and_free_hooks(onMalloc, onFree);

    using RJ = RapidJsonSerializer<>;
    TextOptions relaxed() { TextOptions o; o.policy = TextOptions::Relaxed; return o; }
    TextOptions strict() { TextOptions o; o.policy = TextOptions::Strict; return o; }

    enum Fmt { Cbor, Exp, Json, Rapid, Str, StrStrict, FmtCount };
    const char* fmtName[] = { "binary", "experimental binary", "json", "rapidjson", "string", "strict string" };
    bool binary(int f) { return f == Cbor || f == Exp; }

    template <typename X> size_t decodeAs(int f, const char* data, size_t size, X& x)
    {
        auto* b = reinterpret_cast<const uint8_t*>(data);
        switch (f)
        {
            case Cbor: return CborSerializer::Deserialize(b, size, x);
            case Exp: return ExperimentalCborSerializer::Deserialize(b, size, x);
            case Json: return JsonSerializer::Deserialize(data, size, x);
            case Rapid: RJ::Deserialize(data, size, x); return size;
            case Str: return StringSerializer::Deserialize(data, size, x, relaxed());
            default: return StringSerializer::Deserialize(data, size, x, strict());
        }
    }
    template <typename X> std::string encodeAs(int f, const X& x)
    {
        auto str_ = [](const std::vector<uint8_t>& v) { return std::string(v.begin(), v.end()); };
        TextOptions ml = strict(); ml.style = TextOptions::MultiLine;
        switch (f)
        {
            case Cbor: return str_(CborSerializer::Serialize(x));
            case Exp: return str_(ExperimentalCborSerializer::Serialize(x));
            case Json: return JsonSerializer::Serialize(x);
            case Rapid: return RJ::Serialize(x);
            case Str: return StringSerializer::Serialize(x);
            default: return StringSerializer::Serialize(x, ml);
        }
    }

    std::string shown(const std::string& in) { return in.size() > 200 ? vh::hexv(in.substr(0, 100)) + "..." : vh::hexv(in); }

    // nothing: an error was reported
    template <typename T> std::optional<MV> decodeOne(int f, const std::string& in, bool dynamic, const MV& start, size_t* used = nullptr)
    {
        AnyStruct dst = dx::make(dynamic ? dynWorld().twin(T::_Descriptor()) : static_cast<const StructDescriptor&>(T::_Descriptor()), start);
        std::unique_ptr<char[]> exact{ new char[in.size()] }; // no terminator, nothing readable behind it
        std::memcpy(exact.get(), in.data(), in.size());
        biggest = 0;
        bool ok = false;
        size_t n = 0;
        try
        {
            n = dynamic ? decodeAs(f, exact.get(), in.size(), *dst) : decodeAs(f, exact.get(), in.size(), dst->_to<T>());
            ok = true;
        }
        catch (const std::bad_alloc&) { vh::check(false, std::string(fmtName[f]) + " input " + shown(in) + ": ran out of memory"); }
        catch (const std::exception&) {}
        vh::transition();
        vh::checkF(biggest <= 66000 + 400 * in.size(), [&] { return std::string(fmtName[f]) + " input " + shown(in) + ": an allocation of " + std::to_string(biggest) + " bytes"; });
        MV got = readStruct(*dst);
        if (!ok) return std::nullopt;
        vh::checkF(n <= in.size(), [&] { return std::string(fmtName[f]) + " input " + shown(in) + ": consumed " + std::to_string(n) + " of " + std::to_string(in.size()); });
        if (used) *used = n;
        return got;
    }

    bool plain(const MV& m) // values every format can carry
    {
        for (auto& e : m.v) if (!plain(e)) return false;
        for (auto& [t, e] : m.p) if (!plain(e)) return false;
        if (m.type == Type::timepoint) return m.d >= 0 && m.d < 4e9 && m.d * 8 == std::floor(m.d * 8);
        return kind(m.type) != Kind::D || std::isfinite(m.d);
    }
    bool sameOrNan(const MV& a, const MV& b) { return cref::eq(a, b, false); }

    template <typename T> void feed(int f, const std::string& in, bool mustFail = false, const MV& start = MV::St())
    {
        vh::setNote(std::string(fmtName[f]) + " " + T::_Descriptor().name() + " " + vh::hexv(in.size() > 500 ? in.substr(0, 500) : in));
        size_t n1 = 0, n2 = 0;
        auto a = decodeOne<T>(f, in, false, start, &n1);
        auto b = decodeOne<T>(f, in, true, start, &n2);
        vh::checkF(a.has_value() == b.has_value() && (!a || (sameOrNan(*a, *b) && n1 == n2)), [&] { return std::string(fmtName[f]) + " " + T::_Descriptor().name() + " input " + shown(in) + ": typed gives " + (a ? str(*a) : "an error") + ", run-time described " + (b ? str(*b) : "an error"); });
        vh::outcome(a ? hash(*a) : 1);
        vh::state(vh::hashStr(in));
        vh::checkF(!mustFail || !a, [&] { return std::string(fmtName[f]) + " " + T::_Descriptor().name() + " truncated input " + shown(in) + " was accepted as " + str(*a); });
        if (!a || (!binary(f) && !plain(*a))) return;
        AnyStruct s = dx::make(T::_Descriptor(), *a);
        std::string again;
        try { again = encodeAs(f, s->_to<T>()); }
        catch (const std::exception& e) { vh::check(false, std::string(fmtName[f]) + " input " + shown(in) + " gives " + str(*a) + " which cannot be written: " + e.what()); }
        auto c = decodeOne<T>(f, again, false, MV::St());
        vh::checkF(c.has_value() && sameOrNan(*c, *a), [&] { return std::string(fmtName[f]) + " input " + shown(in) + " gives " + str(*a) + ", written as " + shown(again) + ", read back as " + (c ? str(*c) : "an error"); });
    }

    std::string bytesOf(std::initializer_list<int> l) { std::string s; for (int i : l) s += static_cast<char>(i); return s; }

    // heads of every major type with every kind of length information
    const std::vector<int>& heads()
    {
        static const std::vector<int> h = [] { std::vector<int> r; for (int m = 0; m < 8; ++m) for (int i : { 0, 1, 2, 4, 17, 20, 21, 22, 23, 24, 25, 26, 27, 28, 31 }) r.push_back(m << 5 | i); return r; }();
        return h;
    }
    const std::vector<int>& fewHeads()
    {
        static const std::vector<int> h{ 0x00, 0x01, 0x02, 0x04, 0x11, 0x18, 0x19, 0x1a, 0x1b, 0x1f, 0x20, 0x38, 0x3b, 0x40, 0x41, 0x5b, 0x60, 0x61, 0x7b, 0x7f, 0x80, 0x81, 0x82, 0x98, 0x9b, 0x9f, 0xa0, 0xa1, 0xa2, 0xb8, 0xbb, 0xbf, 0xc0, 0xf4, 0xf5, 0xf8, 0xf9, 0xfa, 0xfb, 0xff };
        return h;
    }

    template <typename T> void shortBinary(Chooser& ch, int all, int few)
    {
        int f = ch.choose(2, "format");
        bool wide = ch.flag("all bytes");
        int a = ch.choose(wide ? 257 : static_cast<int>(fewHeads().size()), "first byte");
        std::string in;
        if (wide)
        {
            if (a == 256) { feed<T>(f, ""); return; }
            in += static_cast<char>(a);
            feed<T>(f, in);
            for (int b = 0; b < 256; ++b)
            {
                feed<T>(f, in + static_cast<char>(b));
                if (all >= 3) for (int c : heads()) feed<T>(f, in + static_cast<char>(b) + static_cast<char>(c));
            }
            return;
        }
        in += static_cast<char>(fewHeads()[a]);
        for (int k = 1; k < few; ++k) in += static_cast<char>(ch.of(fewHeads(), "byte"));
        for (int h : fewHeads()) feed<T>(f, in + static_cast<char>(h));
    }

    // representative records
    template <typename T> std::vector<MV> records()
    {
        std::vector<MV> r;
        for (auto& pd : T::_Descriptor().propertyDescriptors())
        {
            auto f = dom::few(pd.valueDescriptor());
            r.push_back(MV::St({ { pd.tag(), f[0] } }));
            if (vh::thorough() || T::_Descriptor().propertyDescriptors().size() < 10)
            {
                MV x = f[1];
                if (x.v.size() > 4) x.v.resize(4);
                if (x.s.size() > 24 && x.type == Type::string) x.s.resize(24);
                r.push_back(MV::St({ { pd.tag(), x } }));
            }
        }
        MV all = MV::St(), some = MV::St();
        size_t i = 0;
        for (auto& pd : T::_Descriptor().propertyDescriptors()) { auto f = dom::few(pd.valueDescriptor()); if (f[0].s.size() < 20) all.p[pd.tag()] = f[0]; if (i++ % 3 == 0) some.p[pd.tag()] = f[0]; }
        r.push_back(MV::St());
        r.push_back(some);
        r.push_back(all);
        return r;
    }
    template <typename T> std::vector<MV> textable() { std::vector<MV> r; for (auto& m : records<T>()) if (plain(m)) r.push_back(m); return r; }

    std::vector<int> substitutes(int f)
    {
        if (binary(f)) return fewHeads();
        std::vector<int> r{ 0, 1, '\t', '\n', ' ', 0x7f, 0x80, 0xff };
        for (char c : std::string("\"\\/{}[]<>.,:=+-_019abefnrtuxEZ'(")) r.push_back(c);
        return r;
    }

    template <typename T> void mutations(Chooser& ch, int f)
    {
        static std::map<int, std::vector<std::string>> encoded;
        auto& es = encoded[f];
        if (es.empty()) for (auto& m : binary(f) ? records<T>() : textable<T>()) { AnyStruct s = dx::make(T::_Descriptor(), m); es.push_back(encodeAs(f, s->_to<T>())); }
        std::string in = ch.of(es, "record");
        int what = ch.choose(vh::thorough() ? 7 : 6, "change");
        int at = ch.choose(static_cast<int>(in.size()) + 1, "position");
        vh::sample(std::string(fmtName[f]) + " " + T::_Descriptor().name() + " " + shown(in));
        auto subs = substitutes(f);
        size_t p = static_cast<size_t>(at);
        if (what == 0) { if (p < in.size()) feed<T>(f, in.substr(0, p), true); else feed<T>(f, in); return; }
        if (what == 1) { for (int c : subs) feed<T>(f, in.substr(0, p) + static_cast<char>(c) + in.substr(p)); return; }
        if (p >= in.size()) return;
        if (what == 2) { if (binary(f) && (vh::thorough() || in.size() <= 24)) for (int c = 0; c < 256; ++c) { in[p] = static_cast<char>(c); feed<T>(f, in); } else for (int c : subs) { in[p] = static_cast<char>(c); feed<T>(f, in); } return; }
        if (what == 3) { feed<T>(f, in.substr(0, p) + in.substr(p + 1)); return; } // dropped
        if (what == 4) { for (int c : subs) feed<T>(f, in.substr(0, p) + static_cast<char>(c)); return; } // cut off and changed at the end
        if (what == 5) // over a record that already holds something
        {
            MV start = MV::St();
            for (auto& pd : T::_Descriptor().propertyDescriptors()) start.p[pd.tag()] = dom::few(pd.valueDescriptor())[1];
            feed<T>(f, in.substr(0, p), true, start);
            for (int c : subs) { in[p] = static_cast<char>(c); auto x = decodeOne<T>(f, in, false, start), y = decodeOne<T>(f, in, true, start); vh::check(x.has_value() == y.has_value() && (!x || sameOrNan(*x, *y)), "typed and run-time described targets disagree over " + shown(in)); }
            return;
        }
        if (in.size() > 40) return; // two changed bytes
        size_t q = static_cast<size_t>(ch.choose(static_cast<int>(in.size()), "second position"));
        for (int c : subs) for (int d : subs) { std::string x = in; x[p] = static_cast<char>(c); x[q] = static_cast<char>(d); feed<T>(f, x); }
    }

    // every sequence of tokens of the languages
    std::vector<std::string> tokens(int f)
    {
        if (f == Json || f == Rapid) return { "{", "}", "[", "]", ",", "\"leaf\":", "\"flag\":", "\"list\":", "\"x\":", "\"num\":", "null", "true", "-1", "2e9", "\"", "\\", "\x80", " " };
        return { "{", "}", ",", ".leaf=", ".flag=", ".list=", ".x=", ".num=", "=", "<invalid>", "0x", "1", "-", "2e9f", "\"", "\\", "\x80", " ", "VNode", "VLeaf" };
    }
}

#define SCENARIOS_OF(T, n_) SCENARIO(short_##n_) { shortBinary<T>(ch, vh::bound(2, T::_Descriptor().name() == "VNode" ? 3 : 2), vh::bound(2, 3)); } \
    SCENARIO(mutate_##n_) { int f = ch.choose(FmtCount, "format"); mutations<T>(ch, f); }

#if PART == 0
SCENARIOS_OF(VNode, node)
#elif PART == 1
SCENARIOS_OF(VRec, rec)
#elif PART == 2
SCENARIOS_OF(VAll, all)
#elif PART == 3
SCENARIOS_OF(VVecs, vecs)
#endif

// every property of every type, given every short binary value
namespace
{
    template <typename T> void propertyValues(Chooser& ch)
    {
        int f = ch.choose(2, "format");
        const auto& pds = T::_Descriptor().propertyDescriptors();
        auto& pd = pds[ch.choose(static_cast<int>(pds.size()), "property")];
        std::string pre;
        cref::bytes h;
        if (f == Cbor) { cref::head(h, 5, 1); cref::head(h, 0, pd.tag()); }
        else { cref::head(h, 4, 1); cref::head(h, 0, 1u << pd.tag()); }
        pre.assign(h.begin(), h.end());
        int a = ch.choose(256, "first byte");
        pre += static_cast<char>(a);
        feed<T>(f, pre);
        for (int b : vh::thorough() ? heads() : fewHeads())
        {
            std::string in = pre + static_cast<char>(b);
            feed<T>(f, in);
            if (vh::thorough()) for (int pad : { 0, 1, 0x7f, 0xff }) for (int n : { 1, 2, 3, 7, 8 }) feed<T>(f, in + std::string(n, static_cast<char>(pad)));
            else { feed<T>(f, in + std::string(1, '\1')); feed<T>(f, in + std::string(7, '\0')); feed<T>(f, in + std::string(8, '\xff')); }
        }
    }
}
#if PART == 2
SCENARIO(property_values) { propertyValues<VAll>(ch); }
#elif PART == 3
SCENARIO(property_values_vectors) { propertyValues<VVecs>(ch); }
#endif

#if PART == 0
SCENARIO(token_sequences)
{
    int f = Json + ch.choose(4, "format");
    auto tok = tokens(f);
    std::string in = ch.flag("opened") ? "{" : "";
    int n = vh::bound(3, 4);
    for (int i = 1; i < n; ++i) in += ch.of(tok, "token");
    feed<VNode>(f, in);
    for (auto& t : tok) feed<VNode>(f, in + t);
}

// sizes and nesting far beyond the input
SCENARIO(extremes)
{
    int f = ch.choose(FmtCount, "format");
    int depth = std::vector<int>{ 10, 1000, 200000 }[ch.choose(3, "depth")];
    int shape = ch.choose(4, "shape");
    bool closed = ch.flag("closed");
    auto rep = [](const std::string& s, int n) { std::string r; r.reserve(s.size() * n); for (int i = 0; i < n; ++i) r += s; return r; };
    std::string in;
    if (binary(f))
    {
        std::string pre = f == Cbor ? bytesOf({ 0xa1, 0x07 }) : bytesOf({ 0x81, 0x04 });
        if (shape == 0) in = pre + rep("\x81", depth) + (closed ? "\x01" : "");
        if (shape == 1) in = pre + rep("\xa1\x01", depth) + (closed ? "\x01" : "");
        if (shape == 2) in = pre + rep("\x9b\xff\xff\xff\xff\xff\xff\xff\xff", std::min(depth, 1000)) + (closed ? "\x01" : "");
        if (shape == 3) in = pre + rep("\xbb\x80\x00\x00\x00\x00\x00\x00\x01", std::min(depth, 1000)) + (closed ? "\x01" : "");
    }
    else
    {
        bool j = f == Json || f == Rapid;
        std::string pre = j ? "{\"x\":" : "{.x=";
        if (shape == 0) in = pre + rep(j ? "[" : "{", depth) + (closed ? rep(j ? "]" : "}", depth) + "}" : "");
        if (shape == 1) in = pre + rep(j ? "{\"a\":" : "{.a=", depth) + (closed ? "1" + rep("}", depth) + "}" : "");
        if (shape == 2) in = pre + rep(j ? "[1,[" : "{1,{", depth);
        if (shape == 3) in = rep(j ? "[" : "{", depth);
    }
    size_t n = 0;
    for (int dyn = 0; dyn < 2; ++dyn) decodeOne<VNode>(f, in, dyn == 1, MV::St(), &n);
    if (closed && shape < 2 && f != Exp && f != StrStrict)
    {
        auto x = decodeOne<VNode>(f, in, false, MV::St(), &n);
        vh::check(x && n == in.size() && x->p.empty(), std::string(fmtName[f]) + " nesting of an unknown value to depth " + std::to_string(depth) + " is not passed over");
    }
    vh::state(vh::hashStr(in));
}

#endif

#if PART == 4
namespace
{
    template <typename T> void bareOne(int f, const std::string& in)
    {
        vh::setNote(std::string(fmtName[f]) + " bare " + Descriptor<T>::Instance().name() + " " + vh::hexv(in));
        std::unique_ptr<char[]> exact{ new char[in.size()] };
        std::memcpy(exact.get(), in.data(), in.size());
        biggest = 0;
        T x{};
        try
        {
            size_t n = decodeAs(f, exact.get(), in.size(), x);
            vh::checkF(n <= in.size(), [&] { return "bare value from " + shown(in) + ": consumed " + std::to_string(n); });
        }
        catch (const vh::Violation&) { throw; }
        catch (const std::exception&) {}
        vh::checkF(biggest <= 66000 + 400 * in.size(), [&] { return "bare value from " + shown(in) + ": an allocation of " + std::to_string(biggest); });
        vh::transition();
    }
    template <typename... Ts> void bareEach(int f, const std::string& in) { (bareOne<Ts>(f, in), ...); }
}
SCENARIO(bare_values)
{
    using namespace dots;
    int f = ch.choose(FmtCount, "format");
    auto go = [&](const std::string& in) { bareEach<int8_t, int16_t, int32_t, int64_t, uint8_t, uint16_t, uint32_t, uint64_t, float32_t, float64_t, bool_t, string_t, timepoint_t, steady_timepoint_t, duration_t, property_set_t, uuid_t, vector_t<string_t>>(f, in); };
    if (binary(f))
    {
        std::string in(1, static_cast<char>(ch.choose(256, "first byte")));
        go(in);
        for (int h : vh::thorough() ? heads() : fewHeads()) { go(in + static_cast<char>(h)); for (int n : { 1, 2, 3, 6, 7, 15, 16 }) go(in + static_cast<char>(h) + std::string(n, '\x81')); }
        return;
    }
    auto subs = substitutes(f);
    std::string in;
    go(in);
    std::vector<std::string> bases{ "", "1", "-", "2021-11-19T18:12:07.123Z", "2021-11-19", "12:30:15", "5d3h", "1.5e", "12345678-1234-1234-1234-123456789abc", "123456789012345678901234567890", "[\"a\",\"b\"]", "{\"a\",\"b\"}", "true" };
    std::string base = ch.of(bases, "base");
    int at = ch.choose(static_cast<int>(base.size()) + 1, "position");
    go(base.substr(0, at));
    for (int c : subs)
    {
        go(base.substr(0, at) + static_cast<char>(c) + base.substr(at));
        if (at < static_cast<int>(base.size())) { std::string x = base; x[at] = static_cast<char>(c); go(x); }
        if (base.empty()) for (int d : subs) { go(std::string(1, static_cast<char>(c)) + static_cast<char>(d)); }
    }
}
#endif

#if PART == 0
VH_MAIN
#endif
