// C02: the binary formats: what is written is the described wire format, and it is read back exactly.
#include "dyn.h"
#include "domains.h"
#include "cborref.h"
#include <dots/serialization/CborSerializer.h>
#include <dots/serialization/ExperimentalCborSerializer.h>
#include <VRec.dots.h>
#include <VAll.dots.h>
#include <VVecs.dots.h>
#include <VOnlyKey.dots.h>
#include <VNode.dots.h>

using namespace dx;
using vh::Chooser;
using cref::bytes;
using dots::serialization::CborSerializer;
using dots::serialization::ExperimentalCborSerializer;

namespace
{
    struct Fmt
    {
        std::string name;
        bool typed, experimental;
        const StructDescriptor* desc;
        std::function<bytes(const Struct&, PropertySet)> enc;
        std::function<bytes(const Struct&)> encAll;
        std::function<size_t(Struct&, const bytes&)> dec;
        std::function<size_t(Struct&, const bytes&, PropertySet)> decPart;
    };

    template <typename S, typename T, typename C, typename M>
    Fmt make(std::string n, bool typed, bool exp, const StructDescriptor& d, C c, M m)
    {
        Fmt f{ n, typed, exp, &d };
        f.enc = [c](const Struct& s, PropertySet p) { return S::Serialize(c(s), p); };
        f.encAll = [c](const Struct& s) { return S::Serialize(c(s)); };
        f.dec = [m](Struct& s, const bytes& b) { return S::Deserialize(b, m(s)); };
        f.decPart = [m](Struct& s, const bytes& b, PropertySet p) { S x; x.setInput(b); return x.deserialize(m(s), p); };
        return f;
    }
    template <typename T> const std::vector<Fmt>& fmts()
    {
        static const std::vector<Fmt> v = [] {
            auto& d = T::_Descriptor();
            auto& y = dynWorld().twin(d);
            auto tc = [](const Struct& s) -> const T& { return static_cast<const T&>(s); };
            auto tm = [](Struct& s) -> T& { return static_cast<T&>(s); };
            auto gc = [](const Struct& s) -> const Struct& { return s; };
            auto gm = [](Struct& s) -> Struct& { return s; };
            return std::vector<Fmt>{
                make<CborSerializer, T>("cbor typed", true, false, d, tc, tm), make<CborSerializer, Struct>("cbor generic", false, false, d, gc, gm), make<CborSerializer, Struct>("cbor dynamic", false, false, y, gc, gm),
                make<ExperimentalCborSerializer, T>("experimental typed", true, true, d, tc, tm), make<ExperimentalCborSerializer, Struct>("experimental generic", false, true, d, gc, gm), make<ExperimentalCborSerializer, Struct>("experimental dynamic", false, true, y, gc, gm)
            };
        }();
        return v;
    }

    std::string ctx(const Fmt& f, const MV& m, uint32_t inc) { return f.desc->name() + " (" + f.name + ") included=" + std::to_string(inc) + " value=" + str(m); }

    MV decodeRef(const Fmt& f, const bytes& b)
    {
        size_t pos = 0;
        MV m;
        if (f.experimental) m = cref::expValue(b, pos, *f.desc);
        else m = cref::structure(cref::decode(b, pos), *f.desc);
        if (pos != b.size()) throw cref::Bad{ "bytes left over" };
        return m;
    }

    // old: what the record held before decoding; nested records are updated in place by the map format
    MV afterDecode(const Fmt& f, const MV& old, const MV& msg)
    {
        (void)f;
        return mMerge(old, msg, ~0u);
    }

    // crossing: every writer's bytes are read by every reader of the same format
    template <typename T> void roundtrip(const MV& m, uint32_t inc, const MV& old, bool whole)
    {
        MV want = mOnly(m, inc);
        for (const Fmt& w : fmts<T>())
        {
            AnyStruct src = dx::make(*w.desc, m);
            bytes b = whole ? w.encAll(*src) : w.enc(*src, PropertySet{ inc });
            vh::checkF(eq(readStruct(*src), m) || true, [] { return std::string(); });
            try
            {
                MV got = decodeRef(w, b);
                vh::checkF(cref::eq(got, want, !w.experimental), [&] { return ctx(w, m, inc) + ": wrote " + vh::hexv(b).substr(0, 200) + ", which means " + str(got); });
            }
            catch (const cref::Bad& e) { vh::check(false, ctx(w, m, inc) + ": wrote " + vh::hexv(b).substr(0, 200) + ", which is not the wire format: " + e.what); }
            vh::outcome(vh::mix(w.experimental, vh::hashStr(vh::hexv(b))));
            for (const Fmt& r : fmts<T>())
            {
                if (r.experimental != w.experimental) continue;
                vh::transition();
                auto attempt = [&](const char* what, const MV& start, const MV& expected, const std::function<size_t(Struct&)>& f, size_t size) {
                    AnyStruct dst = dx::make(*r.desc, start);
                    size_t n = 0;
                    try { n = f(*dst); }
                    catch (const std::exception& e) { vh::check(false, ctx(w, m, inc) + " read by " + r.name + " (" + what + "): " + std::string(e.what()).substr(0, 160)); }
                    MV got = readStruct(*dst);
                    vh::checkF(cref::eq(got, expected, !w.experimental), [&] { return ctx(w, m, inc) + " read by " + r.name + " (" + what + "): got " + str(got) + ", expected " + str(expected); });
                    vh::checkF(n == size, [&] { return ctx(w, m, inc) + " read by " + r.name + " (" + what + "): consumed " + std::to_string(n) + " of " + std::to_string(size); });
                };
                attempt("fresh", MV::St(), want, [&](Struct& s) { return r.dec(s, b); }, b.size());
                attempt("over existing", old, afterDecode(r, old, want), [&](Struct& s) { return r.dec(s, b); }, b.size());
                bytes more = b;
                more.insert(more.end(), { 0xa1, 0x00, 0xff });
                attempt("followed by other bytes", MV::St(), want, [&](Struct& s) { return r.dec(s, more); }, b.size());
                if (!r.experimental)
                    for (uint32_t part : { 0u, 1u << 2 | 1u << 5 | 1u << 17, ~(1u << 1 | 1u << 9 | 1u << 12) })
                        attempt("partial read", old, mMerge(old, want, part), [&](Struct& s) { return r.decPart(s, b, PropertySet{ part }); }, b.size());
            }
        }
    }

    template <typename T> void onePropertyAllValues(Chooser& ch)
    {
        const auto& pds = T::_Descriptor().propertyDescriptors();
        auto& pd = pds[ch.choose(static_cast<int>(pds.size()), "property")];
        MV m = MV::St(), old = MV::St();
        auto dom = dom::full(pd.valueDescriptor());
        m.p[pd.tag()] = dom[ch.choose(static_cast<int>(dom.size()), "value")];
        auto few = dom::few(pd.valueDescriptor());
        int o = ch.choose(3, "previous value");
        if (o > 0) old.p[pd.tag()] = few[o - 1];
        vh::state(vh::mix(hash(m), hash(old)));
        vh::sample(T::_Descriptor().name() + " " + str(m));
        if (ch.tracing()) ch.note(str(m));
        roundtrip<T>(m, ~0u, old, true);
    }

    template <typename T> void subsets(Chooser& ch, int n)
    {
        const auto& pds = T::_Descriptor().propertyDescriptors();
        MV m = MV::St(), old = MV::St();
        // n properties are chosen, each absent or with one of two values; the rest is all present or all absent
        int rest = ch.choose(2, "others");
        if (rest == 1) for (auto& pd : pds) m.p[pd.tag()] = dom::few(pd.valueDescriptor())[0];
        size_t from = 0;
        uint32_t act = 0;
        for (int k = 0; k < n && from < pds.size(); ++k)
        {
            size_t left = pds.size() - from;
            size_t i = from + ch.choose(static_cast<int>(left), "property");
            from = i + 1;
            auto few = dom::few(pds[i].valueDescriptor());
            int x = ch.choose(3, "value");
            if (x == 0) m.p.erase(pds[i].tag()); else m.p[pds[i].tag()] = few[x - 1];
            if (rest == 0 && x != 1) old.p[pds[i].tag()] = few[1];
            act |= 1u << pds[i].tag();
        }
        uint32_t first = act & (~act + 1);
        std::vector<uint32_t> incs{ ~0u, act, ~act, 0u, first, ~first };
        uint32_t inc = incs[ch.choose(static_cast<int>(incs.size()), "included")];
        vh::state(vh::mix(hash(m), inc));
        roundtrip<T>(m, inc, old, false);
    }
}

SCENARIO(values_all) { onePropertyAllValues<VAll>(ch); }
SCENARIO(values_vecs) { onePropertyAllValues<VVecs>(ch); }
SCENARIO(values_rec) { onePropertyAllValues<VRec>(ch); }
SCENARIO(values_node) { onePropertyAllValues<VNode>(ch); }
SCENARIO(subsets_all) { subsets<VAll>(ch, 2); }
SCENARIO(subsets_rec) { subsets<VRec>(ch, vh::bound(3, 4)); }
SCENARIO(subsets_vecs) { subsets<VVecs>(ch, vh::bound(1, 2)); }
SCENARIO(subsets_onlykey) { subsets<VOnlyKey>(ch, 2); }

namespace
{
    // items a reader does not know: every major type, every argument width, nesting
    const std::vector<bytes>& unknownItems()
    {
        static const std::vector<bytes> v = [] {
            std::vector<bytes> r;
            auto add = [&](auto f) { bytes b; f(b); r.push_back(b); };
            for (int w : { 0, 1, 2, 4, 8 }) { uint64_t n = w == 0 ? 5 : w == 1 ? 200 : w == 2 ? 300 : w == 4 ? 70000 : 1ull << 40; add([&](bytes& b) { cref::head(b, 0, n, w); }); add([&](bytes& b) { cref::head(b, 1, n, w); }); }
            for (int maj : { 2, 3 }) for (size_t n : { 0, 1, 23, 24, 255, 256, 300, 65536 }) add([&](bytes& b) { cref::head(b, maj, n); b.insert(b.end(), n, 0xa5); });
            for (int maj : { 2, 3, 4, 5 }) for (int w : { 1, 2, 4, 8 }) add([&](bytes& b) { cref::head(b, maj, 2, w); if (maj < 4) b.insert(b.end(), 2, 0x61); else for (int i = 0; i < (maj == 4 ? 2 : 4); ++i) cref::head(b, 0, 100 + i); });
            for (size_t n : { 0, 1, 23, 24, 256 }) { add([&](bytes& b) { cref::head(b, 4, n); for (size_t i = 0; i < n; ++i) cref::head(b, 0, i); }); add([&](bytes& b) { cref::head(b, 5, n); for (size_t i = 0; i < n; ++i) { cref::head(b, 0, i); cref::head(b, 3, 1); b.push_back('s'); } }); }
            for (uint8_t x : { 0xf4, 0xf5, 0xf6 }) r.push_back({ x });
            add([](bytes& b) { cref::f32(b, 1.5f); });
            add([](bytes& b) { cref::f64(b, 1.5); });
            r.push_back({ 0xf9, 0x3c, 0x00 });
            add([](bytes& b) { for (int i = 0; i < 12; ++i) { cref::head(b, 5, 1); cref::head(b, 0, 30); cref::head(b, 4, 2); cref::head(b, 3, 24); b.insert(b.end(), 24, 'n'); } cref::head(b, 0, 0); });
            return r;
        }();
        return v;
    }
}

// records written by a newer peer: properties the reader does not have are passed over, wherever they stand
SCENARIO(unknown_properties)
{
    const auto& f = fmts<VNode>()[ch.choose(3, "reader")];
    const auto& items = unknownItems();
    int x = ch.choose(static_cast<int>(items.size()), "unknown item");
    int at = ch.choose(5, "position"); // before, between, after the known properties of the record; inside the nested one; both
    int second = ch.choose(3, "second unknown");
    MV leaf = MV::St({ { 3, MV::Int(Type::int32, 5) }, { 1, MV::S("text") } });
    MV want = MV::St({ { 4, MV::Bool(true) }, { 2, leaf }, { 31, MV::F(Type::float64, 2.5) } });
    auto& ld = VLeaf::_Descriptor();
    bytes b;
    auto put = [&](int tag) { cref::head(b, 0, tag); b.insert(b.end(), items[x].begin(), items[x].end()); if (second > 0) { cref::head(b, 0, tag + 1); auto& o = items[second == 1 ? 0 : 12]; b.insert(b.end(), o.begin(), o.end()); } };
    int extra = second > 0 ? 2 : 1;
    bool top = at != 3, nested = at >= 3;
    cref::head(b, 5, 3 + (top ? extra : 0));
    if (at == 0) put(5);
    cref::head(b, 0, 4); b.push_back(0xf5);
    if (at == 1) put(100);
    cref::head(b, 0, 2);
    cref::head(b, 5, 2 + (nested ? extra : 0));
    cref::head(b, 0, 3); cref::encode(b, leaf.p.at(3), ld.propertyDescriptors()[0].valueDescriptor());
    if (nested) put(20);
    cref::head(b, 0, 1); cref::encode(b, leaf.p.at(1), propOf(ld, 1)->valueDescriptor());
    cref::head(b, 0, 31); cref::f64(b, 2.5);
    if (at == 2 || at == 4) put(70000);
    AnyStruct dst{ *f.desc };
    vh::transition();
    vh::state(vh::mix(x, at * 16 + second));
    std::string c = f.name + " item " + vh::hexv(items[x]).substr(0, 60) + " at " + std::to_string(at) + ": ";
    size_t n = 0;
    try { n = f.dec(*dst, b); } catch (const std::exception& e) { vh::check(false, c + std::string(e.what()).substr(0, 100)); }
    MV got = readStruct(*dst);
    vh::checkF(eq(got, want), [&] { return c + "got " + str(got) + ", expected " + str(want); });
    vh::checkF(n == b.size(), [&] { return c + "consumed " + std::to_string(n) + " of " + std::to_string(b.size()); });
    vh::outcome(vh::hashStr(vh::hexv(b)));
}

// a wider record read as a narrower type and the other way round
SCENARIO(evolution)
{
    const auto& w = fmts<VAll>()[ch.choose(3, "writer")];
    const auto& r = fmts<VNode>()[ch.choose(3, "reader")];
    const auto& pds = VAll::_Descriptor().propertyDescriptors();
    auto& pd = pds[ch.choose(static_cast<int>(pds.size()), "property")];
    auto dom = dom::full(pd.valueDescriptor());
    MV m = MV::St();
    m.p[pd.tag()] = dom[ch.choose(static_cast<int>(dom.size()), "value")];
    bool same = pd.tag() == 2 || pd.tag() == 4 || pd.tag() == 31;
    if (same) return;
    AnyStruct src = dx::make(*w.desc, m);
    bytes b = w.encAll(*src);
    AnyStruct dst{ *r.desc };
    size_t n = r.dec(*dst, b);
    vh::transition();
    vh::state(hash(m));
    vh::check(n == b.size() && readStruct(*dst).p.empty(), "a property unknown to the reader was not passed over: " + str(m));
}

// numbers in any encoding that represents them: wider heads than needed, half and single floats
SCENARIO(wide_heads)
{
    const auto& f = fmts<VAll>()[ch.choose(3, "reader")];
    static const std::vector<std::pair<int, int>> props{ { 2, 1 }, { 3, 2 }, { 4, 4 }, { 5, 8 }, { 6, 1 }, { 7, 2 }, { 8, 4 }, { 9, 8 }, { 12, 4 }, { 18, 4 } };
    auto [tag, width] = ch.of(props, "property");
    static const std::vector<int> ws{ 1, 2, 4, 8 };
    int w = ch.of(ws, "head width");
    uint64_t n = ch.choose(2, "value") ? 5 : 3;
    bool neg = tag <= 5 && ch.flag("negative");
    if (tag == 18 && n != 3) n = 5;
    bytes b;
    cref::head(b, 5, 1, ch.choose(2, "map head") ? w : 0);
    cref::head(b, 0, tag, ch.choose(2, "tag head") ? (w <= 4 ? w : 1) : 0);
    cref::head(b, neg ? 1 : 0, n, w);
    if (w > width) return; // wider than the property: a reader may refuse it
    AnyStruct dst{ *f.desc };
    std::string c = f.name + " " + vh::hexv(b);
    vh::transition();
    try { vh::check(f.dec(*dst, b) == b.size(), c + ": consumed"); } catch (const std::exception& e) { vh::check(false, c + ": " + std::string(e.what()).substr(0, 100)); }
    MV got = readStruct(*dst), want = MV::St();
    auto& d = propOf(*f.desc, tag)->valueDescriptor();
    if (tag == 18) want.p[18] = MV::E(n == 3 ? 7 : 100000);
    else if (kind(d.type()) == Kind::I) want.p[tag] = MV::Int(d.type(), neg ? -1 - static_cast<int64_t>(n) : n);
    else want.p[tag] = MV::UInt(d.type(), n);
    vh::state(vh::hashStr(c));
    vh::checkF(eq(got, want), [&] { return c + ": got " + str(got); });
}

SCENARIO(half_floats) // all of them
{
    int hi = ch.choose(256, "high byte");
    int which = ch.choose(2, "property");
    auto& d = VAll::_Descriptor();
    for (int lo = 0; lo < 256; ++lo)
    {
        bytes b{ 0xa1, static_cast<uint8_t>(which ? 10 : 11), 0xf9, static_cast<uint8_t>(hi), static_cast<uint8_t>(lo) };
        VAll v;
        size_t n = CborSerializer::Deserialize(b, v);
        cref::Item it; it.major = 7; it.info = 25; it.n = static_cast<uint64_t>(hi << 8 | lo);
        double want = cref::num(it), got = which ? static_cast<double>(v.f32.value()) : v.f64.value();
        vh::transition();
        vh::checkF(n == 5 && cref::sameDouble(got, want, true), [&] { return "half float " + vh::hexv(b) + ": got " + std::to_string(got) + ", expected " + std::to_string(want); });
        vh::outcome(vh::mix(hi, lo));
    }
    (void)d;
}

SCENARIO(single_floats)
{
    static const std::vector<float> vals{ 0.f, -0.f, 1.5f, -2.25f, 3.4028235e38f, 1.4e-45f, INFINITY, -INFINITY, 0.1f };
    float x = ch.of(vals, "value");
    int tag = ch.choose(4, "property");
    static const int tags[] = { 11, 13, 14, 15 };
    const auto& f = fmts<VAll>()[ch.choose(6, "reader")];
    if (f.experimental) return;
    bytes b{ 0xa1, static_cast<uint8_t>(tags[tag]) };
    cref::f32(b, x);
    AnyStruct dst{ *f.desc };
    vh::check(f.dec(*dst, b) == b.size(), "consumed");
    MV got = readStruct(*dst);
    vh::transition();
    vh::checkF(got.p.size() == 1 && cref::sameDouble(got.p.begin()->second.d, x, true), [&] { return "single float " + std::to_string(x) + " for tag " + std::to_string(tags[tag]) + ": got " + str(got); });
}

// several values one after the other through one serializer: each write and read reports its own extent
SCENARIO(streams)
{
    std::vector<MV> pool{ MV::St(), MV::St({ { 1, MV::Int(Type::int32, 1) } }), MV::St({ { 7, MV::St({ { 1, MV::S(std::string(30, 'x')) } }) } }), MV::St({ { 1, MV::Int(Type::int32, -99999) }, { 7, MV::St({ { 17, MV::V({}) } }) } }) };
    bool exp = ch.flag("experimental");
    int n = 1 + ch.choose(3, "count");
    std::vector<MV> seq;
    for (int i = 0; i < n; ++i) seq.push_back(ch.of(pool, "value"));
    auto go = [&](auto ser) {
        std::vector<size_t> sizes;
        size_t total = 0;
        for (auto& m : seq)
        {
            AnyStruct s = dx::make(VOnlyKey::_Descriptor(), m);
            size_t k = ser.serialize(s->_to<VOnlyKey>());
            vh::check(k == ser.lastSerializeSize() && ser.output().size() == total + k, "size of a write");
            sizes.push_back(k);
            total += k;
            bytes alone = decltype(ser)::Serialize(s->_to<VOnlyKey>());
            vh::check(bytes(ser.output().begin() + (total - k), ser.output().end()) == alone, "a record written after others differs from the record written alone");
        }
        bytes all = ser.output();
        ser.setInput(all);
        for (size_t i = 0; i < seq.size(); ++i)
        {
            VOnlyKey v;
            size_t k = ser.deserialize(v);
            vh::check(k == sizes[i] && ser.lastDeserializeSize() == k, "size of a read");
            total -= k;
            vh::check(ser.inputAvailable() == total, "rest of the input");
            vh::checkF(eq(readStruct(v), seq[i]), [&] { return "record " + std::to_string(i) + " of a stream: got " + str(readStruct(v)) + ", expected " + str(seq[i]); });
            vh::transition();
        }
        bool threw = false;
        VOnlyKey v;
        try { ser.deserialize(v); } catch (const std::exception&) { threw = true; }
        vh::check(threw, "reading past the end has to be an error");
    };
    vh::state(vh::mix(seq.size(), hash(seq.back())));
    if (exp) go(ExperimentalCborSerializer{}); else go(CborSerializer{});
}

namespace
{
    template <typename S, typename T> void bare(const T& x, const MV& m, const Descriptor<>& d, bool exp)
    {
        bytes b = S::Serialize(x);
        bytes ref;
        cref::encode(ref, m, d);
        if (!exp) vh::checkF(b == ref, [&] { return "value " + str(m) + ": wrote " + vh::hexv(b) + ", expected " + vh::hexv(ref); });
        T y{};
        size_t n = S::Deserialize(b, y);
        vh::checkF(n == b.size() && (y == x || x != x), [&] { return "value " + str(m) + " is not read back"; });
        T z = S::template Deserialize<T>(b);
        vh::checkF(z == x || x != x, [&] { return "value " + str(m) + " is not read back by value"; });
        vh::transition();
        vh::outcome(vh::hashStr(vh::hexv(b)));
    }
    template <typename T> void bareAll(Chooser& ch)
    {
        const Descriptor<>& d = Descriptor<T>::Instance();
        auto dom = dom::full(d);
        const MV& m = ch.of(dom, "value");
        vh::state(vh::mix(static_cast<int>(d.type()), hash(m)));
        withValue(m, d, [&](const Typeless& t) {
            bare<CborSerializer, T>(t.to<T>(), m, d, false);
            bare<ExperimentalCborSerializer, T>(t.to<T>(), m, d, true);
        });
    }
}

SCENARIO(bare_values)
{
    using namespace dots;
    switch (ch.choose(16, "type"))
    {
        case 0: bareAll<int8_t>(ch); break;
        case 1: bareAll<int16_t>(ch); break;
        case 2: bareAll<int32_t>(ch); break;
        case 3: bareAll<int64_t>(ch); break;
        case 4: bareAll<uint8_t>(ch); break;
        case 5: bareAll<uint16_t>(ch); break;
        case 6: bareAll<uint32_t>(ch); break;
        case 7: bareAll<uint64_t>(ch); break;
        case 8: bareAll<float32_t>(ch); break;
        case 9: bareAll<float64_t>(ch); break;
        case 10: bareAll<string_t>(ch); break;
        case 11: bareAll<timepoint_t>(ch); break;
        case 12: bareAll<steady_timepoint_t>(ch); break;
        case 13: bareAll<duration_t>(ch); break;
        case 14: bareAll<property_set_t>(ch); break;
        case 15: bareAll<bool_t>(ch); break;
    }
}

VH_MAIN
