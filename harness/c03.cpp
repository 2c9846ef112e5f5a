// C03: the text formats: what is written is well formed, says what the record holds, and is read back exactly.
#include "dyn.h"
#include "domains.h"
#include "cborref.h"
#include <dots/serialization/JsonSerializer.h>
#include <dots/serialization/RapidJsonSerializer.h>
#include <dots/serialization/StringSerializer.h>
#include <VRec.dots.h>
#include <VAll.dots.h>
#include <VVecs.dots.h>
#include <VOnlyKey.dots.h>
#include <VNode.dots.h>
#include <rapidjson/document.h>

using namespace dx;
using vh::Chooser;
using namespace dots::serialization;

namespace
{
    using RJ = RapidJsonSerializer<>;
    enum Lang { Json, Str };
    struct TWriter { std::string name; Lang lang; bool strictable; const StructDescriptor* desc; std::function<std::string(const Struct&, PropertySet)> enc; std::function<std::string(const Struct&)> encAll; };
    struct TReader { std::string name; Lang lang; bool strict; const StructDescriptor* desc; std::function<void(Struct&, const std::string&)> dec; std::function<void(Struct&, const std::string&, PropertySet)> decPart; };

    TextOptions opt(int style, bool strict = false) { TextOptions o; o.style = static_cast<TextOptions::Style>(style); o.policy = strict ? TextOptions::Strict : TextOptions::Relaxed; return o; }
    const char* styleName[] = { "minified", "single line", "multi line" };

    template <typename T> struct Set
    {
        std::vector<TWriter> w;
        std::vector<TReader> r;
        Set()
        {
            add<T>("typed", T::_Descriptor());
            add<Struct>("generic", T::_Descriptor());
            add<Struct>("dynamic", dynWorld().twin(T::_Descriptor()));
        }
        template <typename X> void add(const std::string& kindName, const StructDescriptor& d)
        {
            auto c = [](const Struct& s) -> const X& { return static_cast<const X&>(s); };
            auto m = [](Struct& s) -> X& { return static_cast<X&>(s); };
            for (int st = 0; st < 3; ++st)
            {
                w.push_back({ "json " + kindName + " " + styleName[st], Json, false, &d, [=](const Struct& s, PropertySet p) { return JsonSerializer::Serialize(c(s), p, opt(st)); }, [=](const Struct& s) { return JsonSerializer::Serialize(c(s), opt(st)); } });
                w.push_back({ "string " + kindName + " " + styleName[st], Str, st == 2, &d, [=](const Struct& s, PropertySet p) { return StringSerializer::Serialize(c(s), p, opt(st)); }, [=](const Struct& s) { return StringSerializer::Serialize(c(s), opt(st)); } });
            }
            w.push_back({ "rapidjson " + kindName, Json, false, &d, [=](const Struct& s, PropertySet p) { return RJ::Serialize(c(s), p); }, [=](const Struct& s) { return RJ::Serialize(c(s)); } });
            r.push_back({ "json " + kindName, Json, false, &d, [=](Struct& s, const std::string& b) { size_t n = JsonSerializer::Deserialize(b, m(s)); vh::check(n == b.size(), "consumed " + std::to_string(n) + " of " + std::to_string(b.size())); }, [=](Struct& s, const std::string& b, PropertySet p) { JsonSerializer x; x.setInput(b); x.deserialize(m(s), p); } });
            r.push_back({ "rapidjson " + kindName, Json, false, &d, [=](Struct& s, const std::string& b) { RJ::Deserialize(b.data(), b.size(), m(s)); }, [=](Struct& s, const std::string& b, PropertySet p) { RJ x{ std::string_view{ b } }; x.deserialize(m(s), p); } });
            for (int strict = 0; strict < 2; ++strict)
                r.push_back({ "string " + kindName + (strict ? " strict" : ""), Str, strict == 1, &d, [=](Struct& s, const std::string& b) { size_t n = StringSerializer::Deserialize(b, m(s), opt(1, strict)); vh::check(n == b.size(), "consumed " + std::to_string(n) + " of " + std::to_string(b.size())); }, [=](Struct& s, const std::string& b, PropertySet p) { StringSerializer x{ opt(1, strict) }; x.setInput(b); x.deserialize(m(s), p); } });
        }
    };
    template <typename T> Set<T>& sets() { static Set<T> s; return s; }

    // what a JSON document says, read by a parser that has nothing to do with the library
    MV jsonValue(const rapidjson::Value& j, const Descriptor<>& d);
    MV jsonStruct(const rapidjson::Value& j, const StructDescriptor& d, uint32_t& nulls)
    {
        if (!j.IsObject()) throw cref::Bad{ "not an object" };
        MV m = MV::St();
        for (auto it = j.MemberBegin(); it != j.MemberEnd(); ++it)
        {
            const PropertyDescriptor* pd = nullptr;
            for (auto& p : d.propertyDescriptors()) if (p.name() == it->name.GetString()) pd = &p;
            if (pd == nullptr) throw cref::Bad{ std::string("unknown member ") + it->name.GetString() };
            if (it->value.IsNull()) nulls |= 1u << pd->tag();
            else if (!m.p.emplace(pd->tag(), jsonValue(it->value, pd->valueDescriptor())).second) throw cref::Bad{ "member repeated" };
        }
        return m;
    }
    MV jsonValue(const rapidjson::Value& j, const Descriptor<>& d)
    {
        MV m; m.type = d.type();
        auto want = [](bool c, const char* w) { if (!c) throw cref::Bad{ std::string("not ") + w }; };
        switch (kind(d.type()))
        {
            case Kind::I:
                if (d.type() == Type::boolean) { want(j.IsBool(), "a boolean"); m.i = j.GetBool(); }
                else if (d.type() == Type::Enum) { want(j.IsUint(), "an enum tag"); unsigned t = j.GetUint(); m.i = t == 1 ? 0 : t == 3 ? 7 : t == 5 ? 100000 : -9; }
                else { want(j.IsInt64(), "an integer"); m.i = j.GetInt64(); }
                return m;
            case Kind::U: want(j.IsUint64(), "an unsigned integer"); m.u = j.GetUint64(); return m;
            case Kind::D: want(j.IsNumber(), "a number"); m.d = j.GetDouble(); if (d.type() == Type::float32) m.d = static_cast<float>(m.d); return m;
            case Kind::S:
                want(j.IsString(), "a string");
                m.s.assign(j.GetString(), j.GetStringLength());
                if (d.type() == Type::uuid)
                {
                    std::string h;
                    for (char c : m.s) if (c != '-') h += c;
                    want(h.size() == 32 && m.s.size() == 36, "a uuid");
                    m.s.clear();
                    for (size_t i = 0; i < 32; i += 2) m.s += static_cast<char>(std::stoi(h.substr(i, 2), nullptr, 16));
                }
                return m;
            case Kind::V: want(j.IsArray(), "an array"); for (auto& e : j.GetArray()) m.v.push_back(jsonValue(e, static_cast<const Descriptor<Vector<>>&>(d).valueDescriptor())); return m;
            default: { uint32_t nulls = 0; m = jsonStruct(j, static_cast<const StructDescriptor&>(d), nulls); if (nulls) throw cref::Bad{ "null in a nested record" }; return m; }
        }
    }

    std::string ctx(const std::string& who, const MV& m, uint32_t inc, const std::string& text) { return who + " included=" + std::to_string(inc) + " value=" + str(m) + " text=" + (text.size() > 300 ? text.substr(0, 300) + "..." : text); }

    // points in time the readable format can name: whole milliseconds of a four digit year
    bool datable(const MV& m)
    {
        for (auto& e : m.v) if (!datable(e)) return false;
        for (auto& [t, e] : m.p) if (!datable(e)) return false;
        return m.type != Type::timepoint || (m.d >= 0 && m.d < 4e9 && m.d * 8 == std::floor(m.d * 8));
    }

    template <typename T> void roundtrip(const MV& m, uint32_t inc, const MV& old, bool whole)
    {
        MV want = mOnly(m, inc);
        bool da = datable(want);
        uint32_t asked = (whole ? maskOf(m) : inc) & allMask(T::_Descriptor());
        MV after = mMerge(mWithout(old, asked & ~maskOf(want)), want, ~0u);
        for (const TWriter& w : sets<T>().w)
        {
            if (!da && w.lang == Str) continue;
            AnyStruct src = dx::make(*w.desc, m);
            std::string text = whole ? w.encAll(*src) : w.enc(*src, PropertySet{ inc });
            vh::outcome(vh::hashStr(text));
            if (w.lang == Json)
            {
                rapidjson::Document doc;
                doc.Parse<rapidjson::kParseFullPrecisionFlag>(text.data(), text.size());
                vh::checkF(!doc.HasParseError(), [&] { return ctx(w.name, m, inc, text) + ": not well formed"; });
                try
                {
                    uint32_t nulls = 0;
                    MV got = jsonStruct(doc, *w.desc, nulls);
                    vh::checkF(cref::eq(got, want, false), [&] { return ctx(w.name, m, inc, text) + ": means " + str(got); });
                    vh::checkF(nulls == (asked & ~maskOf(want)), [&] { return ctx(w.name, m, inc, text) + ": nulls"; });
                }
                catch (const cref::Bad& e) { vh::check(false, ctx(w.name, m, inc, text) + ": " + e.what); }
            }
            for (const TReader& r : sets<T>().r)
            {
                if (r.lang != w.lang || (r.strict && !w.strictable)) continue;
                auto attempt = [&](const char* what, const MV& start, const MV& expected, const std::function<void(Struct&)>& f) {
                    AnyStruct dst = dx::make(*r.desc, start);
                    try { f(*dst); }
                    catch (const std::exception& e) { vh::check(false, ctx(w.name, m, inc, text) + " read by " + r.name + " (" + what + "): " + std::string(e.what()).substr(0, 160)); }
                    catch (const vh::Violation& v) { vh::check(false, ctx(w.name, m, inc, text) + " read by " + r.name + " (" + what + "): " + v.msg); }
                    MV got = readStruct(*dst);
                    vh::transition();
                    vh::checkF(cref::eq(got, expected, false), [&] { return ctx(w.name, m, inc, text) + " read by " + r.name + " (" + what + "): got " + str(got) + ", expected " + str(expected); });
                };
                attempt("fresh", MV::St(), want, [&](Struct& s) { r.dec(s, text); });
                attempt("over existing", old, after, [&](Struct& s) { r.dec(s, text); });
                uint32_t part = 1u << 2 | 1u << 5 | 1u << 17 | 1u << 9;
                attempt("partial read", old, mMerge(mWithout(old, asked & part & ~maskOf(want)), want, part), [&](Struct& s) { r.decPart(s, text, PropertySet{ part }); });
            }
        }
    }

    template <typename T> void onePropertyAllValues(Chooser& ch)
    {
        const auto& pds = T::_Descriptor().propertyDescriptors();
        auto& pd = pds[ch.choose(static_cast<int>(pds.size()), "property")];
        MV m = MV::St(), old = MV::St();
        auto dom = dom::full(pd.valueDescriptor(), true);
        m.p[pd.tag()] = dom[ch.choose(static_cast<int>(dom.size()), "value")];
        auto few = dom::few(pd.valueDescriptor());
        int o = ch.choose(2, "previous value");
        if (o > 0) old.p[pd.tag()] = few[1];
        vh::state(vh::mix(hash(m), hash(old)));
        vh::sample(T::_Descriptor().name() + " " + str(m));
        if (ch.tracing()) ch.note(str(m));
        roundtrip<T>(m, ~0u, old, true);
    }
    template <typename T> void subsets(Chooser& ch, int n)
    {
        const auto& pds = T::_Descriptor().propertyDescriptors();
        MV m = MV::St(), old = MV::St();
        int rest = ch.choose(2, "others");
        if (rest == 1) for (auto& pd : pds) { auto f = dom::few(pd.valueDescriptor()); for (auto& x : f) if (datable(x)) m.p[pd.tag()] = x; }
        size_t from = 0;
        uint32_t act = 0;
        for (int k = 0; k < n && from < pds.size(); ++k)
        {
            size_t left = pds.size() - from;
            size_t i = from + ch.choose(static_cast<int>(left), "property");
            from = i + 1;
            auto few = dom::few(pds[i].valueDescriptor());
            int x = ch.choose(3, "value");
            if (x == 0) m.p.erase(pds[i].tag()); else m.p[pds[i].tag()] = few[x - 1];
            if (rest == 0 && x != 1) old.p[pds[i].tag()] = few[1];
            act |= 1u << pds[i].tag();
        }
        std::vector<uint32_t> incs{ ~0u, act, ~act & allMask(T::_Descriptor()), 0u };
        uint32_t inc = incs[ch.choose(static_cast<int>(incs.size()), "included")];
        vh::state(vh::mix(hash(m), inc));
        roundtrip<T>(m, inc, old, false);
    }
}

SCENARIO(values_all) { onePropertyAllValues<VAll>(ch); }
SCENARIO(values_vecs) { onePropertyAllValues<VVecs>(ch); }
SCENARIO(values_rec) { onePropertyAllValues<VRec>(ch); }
SCENARIO(values_node) { onePropertyAllValues<VNode>(ch); }
SCENARIO(subsets_all) { subsets<VAll>(ch, vh::bound(2, 3)); }
SCENARIO(subsets_rec) { subsets<VRec>(ch, vh::bound(2, 4)); }
SCENARIO(subsets_vecs) { subsets<VVecs>(ch, vh::bound(1, 3)); }
SCENARIO(subsets_onlykey) { subsets<VOnlyKey>(ch, 2); }

namespace
{
    std::vector<std::string> unknowns(Lang l)
    {
        if (l == Json) return { "1", "-1.5e3", "true", "null", "\"\"", "\"text, with \\\"quotes\\\" } ] {\"", "[]", "[1,2,3]", "[[1],[],[\"a]\",{}]]", "{}", "{\"x\":1,\"y\":[{\"z\":null}]}", "{\"id\":7,\"text\":\"inner\"}", "[ 1 , 2 ]", "{ \"x\": 1 , \"y\":[ ] }" };
        return { "1", "-1.5e3", "true", "<invalid>", "\"\"", "\"text, with \\\"quotes\\\" } {\"", "{1,2,3}", "{1}", "0b101u", "1.5f", "green", "VEnum::green" };
    }
}

// members a reader does not know are passed over, wherever they stand; white space is insignificant
SCENARIO(unknown_members)
{
    Lang l = ch.choose(2, "language") ? Str : Json;
    auto& s = sets<VNode>();
    std::vector<const TReader*> rs;
    for (auto& r : s.r) if (r.lang == l && !r.strict) rs.push_back(&r);
    const TReader& r = *ch.of(rs, "reader");
    auto un = unknowns(l);
    std::string x = ch.of(un, "unknown value");
    int at = ch.choose(5, "position");
    int space = ch.choose(3, "white space");
    std::string sp = space == 0 ? "" : space == 1 ? " " : "\n\t ";
    auto member = [&](const std::string& n, const std::string& v) { return l == Json ? "\"" + n + "\":" + sp + v : "." + n + sp + "=" + sp + v; };
    auto put = [&](const char* n) { return member(n, x); };
    auto join = [&](const std::vector<std::string>& v) { std::string t = "{" + sp; for (size_t i = 0; i < v.size(); ++i) t += (i ? sp + "," + sp : "") + v[i]; return t + sp + "}"; };
    std::vector<std::string> leaf{ member("id", "5"), member("text", "\"t\"") };
    if (at >= 3) leaf.insert(leaf.begin() + 1, put("unknown1"));
    std::vector<std::string> top{ member("flag", "true"), member("leaf", join(leaf)), member("num", "2.5") };
    if (at == 0) top.insert(top.begin(), put("unknown2"));
    if (at == 1) top.insert(top.begin() + 1, put("idle"));
    if (at == 2 || at == 4) top.push_back(put("leaf2"));
    std::string text = join(top);
    MV want = MV::St({ { 4, MV::Bool(true) }, { 2, MV::St({ { 3, MV::Int(Type::int32, 5) }, { 1, MV::S("t") } }) }, { 31, MV::F(Type::float64, 2.5) } });
    AnyStruct dst{ *r.desc };
    vh::transition();
    vh::state(vh::hashStr(text));
    vh::sample(text);
    try { r.dec(*dst, text); } catch (const std::exception& e) { vh::check(false, r.name + " reading " + text + ": " + std::string(e.what()).substr(0, 120)); }
    MV got = readStruct(*dst);
    vh::checkF(eq(got, want), [&] { return r.name + " reading " + text + ": got " + str(got) + ", expected " + str(want); });
}

// several values through one serializer
SCENARIO(streams)
{
    std::vector<MV> pool{ MV::St({ { 1, MV::Int(Type::int32, 1) } }), MV::St(), MV::St({ { 7, MV::St({ { 1, MV::S("a\"b") } }) } }), MV::St({ { 1, MV::Int(Type::int32, -99999) }, { 7, MV::St({ { 17, MV::V({}) } }) } }) };
    bool str_ = ch.flag("string");
    int st = ch.choose(3, "style");
    int n = 1 + ch.choose(3, "count");
    std::vector<MV> seq;
    for (int i = 0; i < n; ++i) seq.push_back(ch.of(pool, "value"));
    auto go = [&](auto ser) {
        std::vector<size_t> sizes;
        for (auto& m : seq)
        {
            AnyStruct s = dx::make(VOnlyKey::_Descriptor(), m);
            sizes.push_back(ser.serialize(s->_to<VOnlyKey>()));
        }
        std::string all = ser.output();
        ser.setInput(all);
        for (size_t i = 0; i < seq.size(); ++i)
        {
            VOnlyKey v;
            size_t k = ser.deserialize(v);
            vh::checkF(k == sizes[i], [&] { return "read " + std::to_string(k) + " of " + std::to_string(sizes[i]) + " in " + all; });
            vh::checkF(eq(readStruct(v), seq[i]), [&] { return "record " + std::to_string(i) + " of " + all + ": got " + str(readStruct(v)); });
            vh::transition();
        }
        vh::state(vh::hashStr(all));
    };
    if (str_) go(StringSerializer{ opt(st) }); else go(JsonSerializer{ opt(st) });
}

namespace
{
    template <typename S, typename T> void bare(const T& x, const MV& m, int st)
    {
        std::string b = S::Serialize(x, opt(st));
        if (b.empty()) { vh::check(m.type == Type::string && m.s.empty(), "nothing written for " + str(m)); return; }
        T y{};
        size_t n = S::Deserialize(b, y);
        vh::transition();
        vh::outcome(vh::hashStr(b));
        vh::checkF(n == b.size(), [&] { return "value " + str(m) + " written as " + b + ": consumed " + std::to_string(n); });
        vh::checkF(y == x, [&] { return "value " + str(m) + " written as " + b + " is not read back"; });
    }
    template <typename T> void bareAll(Chooser& ch)
    {
        const Descriptor<>& d = Descriptor<T>::Instance();
        auto dom = dom::full(d, true);
        const MV& m = ch.of(dom, "value");
        int st = ch.choose(3, "style");
        if (m.type == Type::string && !m.s.empty() && static_cast<uint8_t>(m.s[0]) <= ' ') return; // leading white space of an unquoted string is not significant
        vh::state(vh::mix(static_cast<int>(d.type()), hash(m)));
        withValue(m, d, [&](const Typeless& t) {
            bare<JsonSerializer, T>(t.to<T>(), m, st);
            if (datable(m)) bare<StringSerializer, T>(t.to<T>(), m, st);
        });
    }
}
SCENARIO(bare_values)
{
    using namespace dots;
    switch (ch.choose(17, "type"))
    {
        case 0: bareAll<int8_t>(ch); break;
        case 1: bareAll<int16_t>(ch); break;
        case 2: bareAll<int32_t>(ch); break;
        case 3: bareAll<int64_t>(ch); break;
        case 4: bareAll<uint8_t>(ch); break;
        case 5: bareAll<uint16_t>(ch); break;
        case 6: bareAll<uint32_t>(ch); break;
        case 7: bareAll<uint64_t>(ch); break;
        case 8: bareAll<float32_t>(ch); break;
        case 9: bareAll<float64_t>(ch); break;
        case 10: bareAll<string_t>(ch); break;
        case 11: bareAll<timepoint_t>(ch); break;
        case 12: bareAll<steady_timepoint_t>(ch); break;
        case 13: bareAll<duration_t>(ch); break;
        case 14: bareAll<property_set_t>(ch); break;
        case 15: bareAll<bool_t>(ch); break;
        case 16: bareAll<uuid_t>(ch); break;
    }
}

VH_MAIN
