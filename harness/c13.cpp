// C13: types travel as descriptions, before their first use, and are rebuilt as they were; a description that makes no sense is refused.
#include "sim.h"
#include "cborref.h"
#include "domains.h"
#include <dots/Container.h>
#include <dots/HostTransceiver.h>
#include <dots/type/Registry.h>
#include <VAll.dots.h>
#include <VRec.dots.h>
#include <VVecs.dots.h>
#include <VPair.dots.h>
#include <VOnlyKey.dots.h>
#include <VTransient.dots.h>
#include <VPersist.dots.h>
#include <VUncached.dots.h>
#include <VSubOnly.dots.h>
#include <VInternalT.dots.h>
#include <DotsMember.dots.h>
#include <DotsMsgConnect.dots.h>
#include <DotsDescriptorRequest.dots.h>
#include <DotsCacheInfo.dots.h>

using namespace dx;
using namespace dots;
using vh::Chooser;

namespace
{
    template <typename... Ts> void use() { ((void)Ts::_Descriptor(), ...); }
    Registry& staticRegistry()
    {
        static Registry r = [] { use<VLeaf, VNode, VRec, VAll, VVecs, VPair, VInternalT, VOnlyKey, VUncached, VTransient, VPersist, VSubOnly>(); return Registry{ std::nullopt, Registry::StaticTypePolicy::All }; }();
        return r;
    }
    const StructDescriptor& st(const std::string& n) { return staticRegistry().getStructType(n); }

    // a value with every property set
    MV valueOf(const Descriptor<>& d, int variant, int depth = 0)
    {
        switch (kind(d.type()))
        {
            case Kind::P:
            {
                MV m = MV::St();
                for (auto& pd : static_cast<const StructDescriptor&>(d).propertyDescriptors()) m.p[pd.tag()] = valueOf(pd.valueDescriptor(), variant, depth + 1);
                return m;
            }
            case Kind::V:
            {
                auto& vd = static_cast<const Descriptor<Vector<>>&>(d).valueDescriptor();
                return MV::V({ valueOf(vd, variant, depth + 1), valueOf(vd, 1 - variant, depth + 1) });
            }
            case Kind::I:
                if (d.type() == Type::Enum)
                {
                    auto& es = static_cast<const EnumDescriptor&>(d).enumeratorsTypeless();
                    return MV::E(es.empty() ? 0 : es[variant % es.size()].valueTypeless().to<int32_t>());
                }
                [[fallthrough]];
            default:
                return dom::few(d)[variant];
        }
    }

    struct PropD { std::string name; uint32_t tag; bool key; std::string type; };
    struct StructD { std::string name; uint32_t flags; std::vector<PropD> props; };
    bool operator == (const PropD& a, const PropD& b) { return a.name == b.name && a.tag == b.tag && a.key == b.key && a.type == b.type; }
    StructD describe(const StructDescriptor& d)
    {
        StructD s{ d.name(), 0, {} };
        s.flags = d.cached() * 1 + d.internal() * 2 + d.persistent() * 4 + d.cleanup() * 8 + d.local() * 16 + d.substructOnly() * 32;
        for (auto& pd : d.propertyDescriptors()) s.props.push_back({ pd.name(), pd.tag(), pd.isKey(), pd.valueDescriptor().name() });
        return s;
    }
    StructD describe(const MV& data) // as it travels
    {
        StructD s{ data.p.at(1).s, 0, {} };
        if (data.p.count(5)) for (uint32_t t = 1; t <= 6; ++t) if (auto it = data.p.at(5).p.find(t); it != data.p.at(5).p.end() && it->second.i) s.flags |= 1u << (t - 1);
        if (data.p.count(2)) for (auto& x : data.p.at(2).v) s.props.push_back({ x.p.at(1).s, static_cast<uint32_t>(x.p.at(2).u), x.p.at(3).i != 0, x.p.at(4).s });
        return s;
    }
    std::string show(const StructD& s)
    {
        std::string r = s.name + " flags " + std::to_string(s.flags) + " {";
        for (auto& p : s.props) r += " " + std::to_string(p.tag) + ":" + (p.key ? "[key] " : " ") + p.type + " " + p.name + ";";
        return r + " }";
    }
    bool same(const StructD& a, const StructD& b) { return a.name == b.name && a.flags == b.flags && a.props == b.props; }
    std::vector<std::pair<std::string, std::pair<int, uint32_t>>> describe(const EnumDescriptor& e)
    {
        std::vector<std::pair<std::string, std::pair<int, uint32_t>>> r;
        for (auto& x : e.enumeratorsTypeless()) r.push_back({ x.name(), { x.valueTypeless().to<int32_t>(), x.tag() } });
        return r;
    }

    MV decodeData(const sim::Packet& p)
    {
        size_t pos = 0;
        cref::bytes b(p.data.begin(), p.data.end());
        return cref::structure(cref::decode(b, pos), st(p.type));
    }
    // the user types and enums a type is made of
    void depsOf(const Descriptor<>& d, std::set<std::string>& out)
    {
        if (d.type() == Type::Vector) return depsOf(static_cast<const Descriptor<Vector<>>&>(d).valueDescriptor(), out);
        if (d.type() == Type::Enum) { out.insert(d.name()); return; }
        if (d.type() != Type::Struct) return;
        auto& sd = static_cast<const StructDescriptor&>(d);
        if (sd.internal()) return;
        out.insert(d.name());
        for (auto& pd : sd.propertyDescriptors()) depsOf(pd.valueDescriptor(), out);
    }

    struct End
    {
        Registry* reg;
        io::channel_ptr_t c;
        std::vector<std::pair<std::string, MV>> got;
        int errors = 0;
        std::string what;
        End(Registry& r, sim::link_t link, int side) : reg(&r)
        {
            c = io::make_channel<sim::SimChannel>(link, side);
            c->init(r);
            c->asyncReceive([this](io::Transmission t) { got.emplace_back(*t.header().typeName, readStruct(*t.instance())); return true; },
                [this](std::exception_ptr e) { ++errors; try { std::rethrow_exception(e); } catch (const std::exception& x) { what = x.what(); } });
        }
    };
    void drain(sim::Link& l, int side) { while (l.end[side] && l.end[side]->armed() && !l.q[side].empty()) { vh::transition(); l.end[side]->deliver(); } }

    // what travelled towards the side: descriptions first, once, complete
    void monitor(const sim::Link& l, int side, const std::string& where, std::set<std::string> knownBefore, const std::set<std::string>& otherWay)
    {
        std::set<std::string> described;
        for (auto& p : l.sent[side])
        {
            if (p.eof) continue;
            std::set<std::string> need;
            if (p.isType())
            {
                MV m = decodeData(p);
                std::string name = m.p.at(1).s;
                vh::check(described.insert(name).second, where + ": " + name + " was described twice");
                if (p.type == "StructDescriptorData")
                {
                    StructD want = describe(st(name)), got = describe(m);
                    vh::check(same(want, got), where + ": " + show(want) + " was described as " + show(got));
                    depsOf(st(name), need);
                    need.erase(name);
                    vh::check(!st(name).internal(), where + ": the internal type " + name + " was described");
                }
                else
                {
                    auto& e = staticRegistry().getEnumType(name);
                    std::vector<std::pair<std::string, std::pair<int, uint32_t>>> got;
                    for (auto& x : m.p.at(2).v) got.push_back({ x.p.at(2).s, { static_cast<int>(x.p.at(1).i), static_cast<uint32_t>(x.p.at(3).u) } });
                    vh::check(got == describe(e), where + ": the enum " + name + " was not described as it is");
                }
            }
            else depsOf(st(p.type), need);
            for (auto& n : need) vh::check(described.count(n) || knownBefore.count(n) || otherWay.count(n), where + ": " + p.type + " travelled before the description of " + n);
        }
    }
    std::set<std::string> describedTo(const sim::Link& l, int side) { std::set<std::string> r; for (auto& p : l.sent[side]) if (p.isType()) r.insert(p.b(1)->s); return r; }

    // everything a record of the type has to be able to do
    void exercise(const StructDescriptor& d, const std::string& where, bool judge)
    {
        vh::setNote(where);
        MV m = valueOf(d, 0), m2 = valueOf(d, 1);
        AnyStruct a = make(d, m), b = make(d, m2), e{ d };
        AnyStruct c{ a };
        if (judge) vh::checkF(eq(readStruct(*c), m), [&] { return where + ": a record holds " + str(readStruct(*c)) + ", written " + str(m); });
        bool equal = c->_equal(*a);
        if (judge) vh::check(equal, where + ": a copy differs");
        (void)a->_less(*b);
        c->_merge(*b);
        c->_copy(*e);
        c->_swap(*b);
        c->_clear();
        try
        {
            auto bytes = to_cbor(*a);
            AnyStruct r{ d };
            from_cbor(bytes, *r);
            if (judge) vh::checkF(eq(readStruct(*r), m), [&] { return where + ": " + str(m) + " was read back as " + str(readStruct(*r)); });
        }
        catch (const vh::Violation&) { throw; }
        catch (const std::exception& x) { vh::check(!judge, where + ": " + x.what()); }
        (void)a->_descriptor().dynamicMemoryUsage(*a);
        if (!d.cached()) return;
        try
        {
            Container<> container{ d };
            DotsHeader h{ .typeName = d.name(), .sentTime = timepoint_t{}, .attributes = a->_validProperties(), .sender = uint32_t(3) };
            container.insert(h, *a);
            container.insert(h, *a);
            size_t n = container.size();
            if (judge) vh::check(n == 1, where + ": a container holds the same record twice");
        }
        catch (const vh::Violation&) { throw; }
        catch (const std::exception& x) { vh::check(!judge, where + ": " + x.what()); }
    }
    const char* userTypes[] = { "VLeaf", "VNode", "VRec", "VAll", "VVecs", "VPair", "VInternalT", "VOnlyKey" };
}

// any sequence of transmissions in both directions between an end that has the types compiled in and one that learns them
SCENARIO(exchange)
{
    auto link = std::make_shared<sim::Link>();
    Registry own{ std::nullopt, Registry::StaticTypePolicy::InternalOnly };
    End a{ staticRegistry(), link, 0 }, b{ own, link, 1 };
    std::vector<std::pair<std::string, MV>> toB, toA;
    std::string where;
    int depth = vh::bound(3, 4);
    for (int i = 0; i < depth; ++i)
    {
        int kinds = 3;
        int k = ch.choose(kinds, "kind");
        std::string t = userTypes[ch.choose(8, "type")];
        if (k == 2)
        {
            auto* d = own.findStructType(t);
            if (d == nullptr) throw vh::Prune{};
            MV m = valueOf(st(t), i % 2);
            AnyStruct x = make(*d, m);
            b.c->transmit(*x);
            toA.emplace_back(t, m);
            where += " B:" + t;
        }
        else if (k == 1) { a.c->transmit(static_cast<const Descriptor<>&>(st(t))); where += " A describes " + t; }
        else
        {
            MV m = valueOf(st(t), i % 2);
            AnyStruct x = make(st(t), m);
            // (a transmission that is passed on presupposes that the receiver knows the type)
            if (i > 0 && describedTo(*link, 1).count(t)) a.c->transmit(io::Transmission{ DotsHeader{ .typeName = t, .attributes = x->_validProperties() }, AnyStruct{ *x } });
            else a.c->transmit(*x);
            toB.emplace_back(t, m);
            where += " A:" + t;
        }
        drain(*link, 1);
        drain(*link, 0);
        vh::state(vh::hashStr(where));
    }
    where = where.substr(1);
    vh::check(a.errors == 0 && b.errors == 0, where + ": an error was reported: " + a.what + b.what);
    monitor(*link, 1, where, {}, {});
    monitor(*link, 0, where, {}, describedTo(*link, 1));
    auto compare = [&](End& e, std::vector<std::pair<std::string, MV>>& want) {
        std::vector<std::pair<std::string, MV>> got;
        for (auto& g : e.got) if (g.first != "StructDescriptorData" && g.first != "EnumDescriptorData") got.push_back(g);
        vh::check(got.size() == want.size(), where + ": " + std::to_string(got.size()) + " of " + std::to_string(want.size()) + " instances arrived");
        for (size_t i = 0; i < got.size(); ++i) vh::checkF(got[i].first == want[i].first && eq(got[i].second, want[i].second), [&] { return where + ": " + str(want[i].second) + " arrived as " + str(got[i].second); });
    };
    compare(b, toB);
    compare(a, toA);
    for (auto& n : describedTo(*link, 1))
    {
        if (auto* sd = own.findStructType(n))
        {
            vh::checkF(same(describe(*sd), describe(st(n))), [&] { return where + ": " + show(describe(st(n))) + " was rebuilt as " + show(describe(*sd)); });
            exercise(*sd, where + ": " + n, true);
        }
        else
        {
            auto* ed = own.findEnumType(n);
            vh::check(ed != nullptr && describe(*ed) == describe(staticRegistry().getEnumType(n)), where + ": the enum " + n + " was not rebuilt");
        }
    }
    vh::outcome(vh::hashStr(str(MV::UInt(Type::uint32, describedTo(*link, 1).size()))));
}

// the receiver has some of the types compiled in, the others are described
SCENARIO(mixed)
{
    Registry own{ std::nullopt, Registry::StaticTypePolicy::InternalOnly };
    static const std::vector<std::string> parts{ "VEnum", "VLeaf", "VNode", "VRec", "VOnlyKey" };
    std::string where = "compiled in:";
    for (auto& p : parts) if (ch.flag("compiled in"))
    {
        own.registerType(const_cast<Descriptor<>&>(staticRegistry().getType(p)), false);
        where += " " + p;
    }
    auto link = std::make_shared<sim::Link>();
    End a{ staticRegistry(), link, 0 }, b{ own, link, 1 };
    std::string first = ch.of(std::vector<std::string>{ "VVecs", "VRec", "VNode", "VOnlyKey", "VAll" }), second = ch.of(std::vector<std::string>{ "VVecs", "VRec", "VAll" });
    int variant = ch.choose(2, "variant");
    where += "; transmitted: " + first + ", " + second;
    vh::setNote(where);
    std::vector<MV> want;
    for (auto& t : { first, second }) { want.push_back(valueOf(st(t), variant)); a.c->transmit(*make(st(t), want.back())); }
    drain(*link, 1);
    vh::check(b.errors == 0, where + ": an error was reported: " + b.what);
    std::vector<MV> got;
    for (auto& g : b.got) if (g.first != "StructDescriptorData" && g.first != "EnumDescriptorData") got.push_back(g.second);
    vh::check(got.size() == 2 && eq(got[0], want[0]) && eq(got[1], want[1]), where + ": the instances arrived differently");
    for (auto& t : { first, second }) exercise(own.getStructType(t), where, true);
    vh::state(vh::hashStr(where));
    vh::outcome(vh::hashStr(first + second));
}

namespace
{
    struct Given { std::optional<std::string> name; std::optional<uint32_t> tag; std::optional<bool> key; std::optional<std::string> type; };
    enum Verdict { vAccept, vRefuse, vEither };
    Verdict worst(Verdict a, Verdict b) { return a == vRefuse || b == vRefuse ? vRefuse : a == vEither || b == vEither ? vEither : vAccept; }

    sim::Packet rawPacket(const Struct& s)
    {
        sim::Packet p;
        p.type = s._descriptor().name();
        p.body = p.head = MV::St({});
        auto d = to_cbor(s);
        p.data.assign(d.begin(), d.end());
        auto h = to_cbor(DotsHeader{ .typeName = p.type, .attributes = s._validProperties() });
        p.hdr.assign(h.begin(), h.end());
        return p;
    }
    // the peer describes it; yields whether the channel went on
    bool tell(Registry& reg, const std::vector<sim::Packet>& ps, std::string* what = nullptr)
    {
        auto link = std::make_shared<sim::Link>();
        auto keep = std::make_unique<End>(reg, link, 1);
        for (auto& p : ps) link->q[1].push_back(p);
        drain(*link, 1);
        if (what) *what = keep->what;
        return keep->errors == 0;
    }
    std::string show(const Given& g)
    {
        return "(" + g.name.value_or("-") + ", " + (g.tag ? std::to_string(*g.tag) : "-") + ", " + (g.key ? *g.key ? "key" : "no key" : "-") + ", " + g.type.value_or("-") + ")";
    }
}

// every description made of up to two properties of the alphabet
SCENARIO(descriptions)
{
    Registry own{ std::nullopt, Registry::StaticTypePolicy::InternalOnly };
    own.registerType(const_cast<StructDescriptor&>(st("VLeaf")), false);
    own.registerType(const_cast<Descriptor<>&>(staticRegistry().getType("VEnum")), false);
    vh::check(tell(own, { rawPacket(EnumDescriptorData{ .name = "DynEnum", .elements = vector_t<EnumElementDescriptor>{ EnumElementDescriptor{ .enum_value = 3, .name = "x", .tag = 2u } } }),
        rawPacket(StructDescriptorData{ .name = "DynStruct", .properties = vector_t<StructPropertyData>{ StructPropertyData{ .name = "s", .tag = 4u, .isKey = true, .type = "string" } } }) }), "preparing the registry");
    size_t before = own.size();

    static const std::vector<std::optional<std::string>> names{ "Fresh", std::nullopt, "", "VLeaf", "DynStruct", "DynEnum", "int32", "vector<int32>", "DotsHeader", "vector<DynStruct>", std::string(300, 'n') };
    auto name = ch.of(names, "name");
    int nProps = ch.choose(4, "number of properties") - 1; // -1: no list at all
    if (name != "Fresh" && nProps > 1) throw vh::Prune{};
    static const std::vector<std::optional<std::string>> types{ "int32", "string", "VLeaf", "vector<VLeaf>", "DynStruct", "vector<DynStruct>", "VEnum", "DynEnum", "vector<DynEnum>", "vector<VEnum>", "vector<string>", "uuid", "bool", "DotsHeader", "vector<DotsStructFlags>", "vector<DotsStructScope>",
        std::nullopt, "", "Fresh", "vector<Fresh>", "NoSuchType", "vector<NoSuchType>", "vector<", "vector<>", "vector<int32", "vector<DynStruct", "vector<DynStruct>>", "xvector<DynStruct>", "avector<int32>", "vector<vector<int32>>", "vector<vector<DynStruct>>", "vector", "DynStruct ", "vector<vector<>>" };
    constexpr size_t nGood = 16;
    static const std::vector<std::optional<uint32_t>> tags{ 1u, 31u, 0u, 32u, 33u, 1000u, UINT32_MAX, std::nullopt };
    std::vector<Given> ps;
    Verdict v = vAccept;
    bool judgeUse = true;
    for (int i = 0; i < nProps; ++i)
    {
        Given g{ std::string(1, static_cast<char>('a' + i)), static_cast<uint32_t>(i + 2), i == 0, std::string("int32") };
        size_t ti = ch.choose(static_cast<int>(i == 0 ? types.size() : nGood), "type");
        g.type = types[ti];
        if (ti >= nGood) v = worst(v, vRefuse);
        int odd = ch.choose(nProps == 1 ? 4 : i == 0 ? 3 : 5, "oddity");
        if (odd == 1)
        {
            g.tag = ch.of(tags, "tag");
            if (!g.tag || *g.tag > 31) v = worst(v, vRefuse);
            else if (*g.tag == 0) { v = worst(v, vEither); }
        }
        if (odd == 2) { g.name.reset(); v = worst(v, vRefuse); }
        if (odd == 3 && i == 0) { g.key.reset(); v = worst(v, vEither); }
        if (odd == 3 && i == 1) { g.tag = ps[0].tag; }
        if (odd == 4) { g.name = ps[0].name; v = worst(v, vEither); }
        ps.push_back(g);
    }
    for (size_t i = 0; i < ps.size(); ++i) for (size_t k = 0; k < i; ++k) if (ps[i].tag && ps[i].tag == ps[k].tag) v = worst(v, vRefuse);
    int flags = ch.choose(nProps < 2 ? 4 : 2, "flags");
    StructDescriptorData data;
    if (name) data.name = *name;
    if (nProps >= 0) data.properties.emplace();
    for (auto& g : ps)
    {
        StructPropertyData p;
        if (g.name) p.name = *g.name;
        if (g.tag) p.tag = *g.tag;
        if (g.key) p.isKey = *g.key;
        if (g.type) p.type = *g.type;
        data.properties->push_back(p);
    }
    StructD want{ name.value_or(""), 0, {} };
    if (flags == 1) { data.flags = DotsStructFlags{ .cached = true, .internal = false }; want.flags = 1; }
    if (flags == 2) { data.flags.emplace(); }
    if (flags == 3) { data.flags = DotsStructFlags{ .cached = true, .persistent = true, .cleanup = true, .local = true, .substructOnly = true }; want.flags = 61; }
    for (auto& g : ps) want.props.push_back({ g.name.value_or(""), g.tag.value_or(0), g.key.value_or(false), g.type.value_or("") });
    std::string where = "type " + (name ? (name->size() > 20 ? "<long>" : *name) : std::string("-")) + (nProps < 0 ? " without properties" : "") ;
    for (auto& g : ps) where += " " + show(g);
    where += " flags " + std::to_string(flags);
    vh::setNote(where);
    ch.note(where);
    bool existing = name == "VLeaf" || name == "DynStruct" || name == "DotsHeader";
    if (nProps < 0) v = vRefuse;
    if (!name) v = vRefuse;
    else if (name == "DynEnum" || name == "int32" || name == "vector<int32>") v = vRefuse;
    else if (name == "" || name == "vector<DynStruct>") v = worst(v, vEither);
    StructD old;
    if (existing) { old = describe(own.getStructType(*name)); v = vAccept; }

    std::string what;
    bool ok = tell(own, { rawPacket(data) }, &what);
    vh::checkF(v != vAccept || ok, [&] { return where + " was refused: " + what; });
    vh::checkF(v != vRefuse || !ok, [&] { return where + " was accepted"; });
    if (!ok)
    {
        if (name && name != "DynEnum" && name->find("int32") == std::string::npos && name != "vector<DynStruct>") vh::check(existing || !own.hasType(*name), where + " was refused but registered");
    }
    else if (existing) vh::check(same(describe(own.getStructType(*name)), old), where + " changed an existing type");
    else
    {
        auto* d = own.findStructType(*name);
        vh::check(d != nullptr, where + " was not registered");
        if (v == vAccept) vh::checkF(same(describe(*d), want), [&] { return where + " was rebuilt as " + show(describe(*d)); });
        exercise(*d, where, v == vAccept && judgeUse);
        if (v == vAccept)
        {
            io::DescriptorConverter conv{ own };
            StructD back = describe(readStruct(conv(*d)));
            vh::checkF(same(back, want), [&] { return where + " is described again as " + show(back); });
        }
    }
    // the registry still serves
    exercise(own.getStructType("DynStruct"), where + "; afterwards DynStruct", true);
    vh::check(own.size() >= before, where + ": types were lost");
    vh::state(vh::hashStr(where));
    vh::outcome(vh::mix(ok, v));
}

// every description of an enum with up to two elements of the alphabet
SCENARIO(enums)
{
    Registry own{ std::nullopt, Registry::StaticTypePolicy::InternalOnly };
    own.registerType(const_cast<StructDescriptor&>(st("VLeaf")), false);
    auto name = ch.of(std::vector<std::optional<std::string>>{ "Fresh", std::nullopt, "", "VLeaf", "int32", "vector<int32>" }, "name");
    int n = ch.choose(4, "number of elements") - 1;
    EnumDescriptorData data;
    if (name) data.name = *name;
    if (n >= 0) data.elements.emplace();
    Verdict v = vAccept;
    std::string where = "enum " + name.value_or("-") + (n < 0 ? " without elements" : "");
    std::vector<std::pair<std::string, std::pair<int, uint32_t>>> want;
    for (int i = 0; i < n; ++i)
    {
        int value = i * 5 - 3; std::string en(1, static_cast<char>('a' + i)); uint32_t tag = i + 1;
        EnumElementDescriptor e;
        int odd = ch.choose(i == 0 ? 5 : 8, "oddity");
        if (odd == 1) { value = INT32_MIN; tag = UINT32_MAX; }
        if (odd == 5) { value = want[0].second.first; v = worst(v, vEither); }
        if (odd == 6) { en = want[0].first; v = worst(v, vEither); }
        if (odd == 7) { tag = want[0].second.second; v = worst(v, vEither); }
        if (odd != 2) e.enum_value = value; else v = vRefuse;
        if (odd != 3) e.name = en; else v = vRefuse;
        if (odd != 4) e.tag = tag; else v = vRefuse;
        where += " (" + (odd == 3 ? "-" : en) + ", " + (odd == 2 ? "-" : std::to_string(value)) + ", " + (odd == 4 ? "-" : std::to_string(tag)) + ")";
        data.elements->push_back(e);
        want.push_back({ en, { value, tag } });
    }
    if (n == 0) v = worst(v, vEither);
    if (n < 0 || !name || name == "VLeaf" || name == "int32" || name == "vector<int32>") v = vRefuse;
    else if (name == "") v = worst(v, vEither);
    vh::setNote(where);
    ch.note(where);
    std::string what;
    bool ok = tell(own, { rawPacket(data) }, &what);
    vh::checkF(v != vAccept || ok, [&] { return where + " was refused: " + what; });
    vh::checkF(v != vRefuse || !ok, [&] { return where + " was accepted"; });
    if (ok)
    {
        auto* e = own.findEnumType(*name);
        vh::check(e != nullptr, where + " was not registered");
        if (v == vAccept) vh::check(describe(*e) == want, where + " was rebuilt differently");
        StructDescriptorData user{ .name = "User", .properties = vector_t<StructPropertyData>{ StructPropertyData{ .name = "k", .tag = 1u, .isKey = true, .type = *name }, StructPropertyData{ .name = "v", .tag = 2u, .isKey = false, .type = "vector<" + *name + ">" } },
            .flags = DotsStructFlags{ .cached = true } };
        bool used = tell(own, { rawPacket(user) }, &what);
        vh::checkF(v != vAccept || used, [&] { return where + ": it could not be used: " + what; });
        if (used) exercise(own.getStructType("User"), where, v == vAccept);
    }
    exercise(own.getStructType("VLeaf"), where + "; afterwards VLeaf", true);
    vh::state(vh::hashStr(where));
    vh::outcome(vh::mix(ok, v));
}

// what a host answers to a request for descriptions
SCENARIO(requests)
{
    HostTransceiver host{ "host", sim::ioc(), Registry::StaticTypePolicy::InternalOnly };
    auto* listener = static_cast<sim::SimListener*>(&host.listen(std::make_unique<sim::SimListener>()));
    static const std::vector<std::string> types{ "VPair", "VNode", "VRec", "VUncached" };
    std::set<std::string> known;
    for (auto& t : types) if (ch.flag("known")) { host.registry().registerType(const_cast<StructDescriptor&>(st(t)), false); depsOf(st(t), known); }
    auto link = std::make_shared<sim::Link>();
    listener->accept(io::make_channel<sim::SimChannel>(link, 0));
    link->push(1, sim::encode(DotsMsgConnect{ .clientName = "guest", .preloadCache = true }));
    link->push(1, sim::encode(DotsMsgConnect{ .preloadClientFinished = true }));
    drain(*link, 0);
    std::string where = "known:";
    for (auto& k : known) where += " " + k;
    std::set<std::string> all, mustSoFar;
    int n = vh::bound(2, 3);
    size_t seen = link->sent[1].size();
    static const std::vector<std::vector<std::string>> sets{ {}, { "VPair" }, { "VRec", "NoSuchType" }, { "VLeaf", "VPair" }, { "VNode", "VPair", "VRec", "VUncached", "VLeaf" } };
    for (int i = 0; i < n; ++i)
    {
        auto white = ch.choose(6, "whitelist"), black = i == 0 ? ch.choose(6, "blacklist") : ch.choose(2, "blacklist");
        DotsDescriptorRequest req;
        std::set<std::string> w, b;
        if (white) { req.whitelist.emplace(); for (auto& x : sets[white - 1]) { req.whitelist->push_back(x); w.insert(x); } }
        if (black) { req.blacklist.emplace(); for (auto& x : sets[black - 1]) { req.blacklist->push_back(x); b.insert(x); } }
        where += "; request +" + std::to_string(white) + " -" + std::to_string(black);
        link->push(1, sim::encode(req));
        drain(*link, 0);
        std::set<std::string> must;
        for (auto& k : known) if (staticRegistry().findStructType(k) && (w.empty() || w.count(k)) && !b.count(k)) depsOf(st(k), must);
        bool end = false;
        for (; seen < link->sent[1].size(); ++seen)
        {
            auto& p = link->sent[1][seen];
            vh::check(!end, where + ": something followed the end of the answer: " + p.type);
            if (p.isType())
            {
                std::string t = p.b(1)->s;
                vh::check(all.insert(t).second, where + ": " + t + " was described again");
                vh::check(must.count(t), where + ": " + t + " was described without having been asked for");
            }
            else
            {
                vh::check(p.is("DotsCacheInfo"), where + ": the answer contains " + p.type);
                size_t pos = 0;
                MV m = cref::structure(cref::decode(cref::bytes(p.data.begin(), p.data.end()), pos), st("DotsCacheInfo"));
                AnyStruct info = make(st("DotsCacheInfo"), m);
                end = info.to<DotsCacheInfo>().endDescriptorRequest == true;
                vh::check(end, where + ": the end of the answer is not marked");
            }
        }
        vh::check(end, where + ": the answer did not end");
        for (auto& m : must) vh::check(all.count(m), where + ": " + m + " was not described");
        vh::transition();
        vh::state(vh::hashStr(where));
    }
    vh::outcome(all.size());
}

// descriptions published by one guest reach the others that want them, preceded by what they depend on
SCENARIO(relayed)
{
    HostTransceiver host{ "host", sim::ioc(), Registry::StaticTypePolicy::InternalOnly };
    auto* listener = static_cast<sim::SimListener*>(&host.listen(std::make_unique<sim::SimListener>()));
    sim::link_t l[2] = { std::make_shared<sim::Link>(), std::make_shared<sim::Link>() };
    for (auto& x : l)
    {
        listener->accept(io::make_channel<sim::SimChannel>(x, 0));
        x->push(1, sim::encode(DotsMsgConnect{ .clientName = "guest", .preloadCache = true }));
        x->push(1, sim::encode(DotsMsgConnect{ .preloadClientFinished = true }));
        drain(*x, 0);
    }
    // the writer describes what it uses through a channel of its own
    auto carrier = std::make_shared<sim::Link>();
    End writer{ staticRegistry(), carrier, 1 };
    std::vector<std::string> order;
    int n = vh::bound(2, 3), joinAt = ch.choose(8, "joined");
    bool join = ch.flag("wants types"), asks = ch.flag("asks for types");
    std::string where, reads = ch.of(std::vector<std::string>{ "VRec", "VPair" }, "reads");
    std::vector<sim::Packet> todo;
    for (int i = 0; i < n; ++i)
    {
        std::string t = ch.of(std::vector<std::string>{ "VRec", "VPair", "VNode" }, "written");
        writer.c->transmit(*make(st(t), valueOf(st(t), 0)));
        where += " " + t;
    }
    for (auto& p : carrier->q[0]) todo.push_back(p);
    size_t at = std::min<size_t>(joinAt, todo.size());
    where += ", the reader of " + reads + (join ? " wants types," : "") + (asks ? " asks for types," : "") + " at " + std::to_string(at);
    for (size_t i = 0; i <= todo.size(); ++i)
    {
        if (i == at)
        {
            if (join) for (const char* t : { "StructDescriptorData", "EnumDescriptorData" }) l[1]->push(1, sim::encode(DotsMember{ .groupName = t, .event = DotsMemberEvent::join }));
            if (asks) l[1]->push(1, sim::encode(DotsDescriptorRequest{}));
            l[1]->push(1, sim::encode(DotsMember{ .groupName = reads, .event = DotsMemberEvent::join }));
            drain(*l[1], 0);
        }
        if (i == todo.size()) break;
        l[0]->push(1, todo[i]);
        drain(*l[0], 0);
        vh::transition();
    }
    for (int k = 0; k < 2; ++k) vh::check(l[k]->end[0] != nullptr, where + ": guest " + std::to_string(k) + " was dropped");
    // types may be repeated for those who want them, but nothing comes before what it needs
    std::set<std::string> described;
    for (auto& p : l[1]->sent[1])
    {
        if (p.eof) continue;
        std::set<std::string> need;
        std::string what = p.type;
        if (p.isType()) { what = p.b(1)->s; if (p.type == "StructDescriptorData") depsOf(st(what), need); need.erase(what); }
        else if (join && (asks || at == 0)) depsOf(st(p.type), need);
        for (auto& x : need) vh::check(described.count(x), where + ": " + what + " reached the reader before the description of " + x);
        if (p.isType()) described.insert(what);
    }
    std::set<std::string> must;
    if (join) for (size_t i = at; i < todo.size(); ++i) if (todo[i].isType()) must.insert(todo[i].b(1)->s);
    if (asks) for (size_t i = 0; i < at; ++i) if (todo[i].type == "StructDescriptorData") must.insert(todo[i].b(1)->s);
    for (auto& m : must) vh::check(described.count(m), where + ": the description of " + m + " did not reach the reader");
    vh::state(vh::hashStr(where));
    vh::outcome(described.size());
}

VH_MAIN
