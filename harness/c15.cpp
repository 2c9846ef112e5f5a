// C15: one peer's misbehaviour is that peer's problem.
#include "sim.h"
#include "domains.h"
#include <dots/GuestTransceiver.h>
#include <dots/HostTransceiver.h>
#include <VAll.dots.h>
#include <VRec.dots.h>
#include <VPair.dots.h>
#include <VTransient.dots.h>
#include <VUncached.dots.h>
#include <VSubOnly.dots.h>
#include <VInternalT.dots.h>
#include <DotsMember.dots.h>
#include <DotsMsgHello.dots.h>
#include <DotsMsgConnect.dots.h>
#include <DotsMsgConnectResponse.dots.h>
#include <DotsMsgError.dots.h>
#include <DotsDescriptorRequest.dots.h>
#include <DotsCacheInfo.dots.h>
#include <DotsClearCache.dots.h>
#include <DotsEcho.dots.h>
#include <DotsTransportHeader.dots.h>
#include <DotsClient.dots.h>
#include <DotsCloneInformation.dots.h>

using namespace dx;
using namespace dots;
using vh::Chooser;
using sim::Packet;

namespace
{
    template <typename... Ts> void use() { ((void)Ts::_Descriptor(), ...); }
    std::string S(const MV& m) { return str(m); }

    Packet packet(const DotsHeader& h, const std::vector<uint8_t>& data, const std::string& type = "?")
    {
        Packet p;
        p.type = type;
        p.head = p.body = MV::St({});
        auto b = to_cbor(h);
        p.hdr.assign(b.begin(), b.end());
        p.data = data;
        return p;
    }
    std::vector<uint8_t> cbor(const Struct& s) { auto d = to_cbor(s); return { d.begin(), d.end() }; }
    DotsHeader header(const Struct& s, bool remove = false) { return DotsHeader{ .typeName = s._descriptor().name(), .sentTime = timepoint_t{}, .attributes = s._validProperties(), .removeObj = remove }; }
    Packet ok(const Struct& s, bool remove = false) { return packet(header(s, remove), cbor(s), s._descriptor().name()); }
    Packet with(const Struct& s, std::function<void(DotsHeader&)> f, bool remove = false) { auto h = header(s, remove); f(h); return packet(h, cbor(s), s._descriptor().name()); }
    StructDescriptorData described(const std::string& name, std::vector<std::tuple<std::string, uint32_t, bool, std::string>> ps, bool cached = true)
    {
        StructDescriptorData d{ .name = name, .flags = DotsStructFlags{ .cached = cached } };
        d.properties.emplace();
        for (auto& [n, t, k, ty] : ps) d.properties->push_back(StructPropertyData{ .name = n, .tag = t, .isKey = k, .type = ty });
        return d;
    }

    struct Hostile { std::string name; std::vector<Packet> packets; };
    // everything a peer might do wrong (or merely unusually) with instances of its own
    const std::vector<Hostile>& hostile()
    {
        static std::vector<Hostile> v = [] {
            std::vector<Hostile> r;
            auto add = [&](const std::string& n, std::vector<Packet> p) { r.push_back({ n, std::move(p) }); };
            VPair pair{ .id = 100, .value = "h", .extra = 1.5 };
            VPair noKey{ .value = "h" };
            VUncached un{ .id = 100, .value = "h" };
            VTransient tr{ .id = 100, .value = "h" };
            add("cached without attributes", { with(pair, [](auto& h) { h.attributes.reset(); }) });
            add("uncached without attributes", { with(un, [](auto& h) { h.attributes.reset(); }) });
            add("removal without attributes", { ok(pair), with(pair, [](auto& h) { h.attributes.reset(); }, true) });
            add("uncached, key not in the attributes", { with(un, [](auto& h) { h.attributes = VUncached::value_p; }) });
            add("cached, key not in the attributes", { with(pair, [](auto& h) { h.attributes = VPair::value_p; }) });
            add("empty attributes", { with(un, [](auto& h) { h.attributes = property_set_t{}; }) });
            add("removal, key not in the attributes", { ok(pair), with(pair, [](auto& h) { h.attributes = property_set_t{}; }, true) });
            add("key not in the body", { with(noKey, [](auto& h) { h.attributes = VPair::id_p + VPair::value_p; }) });
            add("key nowhere", { ok(noKey) });
            add("uncached, key nowhere", { ok(VUncached{ .value = "h" }) });
            add("removal without key", { ok(noKey, true) });
            add("attributes beyond the body", { with(VPair{ .id = 100 }, [](auto& h) { h.attributes = VPair::id_p + VPair::value_p + VPair::extra_p; }) });
            add("body beyond the attributes", { with(pair, [](auto& h) { h.attributes = VPair::id_p + VPair::extra_p; }) });
            add("alien attributes", { with(pair, [](auto& h) { h.attributes = property_set_t{ property_set_t::All }; }) });
            add("alien attributes, uncached", { with(un, [](auto& h) { h.attributes = property_set_t{ property_set_t::All }; }) });
            add("alien attributes, removal", { ok(pair), with(pair, [](auto& h) { h.attributes = property_set_t{ property_set_t::All }; }, true) });
            add("removal of the unknown", { ok(VPair{ .id = 777 }, true) });
            add("removal twice", { ok(pair), ok(pair, true), ok(pair, true) });
            add("removal of an uncached", { ok(un, true) });
            for (const char* n : { "NoSuchType", "", "VEnum", "vector<VLeaf>", "int32", "vector<int32>", "VPair ", "VSubOnly" }) add(std::string("type name ") + n, { with(pair, [&](auto& h) { h.typeName = n; }) });
            add("no type name", { with(pair, [](auto& h) { h.typeName.reset(); }) });
            add("a nul in the type name", { with(pair, [](auto& h) { h.typeName = std::string("VPair\0", 6); }) });
            { Packet p = ok(pair); p.hdr = { 0xff, 0x00 }; add("garbage header", { p }); p = ok(pair); p.hdr.clear(); add("no header", { p }); p.hdr = { 0xa0 }; add("empty header", { p }); }
            { Packet p = ok(pair); p.data.resize(p.data.size() / 2); add("half a body", { p }); p = ok(pair); p.data.clear(); add("no body", { p }); p.data = { 0xa0 }; add("empty body", { p }); p.data = { 0x9f, 0x9f, 0x9f }; add("garbage body", { p });
              p = ok(pair); p.data.push_back(0); add("overlong body", { p });
              p = ok(pair); p.data = { 0xa2, 0x01, 0x18, 0x64, 0x18, 0x1f }; p.data.insert(p.data.end(), 5000, 0x81); p.data.push_back(0); add("deep unknown property", { p }); }
            add("sender claimed", { with(pair, [](auto& h) { h.sender = 1u; }), with(pair, [](auto& h) { h.sender = 2u; h.isFromMyself = true; }) });
            add("times claimed", { with(pair, [](auto& h) { h.sentTime.reset(); h.serverSentTime = timepoint_t{ std::chrono::seconds{ 1 } }; }), with(un, [](auto& h) { h.sentTime.reset(); }) });
            add("join the unknown", { ok(DotsMember{ .groupName = "NoSuchType", .event = DotsMemberEvent::join }) });
            for (const char* n : { "", "DotsMember", "DotsMsgError", "DotsHeader", "StructDescriptorData", "DotsCacheInfo", "VEnum", "vector<VPair>" }) add(std::string("join ") + n, { ok(DotsMember{ .groupName = n, .event = DotsMemberEvent::join }) });
            add("join twice", { ok(DotsMember{ .groupName = "VPair", .event = DotsMemberEvent::join }), ok(DotsMember{ .groupName = "VPair", .event = DotsMemberEvent::join }) });
            add("leave", { ok(DotsMember{ .groupName = "VPair", .event = DotsMemberEvent::leave }), ok(DotsMember{ .groupName = "VPair", .event = DotsMemberEvent::leave }) });
            add("leave for another", { ok(DotsMember{ .groupName = "VPair", .event = DotsMemberEvent::leave, .client = 2u }) });
            add("kill", { ok(DotsMember{ .groupName = "VPair", .event = DotsMemberEvent::kill }) });
            add("membership of no group", { ok(DotsMember{ .event = DotsMemberEvent::join }) });
            add("membership without event", { ok(DotsMember{ .groupName = "VPair" }) });
            add("membership event 77", { packet(DotsHeader{ .typeName = "DotsMember", .attributes = DotsMember::groupName_p + DotsMember::event_p }, { 0xa2, 0x01, 0x65, 'V', 'P', 'a', 'i', 'r', 0x02, 0x18, 77 }) });
            add("descriptor request", { ok(DotsDescriptorRequest{}), ok(DotsDescriptorRequest{ .whitelist = vector_t<string_t>{ "NoSuchType" }, .blacklist = vector_t<string_t>{ "" } }) });
            add("echo", { ok(DotsEcho{ .request = true, .identifier = 1u, .data = "x" }), ok(DotsEcho{ .request = false }), ok(DotsEcho{}) });
            add("clear nothing", { ok(DotsClearCache{ .typeNames = vector_t<string_t>{ "NoSuchType", "", "DotsMember" } }) });
            add("clear no types", { ok(DotsClearCache{}) });
            add("cache info", { ok(DotsCacheInfo{ .typeName = "VPair", .startTransmission = true }), ok(DotsCacheInfo{ .typeName = "VPair", .endTransmission = true, .endDescriptorRequest = true }) });
            add("hello", { ok(DotsMsgHello{ .serverName = "h", .authChallenge = 1 }) });
            add("connect", { ok(DotsMsgConnect{ .clientName = "h", .preloadCache = true }) });
            add("connect anonymously", { ok(DotsMsgConnect{ .preloadCache = false }) });
            add("finish preloading", { ok(DotsMsgConnect{ .preloadClientFinished = true }) });
            add("connect response", { ok(DotsMsgConnectResponse{ .clientId = 1u, .accepted = true, .preload = true }) });
            add("goodbye", { ok(DotsMsgError{ .errorCode = 0 }) });
            add("error", { ok(DotsMsgError{ .errorCode = 5, .errorText = "x" }) });
            add("empty error", { ok(DotsMsgError{}) });
            add("header instance", { ok(DotsHeader{ .typeName = "VPair" }), ok(DotsTransportHeader{ .payloadSize = 1u << 30 }) });
            add("client instance", { ok(DotsClient{ .id = 2u, .name = "h", .running = false }) });
            add("clone information", { ok(DotsCloneInformation{ .lastOperation = DotsMt::remove }) });
            add("internal instance", { ok(VInternalT{}) });
            add("redefinition", { ok(described("VPair", { { "id", 1, true, "string" } })), ok(described("DotsHeader", { { "id", 1, true, "string" } })), ok(described("int32", { { "id", 1, true, "string" } })) });
            add("redefinition uncached", { ok(described("VPair", { { "id", 1, true, "int32" }, { "value", 2, false, "int32" } }, false)), ok(pair) });
            add("redefinition of an enum", { ok(EnumDescriptorData{ .name = "VPair", .elements = vector_t<EnumElementDescriptor>{ EnumElementDescriptor{ .enum_value = 1, .name = "a", .tag = 1u } } }) });
            add("type removed", { ok(described("VPair", {}), true) });
            add("type without attributes", { with(described("Own2", { { "id", 1, true, "int32" } }), [](auto& h) { h.attributes.reset(); }) });
            add("type of its own", { ok(described("Own", { { "id", 1, true, "int32" }, { "s", 2, false, "string" } })), with(pair, [](auto& h) { h.typeName = "Own"; h.attributes = property_set_t::FromIndex(1) + property_set_t::FromIndex(2); }), ok(DotsMember{ .groupName = "Own", .event = DotsMemberEvent::join }), with(pair, [](auto& h) { h.typeName = "Own"; }, true) });
            add("type without keys", { ok(described("OwnNoKey", { { "id", 1, false, "int32" } })), with(pair, [](auto& h) { h.typeName = "OwnNoKey"; h.attributes = property_set_t::FromIndex(1); }), with(pair, [](auto& h) { h.typeName = "OwnNoKey"; }, true) });
            add("type without properties", { ok(described("OwnEmpty", {})), with(pair, [](auto& h) { h.typeName = "OwnEmpty"; }), with(pair, [](auto& h) { h.typeName = "OwnEmpty"; }, true) });
            add("impossible type", { ok(described("OwnBad", { { "id", 40, true, "int32" } })) });
            add("type of missing types", { ok(described("OwnMissing", { { "id", 1, true, "Missing" } })) });
            add("enum without elements", { ok(EnumDescriptorData{ .name = "OwnEnum" }) });
            add("empty type description", { ok(StructDescriptorData{}) });
            add("empty enum description", { ok(EnumDescriptorData{}) });
            add("substruct only", { ok(VSubOnly::_Descriptor().propertyDescriptors().empty() ? static_cast<const Struct&>(VSubOnly{}) : static_cast<const Struct&>(VSubOnly{})) });
            add("cleanup", { ok(tr) });
            add("cleanup, kept", { ok(tr), ok(tr, true), ok(tr) });
            { Packet p; p.eof = true; add("end", { p }); }
            { Packet p; p.eof = true; add("cleanup, end", { ok(tr), p }); }
            return r;
        }();
        return v;
    }

    struct Seen
    {
        std::string type; bool remove; uint32_t sender; MV transmitted; uint32_t attributes;
        bool operator == (const Seen& o) const { return type == o.type && remove == o.remove && sender == o.sender && attributes == o.attributes && eq(transmitted, o.transmitted); }
        std::string show() const { return (remove ? "removal of " : "") + type + " " + str(transmitted) + " from " + std::to_string(sender) + " attributes " + std::to_string(attributes); }
    };

    const char* kTypes[] = { "VPair", "VUncached", "VTransient" };
    int64_t keyOf(const MV& m) { auto it = m.p.find(1); return it == m.p.end() ? -1 : it->second.i; }

    struct Guest
    {
        std::unique_ptr<GuestTransceiver> t;
        sim::link_t link = std::make_shared<sim::Link>();
        std::vector<Subscription> subs;
        std::vector<Seen> log;
        std::vector<int> transitions;
        uint32_t id = 0;
        void open(HostTransceiver&, sim::SimListener& l, const std::string& name, uint32_t& lastPeer)
        {
            t = std::make_unique<GuestTransceiver>(name, sim::ioc(), Registry::StaticTypePolicy::All, Transceiver::transition_handler_t{ [this](const Connection& c, std::exception_ptr) { transitions.push_back(static_cast<int>(c.state())); } });
            type::DescriptorMap types;
            for (auto* d : std::initializer_list<const StructDescriptor*>{ &VPair::_Descriptor(), &VUncached::_Descriptor(), &VTransient::_Descriptor() }) types.emplace(const_cast<StructDescriptor&>(*d));
            t->open(std::move(types), {}, std::nullopt, io::make_channel<sim::SimChannel>(link, 1));
            l.accept(io::make_channel<sim::SimChannel>(link, 0));
            id = lastPeer;
        }
        template <typename T> void watch()
        {
            subs.push_back(t->subscribe<T>([this](const Event<T>& e) {
                log.push_back({ T::_Descriptor().name(), e.header().removeObj == true, e.header().sender.isValid() ? *e.header().sender : 0u, readStruct(e.transmitted()), e.header().attributes->toValue() });
            }));
        }
        void watchAll() { watch<VPair>(); watch<VUncached>(); watch<VTransient>(); }
        ~Guest() { subs.clear(); t.reset(); }
    };

    std::map<int64_t, MV> contentOf(const Container<>& c) { std::map<int64_t, MV> r; for (auto& [i, info] : c) { (void)info; MV m = readStruct(*i); r.emplace(keyOf(m), m); } return r; }
    std::map<int64_t, MV> content(const Transceiver& t, const std::string& type)
    {
        auto* d = t.registry().findStructType(type);
        auto* c = d ? t.pool().find(*d) : nullptr;
        return c ? contentOf(*c) : std::map<int64_t, MV>{};
    }
    std::string show(const std::map<int64_t, MV>& m) { std::string r = "["; for (auto& [k, v] : m) r += " " + str(v); return r + " ]"; }
    bool same(const std::map<int64_t, MV>& a, const std::map<int64_t, MV>& b)
    {
        if (a.size() != b.size()) return false;
        for (auto& [k, v] : a) if (!b.count(k) || !eq(b.at(k), v)) return false;
        return true;
    }

    struct World
    {
        uint32_t lastPeer = 0;
        std::map<uint32_t, int> closed;
        std::unique_ptr<HostTransceiver> host;
        sim::SimListener* listener;
        Guest g[3];
        std::vector<sim::link_t> raw;
        std::vector<Seen> expected; // what the innocent guests publish
        std::string where;
        bool piled = false;
        explicit World(Registry::StaticTypePolicy p)
        {
            use<VPair, VUncached, VTransient, VRec, VSubOnly, VInternalT>();
            host = std::make_unique<HostTransceiver>("host", sim::ioc(), p, Transceiver::transition_handler_t{ [this](const Connection& c, std::exception_ptr) {
                lastPeer = c.peerId();
                if (c.state() == DotsConnectionState::closed) ++closed[c.peerId()];
            } });
            listener = static_cast<sim::SimListener*>(&host->listen(std::make_unique<sim::SimListener>()));
        }
        ~World() { for (auto& x : g) { x.subs.clear(); x.t.reset(); } host.reset(); }
        void step(const sim::link_t& l, int side) { vh::transition(); l->end[side]->deliver(); }
        bool can(const sim::link_t& l, int side) { return l->end[side] && l->end[side]->armed() && !l->q[side].empty(); }
        void drain()
        {
            for (bool more = true; more;)
            {
                more = false;
                for (auto& x : g) for (int s : { 0, 1 }) if (can(x.link, s)) { step(x.link, s); more = true; }
                for (auto& l : raw) if (can(l, 0)) { step(l, 0); more = true; }
            }
        }
        void start(bool late = false)
        {
            for (int i : { 0, 1 })
            {
                g[i].open(*host, *listener, i ? "b" : "a", lastPeer);
                drain();
                if (!late) { g[i].watchAll(); drain(); }
            }
        }
        sim::link_t accept(int phase)
        {
            auto l = std::make_shared<sim::Link>();
            listener->accept(io::make_channel<sim::SimChannel>(l, 0));
            raw.push_back(l);
            if (phase >= 1) l->push(1, ok(DotsMsgConnect{ .clientName = "h", .preloadCache = true }));
            if (phase >= 1) for (auto n : kTypes) l->push(1, ok(DotsMember{ .groupName = n, .event = DotsMemberEvent::join }));
            if (phase >= 2) l->push(1, ok(DotsMsgConnect{ .preloadClientFinished = true }));
            drain();
            return l;
        }
        static constexpr int nLegit = 6;
        void legit(int k)
        {
            auto pub = [&](int i, const Struct& s, bool remove = false) {
                g[i].t->publish(s, std::nullopt, remove);
                expected.push_back({ s._descriptor().name(), remove, g[i].id, readStruct(s), s._validProperties().toValue() });
            };
            switch (k)
            {
                case 0: pub(0, VPair{ .id = 1, .value = "a" }); break;
                case 1: pub(1, VPair{ .id = 2, .value = "b", .extra = 0.5 }); break;
                case 2: pub(0, VUncached{ .id = 1, .value = "u" }); break;
                case 3: pub(1, VPair{ .id = 1, .extra = 2.5 }); break;
                case 4: pub(0, VPair{ .id = 2 }, true); break;
                case 5: pub(1, VTransient{ .id = 1, .value = "t" }); break;
            }
        }
        void judge()
        {
            drain();
            for (int i : { 0, 1 })
            {
                vh::check(closed[g[i].id] == 0 && g[i].t->connected(), where + ": an uninvolved guest lost its connection");
                std::vector<Seen> got;
                for (auto& s : g[i].log) if (keyOf(s.transmitted) < 100) got.push_back(s);
                // piled up, the changes of the two guests reach the host in an order of its own
                if (piled)
                {
                    if (i == 1) { std::vector<Seen> other; for (auto& s : g[0].log) if (keyOf(s.transmitted) < 100) other.push_back(s); vh::check(got == other, where + ": the guests saw the changes in different orders"); }
                    std::stable_sort(got.begin(), got.end(), [](auto& a, auto& b) { return a.sender < b.sender; });
                    std::stable_sort(expected.begin(), expected.end(), [](auto& a, auto& b) { return a.sender < b.sender; });
                }
                for (size_t k = 0; k < std::min(got.size(), expected.size()); ++k) vh::checkF(got[k] == expected[k], [&] { return where + ": guest " + std::to_string(i) + " saw " + got[k].show() + " instead of " + expected[k].show(); });
                vh::check(got.size() == expected.size(), where + ": guest " + std::to_string(i) + " saw " + std::to_string(got.size()) + " of " + std::to_string(expected.size()) + " changes");
            }
            for (auto& [id, n] : closed) vh::check(n <= 1, where + ": the end of a connection was reported " + std::to_string(n) + " times");
            for (auto& l : raw) vh::check((l->end[0] == nullptr) == l->gone[0], where + ": inconsistent");
            // someone new
            g[2].open(*host, *listener, "c", lastPeer);
            drain();
            vh::check(g[2].t->connected(), where + ": a new guest could not connect");
            g[2].watchAll();
            g[2].t->publish(DotsDescriptorRequest{});
            drain();
            bool end = false;
            for (auto& p : g[2].link->sent[1]) if (p.is("DotsCacheInfo") && p.b(4)) end = true;
            vh::check(end, where + ": a descriptor request was not answered");
            vh::check(g[2].t->connected(), where + ": a new guest lost its connection");
            for (auto n : { "VPair", "VUncached" }) host->publish(*make(host->registry().getStructType(n), MV::St({ { 1, MV::Int(Type::int32, 50) }, { 2, MV::S("host") } })));
            drain();
            for (int i : { 0, 1, 2 })
            {
                vh::check(closed[g[i].id] == 0 && g[i].t->connected(), where + ": an uninvolved guest lost its connection in the end");
                auto& l = g[i].log;
                vh::check(l.size() >= 2 && l[l.size() - 1].type == "VUncached" && keyOf(l[l.size() - 1].transmitted) == 50 && keyOf(l[l.size() - 2].transmitted) == 50, where + ": the host's change did not reach guest " + std::to_string(i));
                for (auto n : { "VPair", "VTransient" })
                {
                    auto h = content(*host, n), mine = content(*g[i].t, n);
                    vh::checkF(same(h, mine), [&] { return where + ": guest " + std::to_string(i) + " holds " + show(mine) + ", the host " + show(h); });
                }
            }
            vh::outcome(vh::hashStr(show(content(*host, "VPair")) + show(content(*host, "VTransient"))));
            vh::state(vh::hashStr(where));
        }
    };
    const char* phases[] = { "before connecting", "while subscribing", "connected" };
}

// one misbehaviour at every point
SCENARIO(one)
{
    auto& h = hostile()[ch.choose(static_cast<int>(hostile().size()), "misbehaviour")];
    int phase = ch.choose(3, "phase"), at = ch.choose(World::nLegit + 1, "at");
    World w(ch.flag("all types") ? Registry::StaticTypePolicy::All : Registry::StaticTypePolicy::InternalOnly);
    bool piled = w.piled = ch.flag("piled up");
    w.where = h.name + ", " + phases[phase];
    ch.note(w.where + " before change " + std::to_string(at));
    w.start();
    auto l = w.accept(phase);
    for (int k = 0; k <= World::nLegit; ++k)
    {
        if (k == at) { for (auto& p : h.packets) l->push(1, p); if (!piled) w.drain(); }
        if (k < World::nLegit) { w.legit(k); if (!piled) w.drain(); }
    }
    w.judge();
}

// two misbehaviours of one or two peers
SCENARIO(two)
{
    auto& all = hostile();
    auto& h1 = all[ch.choose(static_cast<int>(all.size()), "first")];
    auto& h2 = all[ch.choose(static_cast<int>(all.size()), "second")];
    bool peers = ch.flag("two peers");
    int at = 2 * ch.choose(vh::bound(2, 4), "at");
    World w(Registry::StaticTypePolicy::InternalOnly);
    w.where = h1.name + "; " + h2.name + (peers ? ", two peers" : "");
    ch.note(w.where + " at " + std::to_string(at));
    w.start();
    auto l1 = w.accept(2), l2 = peers ? w.accept(2) : l1;
    for (int k = 0; k <= World::nLegit; ++k)
    {
        if (k == at) { for (auto& p : h1.packets) l1->push(1, p); w.drain(); }
        if (k == at + 1) { for (auto& p : h2.packets) l2->push(1, p); w.drain(); }
        if (k < World::nLegit) { w.legit(k); w.drain(); }
    }
    w.judge();
}

// up to three transports break, each after any number of transmissions, while a misbehaviour is distributed
SCENARIO(broken)
{
    World w(Registry::StaticTypePolicy::InternalOnly);
    int n = ch.choose(3, "peers") + 1;
    bool once = n < 3 && ch.flag("once");
    w.where = std::to_string(n) + (once ? " lossy" : " broken");
    w.start();
    std::vector<sim::link_t> ls;
    for (int i = 0; i < n; ++i)
    {
        auto l = w.accept(2);
        int after = ch.choose(vh::bound(4, 6), "after");
        l->failFrom[0] = l->count[1] + after;
        if (once) l->failTimes[0] = 1;
        w.where += " after " + std::to_string(after);
        ls.push_back(l);
    }
    auto& h = hostile()[ch.choose(static_cast<int>(hostile().size()), "misbehaviour")];
    w.where += "; " + h.name;
    ch.note(w.where);
    // each leaves something behind
    ls[0]->push(1, ok(VTransient{ .id = 101, .value = "h" }));
    w.drain();
    for (int k = 0; k < World::nLegit; ++k)
    {
        if (k == 1) { for (auto& p : h.packets) ls.back()->push(1, p); w.drain(); }
        w.legit(k);
        w.drain();
        for (auto& l : ls) vh::check(l->stuck[0] == 0 || l->gone[0], w.where + ": a guest that missed a transmission was kept");
    }
    w.judge();
}

// a host that misbehaves: its guest carries on, or reports the end once, and can go elsewhere
SCENARIO(hosts)
{
    auto& all = hostile();
    int count = vh::bound(2, 2);
    std::string where;
    Guest g;
    int phase = ch.choose(3, "phase");
    g.t = std::make_unique<GuestTransceiver>("a", sim::ioc(), Registry::StaticTypePolicy::All, Transceiver::transition_handler_t{ [&g](const Connection& c, std::exception_ptr) { g.transitions.push_back(static_cast<int>(c.state())); } });
    std::vector<std::string> said;
    auto connect = [&](int phase) {
        g.link = std::make_shared<sim::Link>();
        g.t->open(io::make_channel<sim::SimChannel>(g.link, 1));
        if (phase >= 0) g.link->push(0, ok(DotsMsgHello{ .serverName = "h", .authChallenge = 0 }));
        if (phase >= 1) g.link->push(0, ok(DotsMsgConnectResponse{ .clientId = 7u, .accepted = true, .preload = true }));
        if (phase >= 2) g.link->push(0, ok(DotsMsgConnectResponse{ .preloadFinished = true }));
    };
    auto drain = [&] { while (g.link->end[1] && g.link->end[1]->armed() && !g.link->q[1].empty()) { vh::transition(); g.link->end[1]->deliver(); } };
    auto from = [](const Struct& s) { return with(s, [](auto& h) { h.sender = 9u; }); };
    connect(phase);
    drain();
    if (phase >= 1) g.watchAll();
    where = phases[phase];
    for (int k = 0; k < count; ++k)
    {
        auto& h = all[ch.choose(static_cast<int>(k == 0 || vh::thorough() ? all.size() : 12), "misbehaviour")];
        where += ", " + h.name;
        for (auto& p : h.packets) g.link->push(0, p);
        drain();
    }
    ch.note(where);
    vh::setNote(where);
    bool up = g.t->connected() && g.link->end[1] != nullptr;
    size_t before = g.log.size();
    int closed = static_cast<int>(std::count(g.transitions.begin(), g.transitions.end(), static_cast<int>(DotsConnectionState::closed)));
    vh::check(closed <= 1, where + ": the end was reported " + std::to_string(closed) + " times");
    vh::check(closed == 0 || g.link->end[1] == nullptr, where + ": the end was reported but the channel was kept");
    g.link->push(0, from(VPair{ .id = 1, .value = "x" }));
    g.link->push(0, from(VUncached{ .id = 1, .value = "x" }));
    drain();
    if (up && phase == 2) vh::check(g.log.size() == before + 2 && g.log.back().sender == 9, where + ": a connected guest missed a change");
    if (closed) vh::check(g.log.size() == before, where + ": changes were reported after the end");
    for (auto& s : g.log) (void)s;
    for (auto& p : g.link->sent[0]) (void)p;
    // elsewhere
    if (!closed)
    {
        Packet p; p.eof = true;
        if (g.link->end[1]) { g.link->q[1].push_back(p); drain(); }
    }
    closed = static_cast<int>(std::count(g.transitions.begin(), g.transitions.end(), static_cast<int>(DotsConnectionState::closed)));
    vh::check(closed == 1 && !g.t->connected(), where + ": the end was reported " + std::to_string(closed) + " times in the end");
    g.subs.clear();
    g.log.clear();
    connect(2);
    drain();
    vh::check(g.t->connected(), where + ": a new connection could not be opened");
    g.watchAll();
    bool asked = false;
    for (auto& p : g.link->sent[0]) if (p.is("DotsMember") && p.b(1)->s == "VPair") asked = true;
    vh::check(asked, where + ": the new connection did not join");
    g.link->push(0, with(VPair{ .id = 3, .value = "y" }, [](auto& h) { h.sender = 9u; }));
    drain();
    vh::check(!g.log.empty() && keyOf(g.log.back().transmitted) == 3 && g.t->connected(), where + ": the new connection does not work");
    vh::outcome(vh::mix(up, phase));
    vh::state(vh::hashStr(where));
}

VH_MAIN
