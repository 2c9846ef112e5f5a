// C22: the calls of a guest and of a host, and the services a host offers its guests, against references that predict every message and event.
#include "sim.h"
#include "domains.h"
#include <dots/GuestTransceiver.h>
#include <dots/HostTransceiver.h>
#include <VPair.dots.h>
#include <VTransient.dots.h>
#include <VUncached.dots.h>
#include <VSubOnly.dots.h>
#include <DotsEcho.dots.h>
#include <DotsClearCache.dots.h>
#include <DotsMember.dots.h>
#include <DotsMsgHello.dots.h>
#include <DotsMsgConnect.dots.h>
#include <DotsMsgConnectResponse.dots.h>
#include <DotsMsgError.dots.h>
#include <DotsCacheInfo.dots.h>

using namespace dx;
using namespace dots;
using dots::types::VPair; using dots::types::VTransient; using dots::types::VUncached; using dots::types::VSubOnly;
using sim::Packet;
using vh::Chooser;

namespace
{
    template <typename... Ts> void use() { ((void)Ts::_Descriptor(), ...); }
    using S = std::string;
    std::string yes(bool b) { return b ? "yes" : "no"; }

    // a message as its receiver would describe it
    S line(const S& type, const MV& body, uint32_t attributes, bool remove, int64_t sender, int64_t fromCache = -1)
    {
        return type + " " + str(body) + " attributes " + std::to_string(attributes) + (remove ? " removed" : "") + (sender >= 0 ? " from " + std::to_string(sender) : "") + (fromCache >= 0 ? " cached " + std::to_string(fromCache) : "");
    }
    S line(const Packet& p)
    {
        if (p.eof) return "end";
        auto num = [&](uint32_t t) { auto* v = p.h(t); return v ? int64_t(v->u) : -1; };
        auto* r = p.h(4);
        return line(p.type, p.body, num(3) < 0 ? 0 : uint32_t(num(3)), r && r->i, num(5), num(8));
    }
    uint32_t bits(const MV& m) { uint32_t b = 0; for (auto& [t, v] : m.p) { (void)v; b |= 1u << t; } return b; }
    MV body(const Struct& s, uint32_t attributes) { return mOnly(readStruct(s), attributes); }

    struct Thrown {};
    enum class R { ok, logic, runtime, other };
    const char* names[] = { "returned", "threw a logic error", "threw a runtime error", "threw something" };
    template <typename F>
    R outcomeOf(F&& f)
    {
        try { f(); return R::ok; }
        catch (const std::logic_error&) { return R::logic; }
        catch (const std::runtime_error&) { return R::runtime; }
        catch (...) { return R::other; }
    }
}

// ---- a guest's calls in every state of its connection
namespace
{
    struct GuestWorld
    {
        enum Conn { none, waiting, early, connected };
        std::unique_ptr<GuestTransceiver> t;
        sim::link_t link;
        Conn conn = none;
        bool broken = false, preload = false;
        std::set<S> joined;
        size_t seen = 0;
        std::vector<S> expected;
        std::map<int64_t, MV> held;
        std::vector<S> events, expectedEvents;
        std::vector<std::pair<int, Subscription>> subs; // 0: events, 1: transmissions
        std::vector<int> transitions, expectedTransitions;
        S log;

        GuestWorld()
        {
            use<VPair, VTransient, VUncached, VSubOnly>();
            t = make();
        }
        std::unique_ptr<GuestTransceiver> make()
        {
            return std::make_unique<GuestTransceiver>("me", sim::ioc(), type::Registry::StaticTypePolicy::All, Transceiver::transition_handler_t{ [this](const Connection& c, std::exception_ptr) { transitions.push_back(int(c.state())); } });
        }
        ~GuestWorld() { subs.clear(); t.reset(); }

        // what a transmission leads to
        void send(const S& s) { expected.push_back(s); }
        void closes() { conn = none; joined.clear(); expectedTransitions.push_back(4); broken = false; }
        bool publishes(const Struct& s, uint32_t attributes, bool remove)
        {
            if (broken) { closes(); return false; }
            send(line(s._descriptor().name(), body(s, attributes), attributes, remove, -1));
            return true;
        }
        void joins(const S& name)
        {
            if (joined.count(name)) return;
            types::DotsMember m{ .groupName = name, .event = types::DotsMemberEvent::join };
            if (publishes(m, bits(readStruct(m)), false)) joined.insert(name);
        }
        bool up() const { return conn == early || conn == connected; }
        void deliver() { while (link && link->end[1] && link->end[1]->armed() && !link->q[1].empty()) { vh::transition(); link->end[1]->deliver(); } }
        void host(const Struct& s, bool remove = false, int64_t sender = -1)
        {
            types::DotsHeader h{ .typeName = s._descriptor().name(), .sentTime = timepoint_t::Now(), .attributes = s._validProperties(), .removeObj = remove };
            if (sender >= 0) h.sender = uint32_t(sender);
            link->push(0, sim::encode(h, s));
            deliver();
        }
        void open(bool withTypes)
        {
            R want = conn == none ? R::ok : R::logic;
            auto l = std::make_shared<sim::Link>();
            R got = outcomeOf([&] {
                type::DescriptorMap p, s;
                if (withTypes)
                {
                    p.emplace(const_cast<type::StructDescriptor&>(static_cast<const type::StructDescriptor&>(VUncached::_Descriptor())));
                    s.emplace(const_cast<type::StructDescriptor&>(static_cast<const type::StructDescriptor&>(VTransient::_Descriptor())));
                }
                auto c = io::make_channel<sim::SimChannel>(l, 1);
                if (withTypes) t->open(std::move(p), std::move(s), std::nullopt, std::move(c)); else t->open(std::move(c));
            });
            result("open", want, got);
            if (want == R::ok)
            {
                link = l;
                seen = 0;
                conn = waiting;
                preload = withTypes;
                broken = false;
                expectedTransitions.push_back(0);
            }
        }
        void result(const S& what, R want, R got) { vh::checkF(want == got, [&] { return what + " " + names[int(got)] + " and should have " + names[int(want)] + "\n" + log; }); }
        void publish(const Struct& s, std::optional<property_set_t> included, bool remove, bool viaRemove = false)
        {
            auto& d = s._descriptor();
            uint32_t all = s._properties().toValue(), keys = s._keyProperties().toValue(), valid = s._validProperties().toValue();
            uint32_t attributes = viaRemove ? keys : included ? (included->toValue() | keys) & all : valid;
            R want = d.substructOnly() ? R::logic : (keys & ~valid) ? R::runtime : conn == none ? R::runtime : R::ok;
            R got = outcomeOf([&] { if (viaRemove) t->remove(s); else t->publish(s, included, remove); });
            if (want == R::ok) publishes(s, attributes, remove || viaRemove);
            result("publishing " + d.name(), want, got);
        }
        void watch(int kind)
        {
            R want = !joined.count("VPair") && conn == none ? R::runtime : R::ok;
            std::vector<S> first;
            if (want == R::ok && kind == 0) for (auto& [id, v] : held) { (void)id; first.push_back("got " + str(v)); }
            if (want == R::ok) joins("VPair");
            R got = outcomeOf([&] {
                if (kind == 0) subs.emplace_back(0, t->subscribe<VPair>([this](const Event<VPair>& e) { events.push_back((e.isRemove() ? "lost " : "got ") + str(readStruct(e.updated()))); }));
                else subs.emplace_back(1, t->subscribe(VPair::_Descriptor(), Transceiver::transmission_handler_t{ [this](const io::Transmission& x) { events.push_back("message " + str(readStruct(*x.instance()))); } }));
            });
            result("subscribing", want, got);
            expectedEvents.insert(expectedEvents.end(), first.begin(), first.end());
        }
        void arrives(int64_t id, const char* value, bool remove)
        {
            VPair p{ .id = int32_t(id) };
            if (value) p.value = S(value);
            for (auto& [k, s] : subs) { (void)s; if (k == 1) expectedEvents.push_back("message " + str(readStruct(p))); }
            bool known = held.count(id);
            MV now = known ? held[id] : MV::St();
            for (auto& [tag, v] : readStruct(p).p) now.p[tag] = v;
            if (remove) held.erase(id); else held[id] = now;
            if (!remove || known) for (auto& [k, s] : subs) { (void)s; if (k == 0) expectedEvents.push_back((remove ? "lost " : "got ") + str(now)); }
            host(p, remove, 9);
        }
        void verify()
        {
            bool open = conn != none;
            vh::checkF(t->closed() == !open && t->connected() == (conn == GuestWorld::connected), [&] { return "closed " + yes(t->closed()) + ", connected " + yes(t->connected()) + "\n" + log; });
            if (link)
            {
                std::vector<S> got;
                for (; seen < link->sent[0].size(); ++seen) if (!link->sent[0][seen].isType()) got.push_back(line(link->sent[0][seen]));
                auto show = [](const std::vector<S>& v) { S r; for (auto& s : v) r += "  " + s + "\n"; return r; };
                vh::checkF(got == expected, [&] { return "sent\n" + show(got) + "and should have sent\n" + show(expected) + log; });
                expected.clear();
            }
            // handlers of one instance are in no order among each other
            auto sorted = [](std::vector<S> v) { std::sort(v.begin(), v.end()); return v; };
            vh::checkF(sorted(events) == sorted(expectedEvents), [&] { S r = "events "; for (auto& e : events) r += e + ", "; r += "expected "; for (auto& e : expectedEvents) r += e + ", "; return r + "\n" + log; });
            events.clear();
            expectedEvents.clear();
            vh::checkF(transitions == expectedTransitions, [&] { S r = "transitions "; for (int x : transitions) r += std::to_string(x) + " "; r += "expected "; for (int x : expectedTransitions) r += std::to_string(x) + " "; return r + "\n" + log; });
            std::map<int64_t, MV> have;
            for (auto& [i, info] : t->container(VPair::_Descriptor())) { (void)info; MV m = readStruct(*i); have[m.p[1].i] = m; }
            bool same = have.size() == held.size();
            if (same) for (auto& [k, v] : held) same &= have.count(k) && eq(have[k], v);
            vh::checkF(same, [&] { return "the container differs\n" + log; });
        }
    };
}

SCENARIO(guest_calls)
{
    static const char* what[] = { "open", "open with types", "hello", "hello and response", "finished", "error", "end", "publish", "publish some", "publish without key", "publish substruct", "remove", "publish removal", "subscribe", "subscribe to messages", "unsubscribe", "break", "arrival", "removal arrives", "move", "publish nothing", "publish unknown" };
    constexpr int ops = sizeof(what) / sizeof(*what);
    GuestWorld w;
    int before = ch.choose(3, "before");
    bool with = before && ch.flag("types");
    if (before)
    {
        w.open(with);
        w.host(types::DotsMsgHello{ .serverName = S("h"), .authChallenge = 0 });
        w.host(types::DotsMsgConnectResponse{ .clientId = 7u, .accepted = true, .preload = true });
        if (before == 2) w.host(types::DotsMsgConnectResponse{ .preloadFinished = true });
        w.expectedTransitions = w.transitions;
        w.seen = w.link->sent[0].size();
        w.conn = before == 2 ? GuestWorld::connected : GuestWorld::early;
        if (with) w.joined.insert("VTransient");
        w.log = with ? "connected with types; " : "connected; ";
    }
    int depth = vh::bound(4, 5);
    if (before == 0) depth += 1;
    for (int k = 0; k < depth; ++k)
    {
        // what leaves no trace comes last
        static const std::vector<int> some{ -1, 0, 1, 3, 4, 5, 6, 7, 8, 11, 13, 14, 15, 16, 17, 18, 19 };
        int op = k + 1 < depth ? some[ch.choose(int(some.size()), "op")] : ch.choose(ops, "op");
        if (op < 0) break;
        w.log += S(what[op]) + "; ";
        bool up = w.up();
        switch (op)
        {
            case 0: case 1: w.open(op == 1); break;
            case 2:
                if (w.conn != GuestWorld::waiting || w.transitions.empty() || (w.link->count[0] > 0)) throw vh::Prune{};
                w.send(line("DotsMsgConnect", readStruct(types::DotsMsgConnect{ .clientName = S("me"), .preloadCache = true }), bits(readStruct(types::DotsMsgConnect{ .clientName = S("me"), .preloadCache = true })), false, -1));
                w.host(types::DotsMsgHello{ .serverName = S("h"), .authChallenge = 0 });
                break;
            case 3:
            {
                if (w.conn != GuestWorld::waiting) throw vh::Prune{};
                w.send(line("DotsMsgConnect", readStruct(types::DotsMsgConnect{ .clientName = S("me"), .preloadCache = true }), bits(readStruct(types::DotsMsgConnect{ .clientName = S("me"), .preloadCache = true })), false, -1));
                w.host(types::DotsMsgHello{ .serverName = S("h"), .authChallenge = 0 });
                w.conn = GuestWorld::early;
                w.expectedTransitions.push_back(1);
                if (w.preload) w.joins("VTransient");
                types::DotsMsgConnect f{ .preloadClientFinished = true };
                w.send(line("DotsMsgConnect", readStruct(f), bits(readStruct(f)), false, -1));
                w.host(types::DotsMsgConnectResponse{ .clientId = 7u, .accepted = true, .preload = true });
                break;
            }
            case 4:
                if (w.conn != GuestWorld::early) throw vh::Prune{};
                w.conn = GuestWorld::connected;
                w.expectedTransitions.push_back(2);
                w.host(types::DotsMsgConnectResponse{ .preloadFinished = true });
                break;
            case 5: case 6:
            {
                if (w.conn == GuestWorld::none) throw vh::Prune{};
                // an end by the transport is answered while there is someone to answer to
                if (op == 6 && w.conn == GuestWorld::connected && !w.broken)
                {
                    types::DotsMsgError e{ .errorCode = 1, .errorText = S("the peer closed the transport") };
                    w.send(line("DotsMsgError", readStruct(e), bits(readStruct(e)), false, -1));
                }
                w.closes();
                if (op == 5) w.host(types::DotsMsgError{ .errorCode = 0 });
                else { w.link->end[1]->fail("the peer closed the transport"); }
                break;
            }
            case 7: if (!up && w.conn != GuestWorld::none) throw vh::Prune{}; w.publish(VPair{ .id = 1, .value = S("a") }, std::nullopt, false); break;
            case 8: if (!up && w.conn != GuestWorld::none) throw vh::Prune{}; w.publish(VPair{ .id = 2, .value = S("b"), .extra = 1.5 }, VPair::extra_p, false); break;
            case 9: if (!up && w.conn != GuestWorld::none) throw vh::Prune{}; w.publish(VPair{ .value = S("a") }, ch.flag("included") ? std::optional<property_set_t>{ VPair::id_p + VPair::value_p } : std::nullopt, false); break;
            case 10: if (!up && w.conn != GuestWorld::none) throw vh::Prune{}; w.publish(VSubOnly{ .id = 1 }, std::nullopt, false); break;
            case 11: if (!up && w.conn != GuestWorld::none) throw vh::Prune{}; w.publish(VPair{ .id = 1, .value = S("a") }, std::nullopt, true, true); break;
            case 12: if (!up && w.conn != GuestWorld::none) throw vh::Prune{}; w.publish(VPair{ .id = 1, .value = S("a") }, std::nullopt, true); break;
            case 13: case 14: if (!up && w.conn != GuestWorld::none) throw vh::Prune{}; if (w.subs.size() > 2) throw vh::Prune{}; w.watch(op - 13); break;
            case 15: if (w.subs.empty()) throw vh::Prune{}; if (ch.flag("first")) w.subs.erase(w.subs.begin()); else w.subs.pop_back(); break;
            case 16: if (!up || w.broken) throw vh::Prune{}; w.broken = true; w.link->failFrom[1] = 0; break;
            case 17: if (!w.joined.count("VPair")) throw vh::Prune{}; w.arrives(1 + ch.choose(2, "which"), ch.flag("value") ? "x" : nullptr, false); break;
            case 18: if (!w.joined.count("VPair")) throw vh::Prune{}; w.arrives(1 + ch.choose(2, "which"), nullptr, true); break;
            case 19:
            {
                // a guest moves before its first connection or between two
                if (w.conn != GuestWorld::none) throw vh::Prune{};
                auto other = std::make_unique<GuestTransceiver>(std::move(*w.t));
                w.t = std::move(other);
                break;
            }
            case 20: if (!up && w.conn != GuestWorld::none) throw vh::Prune{}; w.publish(VPair{ .id = 3, .value = S("c") }, property_set_t::None, false); break;
            case 21: if (!up && w.conn != GuestWorld::none) throw vh::Prune{}; w.publish(VPair{ .id = 3 }, property_set_t::All, false); break;
        }
        w.verify();
        uint64_t h = vh::mix(w.conn, w.broken * 2 + w.preload);
        for (auto& j : w.joined) h = vh::mix(h, vh::hashStr(j));
        for (auto& [id, v] : w.held) h = vh::mix(h, vh::mix(id, hash(v)));
        for (auto& [kind, s] : w.subs) { (void)s; h = vh::mix(h, kind); }
        vh::state(vh::mix(h, w.transitions.size()));
    }
    vh::outcome(vh::hashStr(w.log));
}

// ---- a host's calls and services
namespace
{
    struct HostWorld
    {
        struct Peer { sim::link_t link = std::make_shared<sim::Link>(); uint32_t id = 0; std::set<S> groups; size_t seen = 0; std::vector<S> expected; };
        std::unique_ptr<HostTransceiver> host;
        sim::SimListener* listener;
        uint32_t last = 0;
        int closed = 0;
        std::vector<Peer> peers;
        struct Held { MV value; int64_t from; };
        std::map<S, std::map<int64_t, Held>> held;
        std::vector<S> events, expectedEvents;
        std::vector<std::vector<S>> pending;  // per distribution: what each peer is to be sent
        int depth = 0, reaction = 0;
        bool watching = true;
        std::vector<Subscription> subs;
        S log, bad;

        HostWorld(int r, bool moved) : reaction(r)
        {
            use<VPair, VTransient, VUncached, VSubOnly>();
            host = std::make_unique<HostTransceiver>("host", sim::ioc(), type::Registry::StaticTypePolicy::All, Transceiver::transition_handler_t{ [this](const Connection& c, std::exception_ptr) { last = c.peerId(); closed += c.closed(); } });
            auto watch = [this](const auto& e) {
                MV m = readStruct(e.updated());
                events.push_back(e.descriptor().name() + (e.isRemove() ? " lost " : " got ") + str(m));
                if (e.isRemove() && e.descriptor().name() == "VPair") react();
            };
            subs.push_back(host->subscribe<VPair>([watch](const Event<VPair>& e) { watch(e); }));
            subs.push_back(host->subscribe(VTransient::_Descriptor(), Transceiver::event_handler_t<>{ [watch](const Event<>& e) { watch(e); } }));
            if (moved) { auto other = std::make_unique<HostTransceiver>(std::move(*host)); host = std::move(other); }
            listener = static_cast<sim::SimListener*>(&host->listen(std::make_unique<sim::SimListener>()));
        }
        ~HostWorld() { subs.clear(); host.reset(); }
        static VPair r9() { return VPair{ .id = 9, .value = S("r") }; }
        static VTransient t5() { return VTransient{ .id = 5, .value = S("r") }; }
        void react()
        {
            switch (reaction)
            {
                case 1: host->publish(r9()); break;
                case 2: host->remove(VPair{ .id = 2 }); break;
                case 3: host->publish(t5()); break;
                case 4: subs.clear(); break;
            }
        }
        Peer& connect(std::set<S> groups)
        {
            peers.emplace_back();
            Peer& p = peers.back();
            listener->accept(io::make_channel<sim::SimChannel>(p.link, 0));
            p.id = last;
            auto say = [&](const Struct& s) { p.link->push(1, sim::encode(s)); deliver(); };
            say(types::DotsMsgConnect{ .clientName = S("p"), .preloadCache = true });
            say(types::DotsMsgConnect{ .preloadClientFinished = true });
            p.seen = p.link->sent[1].size();
            for (auto& g : groups) { joins(p, g); say(types::DotsMember{ .groupName = g, .event = types::DotsMemberEvent::join }); }
            return p;
        }
        void deliver() { for (auto& p : peers) while (p.link->end[0] && p.link->end[0]->armed() && !p.link->q[0].empty()) { vh::transition(); p.link->end[0]->deliver(); } }
        void say(int who, const Struct& s, bool remove = false) { peers[who].link->push(1, sim::encode(s, remove)); deliver(); }

        // the reference
        void joins(Peer& p, const S& g)
        {
            p.groups.insert(g);
            auto* d = host->registry().findStructType(g);
            if (!d || !d->cached()) return;
            int64_t left = int64_t(held[g].size());
            for (auto& [id, h] : held[g]) { (void)id; --left; p.expected.push_back(line(g, h.value, bits(h.value), false, h.from, left)); }
            types::DotsCacheInfo c{ .typeName = g, .endTransmission = true };
            p.expected.push_back(line("DotsCacheInfo", readStruct(c), bits(readStruct(c)), false, -1));
        }
        void flush()
        {
            if (depth > 0) return;
            for (auto& d : pending) for (size_t i = 0; i < peers.size(); ++i) if (!d[i].empty()) peers[i].expected.push_back(d[i]);
            pending.clear();
        }
        void change(const Struct& s, uint32_t attributes, bool remove, int64_t from)
        {
            S name = s._descriptor().name();
            MV b = body(s, attributes);
            std::vector<S> d(peers.size());
            for (size_t i = 0; i < peers.size(); ++i) if (peers[i].groups.count(name)) d[i] = line(name, b, attributes, remove, from);
            pending.push_back(d);
            if (s._descriptor().cached())
            {
                ++depth;
                auto& h = held[name];
                int64_t id = b.p[1].i;
                bool known = h.count(id);
                MV now = known ? h[id].value : MV::St();
                for (uint32_t t = 0; t < 32; ++t) if (attributes >> t & 1) { if (b.p.count(t)) now.p[t] = b.p[t]; else now.p.erase(t); }
                if (remove) h.erase(id); else h[id] = { now, from };
                bool seen = watching && (name == "VPair" || name == "VTransient");
                if (seen && (!remove || known)) expectedEvents.push_back(name + (remove ? " lost " : " got ") + str(now));
                if (seen && remove && known && name == "VPair")
                {
                    if (reaction == 1) change(r9(), bits(readStruct(r9())), false, 1);
                    if (reaction == 2) change(VPair{ .id = 2 }, 2, true, 1);
                    if (reaction == 3) change(t5(), bits(readStruct(t5())), false, 1);
                    if (reaction == 4) watching = false;
                }
                --depth;
            }
            flush();
        }
        void clear(int who, const std::vector<S>& typeNames)
        {
            vector_t<string_t> v;
            for (auto& n : typeNames) v.push_back(n);
            types::DotsClearCache c{ .typeNames = v };
            std::vector<std::pair<S, int64_t>> all;
            for (auto& [n, h] : held) if (std::find(typeNames.begin(), typeNames.end(), n) != typeNames.end()) for (auto& [id, x] : h) { (void)x; all.emplace_back(n, id); }
            for (auto& [n, id] : all)
            {
                if (n == "VPair") change(VPair{ .id = int32_t(id) }, 2, true, 1);
                else if (n == "VTransient") change(VTransient{ .id = int32_t(id) }, 2, true, 1);
            }
            change(c, 2, false, peers[who].id);
            say(who, c);
        }
        void verify()
        {
            vh::check(bad.empty(), bad + "\n" + log);
            vh::check(closed == 0, "a peer lost its connection\n" + log);
            auto byType = [](const std::vector<S>& v) { std::map<S, std::vector<S>> r; for (auto& s : v) { S type = s.substr(0, s.find(' ')); r[type].push_back(s); } return r; };
            for (size_t i = 0; i < peers.size(); ++i)
            {
                Peer& p = peers[i];
                std::vector<S> got;
                for (; p.seen < p.link->sent[1].size(); ++p.seen) if (!p.link->sent[1][p.seen].isType()) got.push_back(line(p.link->sent[1][p.seen]));
                auto show = [](const std::vector<S>& v) { S r; for (auto& s : v) r += "  " + s + "\n"; return r; };
                vh::checkF(byType(got) == byType(p.expected), [&] { return "peer " + std::to_string(i) + " was sent\n" + show(got) + "and should have been sent\n" + show(p.expected) + log; });
                p.expected.clear();
            }
            vh::checkF(byType(events) == byType(expectedEvents), [&] { S r = "events "; for (auto& e : events) r += e + ", "; r += "expected "; for (auto& e : expectedEvents) r += e + ", "; return r + "\n" + log; });
            events.clear();
            expectedEvents.clear();
            for (const char* n : { "VPair", "VTransient" })
            {
                std::map<int64_t, MV> have;
                for (auto& [i, info] : host->container(*host->registry().findStructType(n))) { (void)info; MV m = readStruct(*i); have[m.p[1].i] = m; }
                bool same = have.size() == held[n].size();
                if (same) for (auto& [k, v] : held[n]) same &= have.count(k) && eq(have[k], v.value);
                vh::checkF(same, [&] { return S("the host's ") + n + " differ\n" + log; });
            }
        }
        void publish(const Struct& s, std::optional<property_set_t> included, bool remove, bool viaRemove = false)
        {
            uint32_t all = s._properties().toValue(), keys = s._keyProperties().toValue(), valid = s._validProperties().toValue();
            uint32_t attributes = viaRemove ? keys : included ? (included->toValue() | keys) & all : valid;
            R want = s._descriptor().substructOnly() ? R::logic : (keys & ~valid) ? R::runtime : R::ok;
            if (want == R::ok) change(s, attributes, remove || viaRemove, 1);
            R got = outcomeOf([&] { if (viaRemove) host->remove(s); else host->publish(s, included, remove); });
            vh::checkF(want == got, [&] { return "publishing " + s._descriptor().name() + " " + names[int(got)] + " and should have " + names[int(want)] + "\n" + log; });
        }
    };
}

SCENARIO(host_services)
{
    int reaction = ch.choose(5, "reaction");
    bool moved = ch.flag("moved");
    static const std::vector<std::set<S>> groups{ { "VPair", "VTransient", "DotsEcho", "DotsClearCache" }, { "VPair" }, {} };
    int a = ch.choose(2, "groups of one"), b = ch.choose(3, "groups of the other");
    if (moved && reaction > 1) throw vh::Prune{};
    std::vector<int> ops;
    static const char* what[] = { "A publishes 1", "B publishes 2", "A publishes transient", "host publishes 3", "A asks for an echo", "A answers an echo", "A sends an empty echo", "A clears VPair", "B clears all", "A clears nothing", "A kills", "A leaves VPair", "A joins VPair", "host publishes wrongly", "host publishes some", "host removes 1", "A removes 2", "B leaves VTransient", "host publishes uncached" };
    constexpr int n = sizeof(what) / sizeof(*what);
    int filled = ch.choose(3, "filled");
    int depth = vh::bound(2, 3);
    for (int k = 0; k < depth; ++k) { int op = ch.choose(n + 1, "op") - 1; if (op < 0) break; ops.push_back(op); }
    HostWorld w(reaction, moved);
    w.connect(groups[a]);
    w.connect(groups[b]);
    w.log = "reaction " + std::to_string(reaction) + (moved ? " moved" : "") + "; ";
    w.verify();
    auto pub = [&](int who, const Struct& s, bool remove = false) { w.change(s, s._validProperties().toValue(), remove, w.peers[who].id); w.say(who, s, remove); };
    if (filled >= 1) pub(0, VPair{ .id = 1, .value = S("one"), .extra = 0.5 });
    if (filled >= 2) { pub(1, VPair{ .id = 2, .value = S("two") }); pub(1, VTransient{ .id = 1, .value = S("t") }); w.publish(VPair{ .id = 3, .value = S("three") }, std::nullopt, false); }
    w.verify();
    for (int op : ops)
    {
        w.log += S(what[op]) + "; ";
        switch (op)
        {
            case 0: pub(0, VPair{ .id = 1, .value = S("a") }); break;
            case 1: pub(1, VPair{ .id = 2, .extra = 2.5 }); break;
            case 2: pub(0, VTransient{ .id = 2, .value = S("t") }); break;
            case 3: w.publish(VPair{ .id = 3, .value = S("h") }, std::nullopt, false); break;
            case 4: case 6:
            {
                types::DotsEcho e{ .identifier = 7u, .sequenceNumber = 0u, .data = S("d") };
                if (op == 4)
                {
                    types::DotsEcho r = e;
                    r.request = false;
                    w.peers[0].expected.push_back(line("DotsEcho", readStruct(r), bits(readStruct(r)), false, -1));
                    e.request = true;
                }
                w.say(0, e);
                break;
            }
            case 5: w.say(0, types::DotsEcho{ .request = false, .identifier = 7u }); break;
            case 7: w.clear(0, { "VPair" }); break;
            case 8: w.clear(1, reaction > 2 ? std::vector<S>{ "Nope", "VPair" } : std::vector<S>{ "VTransient", "Nope", "VPair" }); break;
            case 9: w.clear(0, {}); break;
            case 10: w.say(0, types::DotsMember{ .groupName = S("VPair"), .event = types::DotsMemberEvent::kill }); break;
            case 11: w.peers[0].groups.erase("VPair"); w.say(0, types::DotsMember{ .groupName = S("VPair"), .event = types::DotsMemberEvent::leave }); break;
            case 12: w.joins(w.peers[0], "VPair"); w.say(0, types::DotsMember{ .groupName = S("VPair"), .event = types::DotsMemberEvent::join }); break;
            case 13: w.publish(VSubOnly{ .id = 1 }, std::nullopt, false); w.publish(VPair{ .value = S("x") }, std::nullopt, false); w.publish(VPair{ .value = S("x") }, VPair::id_p, true); break;
            case 14: w.publish(VPair{ .id = 1, .value = S("s") }, VPair::extra_p, false); w.publish(VPair{ .id = 2, .value = S("s"), .extra = 4.5 }, property_set_t::None, false); break;
            case 15: w.publish(VPair{ .id = 1, .value = S("gone") }, std::nullopt, true, true); break;
            case 16: pub(0, VPair{ .id = 2 }, true); break;
            case 17: w.peers[1].groups.erase("VTransient"); w.say(1, types::DotsMember{ .groupName = S("VTransient"), .event = types::DotsMemberEvent::leave }); break;
            case 18: w.publish(VUncached{ .id = 1, .value = S("u") }, std::nullopt, false); break;
        }
        w.verify();
        uint64_t h = reaction;
        for (auto& [t, m] : w.held) for (auto& [id, x] : m) h = vh::mix(h, vh::mix(vh::hashStr(t), vh::mix(id, hash(x.value))));
        vh::state(vh::mix(h, vh::mix(w.peers[0].groups.size(), w.peers[1].groups.size())));
    }
    // someone who comes later sees what there is
    w.connect({ "VPair", "VTransient" });
    w.verify();
    vh::outcome(vh::hashStr(w.log));
}

VH_MAIN
