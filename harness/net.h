// A host and its guests - real transceivers on simulated channels - stepped next to a reference of the whole network.
#pragma once
#include "sim.h"
#include <cmath>
#include <dots/HostTransceiver.h>
#include <dots/GuestTransceiver.h>
#include <DotsMember.dots.h>
#include <DotsCacheInfo.dots.h>
#include <DotsMsgHello.dots.h>
#include <DotsMsgConnect.dots.h>
#include <DotsMsgConnectResponse.dots.h>
#include <DotsMsgError.dots.h>
#include <DotsDescriptorRequest.dots.h>
#include <DotsClearCache.dots.h>
#include <DotsEcho.dots.h>
#include <VPair.dots.h>
#include <VTransient.dots.h>
#include <VUncached.dots.h>

namespace net
{
    using namespace dx;
    using dots::types::DotsHeader;
    using dots::types::DotsMember;
    using dots::types::DotsMemberEvent;
    using dots::types::DotsCacheInfo;
    using dots::types::DotsMsgHello;
    using dots::types::DotsMsgConnect;
    using dots::types::DotsMsgConnectResponse;
    using dots::types::DotsMsgError;
    using dots::types::DotsConnectionState;
    using dots::types::DotsCloneInformation;

    constexpr int nTypes = 3;
    enum { tPair, tTransient, tUncached };
    inline const StructDescriptor& staticType(int t)
    {
        static const StructDescriptor* d[nTypes] = { &dots::types::VPair::_Descriptor(), &dots::types::VTransient::_Descriptor(), &dots::types::VUncached::_Descriptor() };
        return *d[t];
    }
    inline int typeIndex(const std::string& n) { for (int t = 0; t < nTypes; ++t) if (staticType(t).name() == n) return t; return -1; }

    constexpr double Any = -1, None = -2;
    constexpr int hostId = 1;

    struct Ev // a call of an event handler
    {
        int type; int op; bool remove; int sender; int mine; int fromCache; double sent; uint32_t attrs; MV transmitted, updated;
        int createdFrom, lastFrom; double created, modified;
    };
    inline std::string show(const Ev& e)
    {
        char b[256];
        std::snprintf(b, sizeof b, "%s op %d%s sender %d mine %d cache %d sent %.6f attributes %x created %.6f from %d modified %.6f from %d ", staticType(e.type).name().c_str(), e.op, e.remove ? " remove" : "", e.sender, e.mine, e.fromCache, e.sent, e.attrs, e.created, e.createdFrom, e.modified, e.lastFrom);
        return b + str(e.transmitted) + " -> " + str(e.updated);
    }
    inline bool same(double expected, double got) { return expected == Any ? got != None : expected == got; }
    inline bool match(const Ev& x, const Ev& g)
    {
        return x.type == g.type && x.op == g.op && x.remove == g.remove && x.sender == g.sender && x.mine == g.mine && x.fromCache == g.fromCache && same(x.sent, g.sent) && x.attrs == g.attrs
            && eq(x.transmitted, g.transmitted) && eq(x.updated, g.updated) && x.createdFrom == g.createdFrom && x.lastFrom == g.lastFrom && same(x.created, g.created) && same(x.modified, g.modified);
    }

    struct Exp // a message on the wire
    {
        std::string type; uint32_t attrs; MV body; bool remove = false; int sender = -1; int fromCache = -1; double sent = Any; bool server = false;
    };
    inline Exp control(const Struct& s) { Exp e; e.type = s._descriptor().name(); e.body = readStruct(s); e.attrs = maskOf(e.body); return e; }
    inline double timeOf(const sim::Packet& p, uint32_t tag) { auto* v = p.h(tag); return v ? v->d : None; }
    inline std::string show(const sim::Packet& p)
    {
        if (p.eof) return "EOF";
        char b[128];
        std::snprintf(b, sizeof b, "%s%s sender %d cache %d sent %.6f server %d attributes %x ", p.type.c_str(), p.h(4) && p.h(4)->i ? " remove" : "", p.h(5) ? (int)p.h(5)->u : -1, p.h(8) ? (int)p.h(8)->u : -1, timeOf(p, 2), p.h(7) == nullptr ? 0 : timeOf(p, 7) > 1e6 ? 1 : 2, p.h(3) ? (unsigned)p.h(3)->u : 0u);
        return b + str(p.body);
    }
    inline std::string show(const Exp& e)
    {
        char b[128];
        std::snprintf(b, sizeof b, "%s%s sender %d cache %d sent %.6f server %d attributes %x ", e.type.c_str(), e.remove ? " remove" : "", e.sender, e.fromCache, e.sent, e.server, e.attrs);
        return b + str(e.body);
    }
    inline bool match(const Exp& e, const sim::Packet& p, bool headers)
    {
        MV body = p.body;
        if (e.type == "DotsMsgError" && body.p.count(2) && e.body.p.count(2)) body.p[2] = e.body.p.at(2);
        if (!(e.type == p.type && (p.h(3) && p.h(3)->u == e.attrs) && eq(e.body, body) && (p.h(4) && p.h(4)->i) == e.remove && (p.h(8) ? (int)p.h(8)->u : -1) == e.fromCache)) return false;
        return !headers || ((p.h(5) ? (int)p.h(5)->u : -1) == e.sender && same(e.sent, timeOf(p, 2)) && (p.h(7) != nullptr) == e.server && (!e.server || timeOf(p, 7) > 1e6));
    }

    struct Clone { MV rec; int op, createdFrom, lastFrom; double created, modified; };
    struct Cache
    {
        std::map<int64_t, Clone> c[nTypes];
        // yields the event's operation and clone, or nothing
        std::optional<Clone> apply(int t, const MV& rec, uint32_t attrs, bool remove, int sender, double sent)
        {
            if (t == tUncached)
            {
                Clone cl{ rec, 1, sender, -1, sent, None };
                return cl;
            }
            int64_t k = rec.p.at(1).i;
            auto it = c[t].find(k);
            if (remove)
            {
                if (it == c[t].end()) return std::nullopt;
                Clone cl = it->second;
                cl.rec = mCopy(cl.rec, rec, attrs & ~2u);
                cl.op = 3; cl.lastFrom = sender; cl.modified = sent;
                c[t].erase(it);
                return cl;
            }
            if (it == c[t].end()) return c[t].emplace(k, Clone{ rec, 1, sender, sender, sent, sent }).first->second;
            Clone& cl = it->second;
            cl.rec = mCopy(cl.rec, rec, attrs & ~2u);
            cl.op = 2; cl.lastFrom = sender; cl.modified = sent;
            return cl;
        }
    };

    struct Op { enum K { sub, unsub, pub, rem, leave, cut, open, member, raw } k; int type = 0; MV rec; uint32_t attrs = 0; std::string text; std::shared_ptr<sim::Packet> packet; };
    inline std::string show(const Op& o)
    {
        static const char* n[] = { "subscribe", "unsubscribe", "publish", "remove", "leave", "cut", "open", "member", "raw" };
        return std::string(n[o.k]) + (o.k < Op::leave ? " " + staticType(o.type).name() : "") + (o.k == Op::pub || o.k == Op::rem ? " " + str(o.rec) + (o.k == Op::pub ? " attributes " + std::to_string(o.attrs) : "") : "") + (o.text.empty() ? "" : " " + o.text);
    }
    inline MV rec(int t, int64_t key, std::optional<std::string> value = std::nullopt, std::optional<double> extra = std::nullopt)
    {
        MV m = MV::St({ { 1, MV::Int(Type::int32, key) } });
        if (value) m.p[2] = MV::S(*value);
        if (extra && t == tPair) m.p[3] = MV::F(Type::float64, *extra);
        return m;
    }
    inline Op pub(int t, MV r, uint32_t extraAttrs = 0) { Op o{ Op::pub, t, r, maskOf(r) | extraAttrs }; return o; }
    inline Op rem(int t, int64_t k) { return Op{ Op::rem, t, rec(t, k), 2u }; }
    inline Op sub(int t) { return Op{ Op::sub, t }; }
    inline Op unsub(int t) { return Op{ Op::unsub, t }; }

    inline Op member(const std::string& group, DotsMemberEvent e)
    {
        static const char* n[] = { "join ", "leave ", "kill " };
        Op o{ Op::raw }; o.text = n[static_cast<int>(e)] + group;
        o.packet = std::make_shared<sim::Packet>(sim::encode(DotsMember{ .groupName = group, .event = e }));
        return o;
    }
    inline Op raw(const std::string& text, sim::Packet p) { Op o{ Op::raw }; o.text = text; o.packet = std::make_shared<sim::Packet>(std::move(p)); return o; }

    struct Config
    {
        int guests = 2;
        Registry::StaticTypePolicy hostPolicy = Registry::StaticTypePolicy::InternalOnly;
        std::vector<int> preload[4]; // subscribed through open()
        std::vector<int> preloadPublish[4];
        bool headers = true; // compare headers, clone information and times
        bool lockstep = true; // compare messages
        bool steps = true;    // compare anything before the end
    };

    class World
    {
    public:
        struct Guest
        {
            std::unique_ptr<dots::GuestTransceiver> t;
            sim::link_t link = std::make_shared<sim::Link>();
            std::map<int, std::vector<dots::Subscription>> subs;
            std::vector<Ev> log;
            std::vector<std::string> transitions;
            size_t seen[2] = { 0, 0 }; // packets of each direction already compared
            // reference
            int st = -1; // DotsConnectionState
            int id = 0;
            std::set<std::string> joined;
            Cache cache;
            std::map<int, int> rsubs;
            std::vector<Ev> rlog;
            std::vector<std::string> rtransitions;
            std::vector<Exp> exp[2];
            bool left = false;
            bool raw = false; // the harness speaks for this guest
            int session = 0;
            std::map<int64_t, MV> before[nTypes]; // what it held when it opened its connection
            std::string name;
        };
        Config cfg;
        std::unique_ptr<dots::HostTransceiver> host;
        sim::SimListener* listener = nullptr;
        std::vector<Guest> g;
        std::map<int, std::vector<dots::Subscription>> hsubs;
        std::vector<Ev> hlog;
        std::map<std::pair<int, int>, int> hostStates; // (unused identity, state)
        std::vector<std::string> htransitions, rhtransitions;
        // reference of the host
        struct Peer { int st = -1; int id = 0; };
        std::vector<Peer> peers;
        std::map<std::string, std::set<int>> groups;
        std::set<std::string> known;
        Cache hcache;
        std::map<int, int> rhsubs;
        std::vector<Ev> rhlog;
        int lastId = 1;
        bool relax = false; // several broken links at once: the order of the consequences is not fixed

        explicit World(Config c) : cfg(std::move(c))
        {
            staticType(0);
            host = std::make_unique<dots::HostTransceiver>("host", sim::ioc(), cfg.hostPolicy, dots::Transceiver::transition_handler_t{ [this](const dots::Connection& cn, std::exception_ptr e)
            {
                lastPeer = cn.peerId();
                htransitions.push_back(std::to_string(cn.peerId()) + " -> " + std::to_string(static_cast<int>(cn.state())) + (e ? " error" : ""));
            } });
            listener = static_cast<sim::SimListener*>(&host->listen(std::make_unique<sim::SimListener>()));
            if (cfg.hostPolicy == Registry::StaticTypePolicy::All) for (int t = 0; t < nTypes; ++t) known.insert(staticType(t).name());
            g.resize(cfg.guests);
            peers.resize(cfg.guests);
            for (int i = 0; i < cfg.guests; ++i) g[i].name = "guest" + std::to_string(i);
        }
        ~World()
        {
            for (auto& x : g) { x.subs.clear(); x.t.reset(); }
            hsubs.clear();
            host.reset();
        }
        uint32_t lastPeer = 0;

        // ---- opening a connection
        void open(int i)
        {
            Guest& x = g[i];
            if (x.raw) return openRaw(i);
            if (!x.t)
            {
                x.t = std::make_unique<dots::GuestTransceiver>(x.name, sim::ioc(), Registry::StaticTypePolicy::All, dots::Transceiver::transition_handler_t{ [this, i](const dots::Connection& cn, std::exception_ptr e)
                {
                    g[i].transitions.push_back(std::to_string(static_cast<int>(cn.state())) + (e ? " error" : ""));
                } });
            }
            ++x.session;
            for (int t = 0; t < nTypes; ++t) { x.before[t].clear(); for (auto& [k, cl] : x.cache.c[t]) x.before[t].emplace(k, cl.rec); }
            x.left = false;
            x.link = std::make_shared<sim::Link>();
            x.seen[0] = x.seen[1] = 0;
            dots::type::DescriptorMap pubs, subs;
            for (int t : cfg.preload[i]) subs.emplace(const_cast<StructDescriptor&>(staticType(t)));
            for (int t : cfg.preloadPublish[i]) pubs.emplace(const_cast<StructDescriptor&>(staticType(t)));
            x.st = 0; x.rtransitions.push_back("0"); x.id = 0; x.joined.clear();
            x.t->open(std::move(pubs), std::move(subs), std::nullopt, dots::io::make_channel<sim::SimChannel>(x.link, 1));
            listener->accept(dots::io::make_channel<sim::SimChannel>(x.link, 0));
            int id = static_cast<int>(lastPeer);
            vh::check(id > lastId, "every guest gets an identity of its own");
            lastId = id;
            peers[i] = Peer{ 0, id };
            rhtransitions.push_back(std::to_string(id) + " -> 0");
            toGuest(i, control(DotsMsgHello{ .serverName = "host", .authChallenge = 0 }));
        }

        void openRaw(int i)
        {
            Guest& x = g[i];
            x.link = std::make_shared<sim::Link>();
            x.seen[0] = x.seen[1] = 0;
            listener->accept(dots::io::make_channel<sim::SimChannel>(x.link, 0));
            int id = static_cast<int>(lastPeer);
            vh::check(id > lastId, "every guest gets an identity of its own");
            lastId = id;
            peers[i] = Peer{ 0, id };
            rhtransitions.push_back(std::to_string(id) + " -> 0");
            toGuest(i, control(DotsMsgHello{ .serverName = "host", .authChallenge = 0 }));
            x.st = 2;
            x.link->push(1, sim::encode(DotsMsgConnect{ .clientName = x.name, .preloadCache = true }));
            x.link->push(1, sim::encode(DotsMsgConnect{ .preloadClientFinished = true }));
            while (canDeliverHost(i)) deliverHost(i);
        }

        // ---- steps
        void deliverHost(int i)
        {
            vh::transition();
            sim::Packet p = g[i].link->q[0].front();
            sim::SimChannel* c = g[i].link->end[0];
            if (!c->armed()) { vh::check(false, "a channel that is given a message is not receiving"); }
            c->deliver();
            hostReceives(i, p);
        }
        void deliverGuest(int i)
        {
            vh::transition();
            sim::Packet p = g[i].link->q[1].front();
            sim::SimChannel* c = g[i].link->end[1];
            c->deliver();
            guestReceives(i, p);
        }
        bool canDeliverHost(int i) { return g[i].link->end[0] != nullptr && !g[i].link->q[0].empty(); }
        bool canDeliverGuest(int i) { return g[i].link->end[1] != nullptr && !g[i].link->q[1].empty(); }

        void guestOp(int i, const Op& o)
        {
            vh::transition();
            Guest& x = g[i];
            if (x.raw && o.k == Op::leave)
            {
                sim::Packet p; p.eof = true;
                x.st = 4;
                if (x.link->end[0]) x.link->q[0].push_back(p);
                return;
            }
            if (x.raw && o.k != Op::cut && o.k != Op::open)
            {
                sim::Packet p = o.packet ? *o.packet : o.k == Op::sub ? sim::encode(DotsMember{ .groupName = staticType(o.type).name(), .event = DotsMemberEvent::join }) : sim::Packet{};
                if (p.type.empty())
                {
                    AnyStruct a = make(staticType(o.type), o.rec);
                    p = sim::encode(DotsHeader{ .typeName = staticType(o.type).name(), .sentTime = dots::timepoint_t::Now(), .attributes = PropertySet{ o.attrs }, .removeObj = o.k == Op::rem }, *a);
                }
                x.link->push(1, p);
                return;
            }
            auto& reg = x.t ? x.t->registry() : host->registry();
            switch (o.k)
            {
                case Op::sub:
                    x.subs[o.type].push_back(subscribe(*x.t, o.type, [this, i](const Ev& e) { g[i].log.push_back(e); }));
                    if (x.joined.insert(staticType(o.type).name()).second) toHost(i, control(DotsMember{ .groupName = staticType(o.type).name(), .event = DotsMemberEvent::join }));
                    ++x.rsubs[o.type];
                    replay(x.cache, o.type, x.rlog);
                    break;
                case Op::unsub:
                    x.subs[o.type].pop_back();
                    --x.rsubs[o.type];
                    break;
                case Op::pub: case Op::rem:
                {
                    AnyStruct a = make(reg.getStructType(staticType(o.type).name()), o.rec);
                    if (o.k == Op::pub) x.t->publish(*a, PropertySet{ o.attrs });
                    else x.t->remove(*a);
                    Exp e{ staticType(o.type).name(), o.attrs, mOnly(o.rec, o.attrs), o.k == Op::rem };
                    toHost(i, e);
                    break;
                }
                case Op::leave:
                {
                    x.left = true;
                    x.subs.clear();
                    bool con = x.st == 2;
                    if (x.st >= 0 && x.st != 4) { x.rtransitions.push_back("4"); if (con) toHost(i, control(DotsMsgError{ .errorCode = 0 })); }
                    x.st = 4;
                    x.t.reset();
                    x.cache = Cache{};
                    x.rsubs.clear();
                    break;
                }
                case Op::cut: // the transport breaks: what is under way is lost
                {
                    auto link = x.link;
                    if (x.raw) x.st = 4;
                    for (int s = 0; s < 2; ++s) { link->q[s].clear(); if (link->end[s]) { sim::Packet p; p.eof = true; link->q[s].push_back(p); } }
                    break;
                }
                case Op::open: open(i); break;
                default: break;
            }
        }
        void hostOp(const Op& o)
        {
            vh::transition();
            switch (o.k)
            {
                case Op::sub:
                    hsubs[o.type].push_back(subscribe(*host, o.type, [this](const Ev& e) { hlog.push_back(e); }));
                    ++rhsubs[o.type];
                    replay(hcache, o.type, rhlog);
                    break;
                case Op::unsub: hsubs[o.type].pop_back(); --rhsubs[o.type]; break;
                case Op::pub: case Op::rem:
                {
                    AnyStruct a = make(host->registry().getStructType(staticType(o.type).name()), o.rec);
                    if (o.k == Op::pub) host->publish(*a, PropertySet{ o.attrs });
                    else host->remove(*a);
                    hostPublishes(o.type, o.rec, o.attrs, o.k == Op::rem);
                    break;
                }
                default: break;
            }
        }

        // ---- the reference of the host
        void toGuest(int i, Exp e) { if (peers[i].st != 4) g[i].exp[1].push_back(std::move(e)); }
        void toHost(int i, Exp e) { g[i].exp[0].push_back(std::move(e)); }

        void toMembers(int t, const Exp& e)
        {
            auto members = groups[staticType(t).name()];
            std::vector<int> dirty;
            for (int m : members)
            {
                if (peers[m].st == 4) continue;
                if (broken(m)) dirty.push_back(m);
                else toGuest(m, e);
            }
            for (int m : dirty) hostFail(m);
        }
        bool broken(int i) { auto& l = *g[i].link; return l.failFrom[0] >= 0 && sentCount(i) >= l.failFrom[0]; }
        int sentCount(int i) { int n = static_cast<int>(g[i].exp[1].size()); for (size_t k = 0; k < g[i].seen[1]; ++k) n += !g[i].link->sent[1][k].isType(); return n; }

        double hostTime(int t, const MV& r) // the time the host stamped on what it has just published itself
        {
            for (auto& x : g) for (size_t k = x.seen[1]; k < x.link->sent[1].size(); ++k)
            {
                auto& p = x.link->sent[1][k];
                if (p.type == staticType(t).name() && p.h(5) && p.h(5)->u == hostId && p.b(1) && eq(*p.b(1), r.p.at(1)) && !p.h(8)) return timeOf(p, 2);
            }
            return Any;
        }
        void hostPublishes(int t, const MV& r0, uint32_t attrs, bool remove)
        {
            MV r = mOnly(r0, attrs);
            double when = hostTime(t, r);
            // a removal by the host names its keys only
            auto cl = hcache.apply(t, r, attrs, remove, hostId, when);
            if (cl) for (int k = 0; k < rhsubs[t]; ++k) rhlog.push_back(event(t, *cl, r, attrs, remove, hostId, 1, -1, when));
            toMembers(t, Exp{ staticType(t).name(), attrs, r, remove, hostId, -1, when, true });
        }
        void hostClose(int i, bool error)
        {
            if (peers[i].st == 4) return;
            peers[i].st = 4;
            rhtransitions.push_back(std::to_string(peers[i].id) + " -> 4" + (error ? " error" : ""));
            for (auto& [n, s] : groups) s.erase(i);
            std::vector<MV> gone;
            for (auto& [k, c] : hcache.c[tTransient]) if (c.lastFrom == peers[i].id) gone.push_back(c.rec);
            for (auto& r : gone) hostPublishes(tTransient, r, 2u, true);
        }
        void hostFail(int i)
        {
            if (peers[i].st == 4) return;
            if (peers[i].st == 2 && !broken(i)) toGuest(i, control(DotsMsgError{ .errorCode = 1, .errorText = "x" }));
            hostClose(i, true);
        }
        struct Stop {};
        void send(int i, const Exp& e) { if (broken(i)) throw Stop{}; toGuest(i, e); }
        void hostReceives(int i, const sim::Packet& p)
        {
            try { hostReceives_(i, p); } catch (const Stop&) { hostFail(i); }
        }
        void hostReceives_(int i, const sim::Packet& p)
        {
            Peer& c = peers[i];
            if (c.st == 4) return;
            if (p.eof) return hostFail(i);
            if (typeIndex(p.type) >= 0 && !known.count(p.type)) return hostFail(i);
            if (p.type == "DotsMsgError") { if (p.b(1) && p.b(1)->i == 0) hostClose(i, false); else hostFail(i); return; }
            if (p.type == "DotsMsgConnect")
            {
                if (c.st == 0 && p.b(1) && p.b(2))
                {
                    bool pre = p.b(2)->i;
                    send(i, control(DotsMsgConnectResponse{ .clientId = static_cast<uint32_t>(c.id), .accepted = true, .preload = pre }));
                    c.st = pre ? 1 : 2;
                    rhtransitions.push_back(std::to_string(c.id) + " -> " + std::to_string(c.st));
                }
                else if (c.st == 1 && p.b(3) && p.b(3)->i)
                {
                    c.st = 2;
                    rhtransitions.push_back(std::to_string(c.id) + " -> 2");
                    send(i, control(DotsMsgConnectResponse{ .preloadFinished = true }));
                }
                else hostFail(i);
                return;
            }
            if (p.type == "DotsMsgHello" || p.type == "DotsMsgConnectResponse") return hostFail(i);
            if (c.st != 1 && c.st != 2) return hostFail(i);
            if (p.type == "StructDescriptorData") { known.insert(p.b(1)->s); return; }
            if (p.isType()) return;
            if (p.type == "DotsMember")
            {
                if (!p.b(1) || !p.b(2)) return hostFail(i);
                std::string name = p.b(1)->s;
                if (p.b(2)->i == 1) groups[name].erase(i);
                else if (p.b(2)->i == 0)
                {
                    groups[name].insert(i);
                    int t = typeIndex(name);
                    if (t >= 0 && t != tUncached && known.count(name))
                    {
                        int left = static_cast<int>(hcache.c[t].size());
                        for (auto& [k, cl] : hcache.c[t]) { --left; send(i, Exp{ name, maskOf(cl.rec), cl.rec, false, cl.lastFrom, left, cl.modified, true }); }
                        send(i, control(DotsCacheInfo{ .typeName = name, .endTransmission = true }));
                    }
                }
                return;
            }
            int t = typeIndex(p.type);
            if (t < 0) return;
            if (!p.b(1)) return hostFail(i);
            bool remove = p.h(4) && p.h(4)->i;
            if (t == tUncached && remove) return hostFail(i);
            uint32_t attrs = static_cast<uint32_t>(p.h(3)->u);
            double sent = timeOf(p, 2);
            if (sent == None) sent = Any;
            auto cl = hcache.apply(t, p.body, attrs, remove, c.id, sent);
            if (cl) for (int k = 0; k < rhsubs[t]; ++k) rhlog.push_back(event(t, *cl, p.body, attrs, remove, c.id, 0, -1, sent));
            toMembers(t, Exp{ p.type, attrs, p.body, remove, c.id, -1, sent, true });
        }

        // ---- the reference of a guest
        void guestClose(int i, bool error)
        {
            Guest& x = g[i];
            if (x.st == 4) return;
            x.st = 4;
            x.rtransitions.push_back(std::string("4") + (error ? " error" : ""));
        }
        void guestReceives(int i, const sim::Packet& p)
        {
            Guest& x = g[i];
            if (x.st == 4) return;
            if (p.eof)
            {
                if (x.st == 2 && x.link->end[0]) toHost(i, control(DotsMsgError{ .errorCode = 1, .errorText = "x" }));
                return guestClose(i, true);
            }
            if (p.type == "DotsMsgHello") { toHost(i, control(DotsMsgConnect{ .clientName = x.name, .preloadCache = true })); return; }
            if (p.type == "DotsMsgConnectResponse")
            {
                if (p.b(3))
                {
                    x.id = static_cast<int>(p.b(5)->u);
                    x.st = 1; x.rtransitions.push_back("1");
                    std::set<std::string> names;
                    for (int t : cfg.preload[i]) names.insert(staticType(t).name());
                    for (auto& n : names) if (x.joined.insert(n).second) toHost(i, control(DotsMember{ .groupName = n, .event = DotsMemberEvent::join }));
                    toHost(i, control(DotsMsgConnect{ .preloadClientFinished = true }));
                }
                else { x.st = 2; x.rtransitions.push_back("2"); }
                return;
            }
            if (p.type == "DotsMsgError")
            {
                bool graceful = p.b(1) && p.b(1)->i == 0;
                if (!graceful && x.st == 2 && x.link->end[0]) toHost(i, control(DotsMsgError{ .errorCode = 1, .errorText = "x" }));
                return guestClose(i, !graceful);
            }
            int t = typeIndex(p.type);
            if (t < 0) return;
            uint32_t attrs = static_cast<uint32_t>(p.h(3)->u);
            bool remove = p.h(4) && p.h(4)->i;
            int sender = p.h(5) ? static_cast<int>(p.h(5)->u) : hostId;
            double sent = timeOf(p, 2);
            auto cl = x.cache.apply(t, p.body, attrs, remove, sender, sent);
            if (cl) for (int k = 0; k < x.rsubs[t]; ++k) x.rlog.push_back(event(t, *cl, p.body, attrs, remove, sender, sender == x.id, p.h(8) ? static_cast<int>(p.h(8)->u) : -1, sent));
        }

        // ---- comparing
        void compare(const std::string& where)
        {
            if (!cfg.steps) return;
            for (size_t i = 0; i < g.size(); ++i)
            {
                Guest& x = g[i];
                for (int s = 0; s < 2; ++s)
                {
                    if (s == 0 && x.raw) continue;
                    size_t k = 0;
                    auto& sent = x.link->sent[s];
                    bool over = s == 0 ? peers[i].st == 4 && !x.link->end[0] : false;
                    for (; x.seen[s] < sent.size(); ++x.seen[s])
                    {
                        auto& p = sent[x.seen[s]];
                        if (p.isType() || p.eof) continue;
                        if (typeIndex(p.type) < 0 && p.type.rfind("DotsM", 0) != 0 && p.type != "DotsCacheInfo") continue;
                        if (!cfg.lockstep) continue;
                        vh::checkF(k < x.exp[s].size() && match(x.exp[s][k], p, cfg.headers), [&]
                        {
                            return where + ": " + (s ? "the host sends guest " : "the host is sent by guest ") + std::to_string(i) + " " + show(norm(p)) + ", expected " + (k < x.exp[s].size() ? show(norm(x.exp[s][k])) : std::string("nothing more"));
                        });
                        ++k;
                    }
                    bool lost = x.link->gone[s] || over; // nobody there any more
                    vh::checkF(!cfg.lockstep || lost || k == x.exp[s].size(), [&] { return where + ": " + (s ? "the host does not send guest " : "the host is not sent by guest ") + std::to_string(i) + " " + show(norm(x.exp[s][k])); });
                    x.exp[s].clear();
                }
                logs(where + ": guest " + std::to_string(i), x.log, x.rlog);
                vh::checkF(x.transitions == x.rtransitions || x.left || x.raw, [&] { return where + ": transitions of guest " + std::to_string(i) + ": " + join(x.transitions) + ", expected " + join(x.rtransitions); });
                if (x.t) caches(where + ": guest " + std::to_string(i), *x.t, x.cache);
                if (x.t) vh::check(x.t->connected() == (x.st == 2), where + ": whether the guest is connected");
                if (x.t && x.t->connected()) vh::check(static_cast<int>(x.t->connection().selfId()) == peers[i].id || peers[i].st == 4, where + ": both ends agree on the guest's identity");
            }
            logs(where + ": host", hlog, rhlog);
            caches(where + ": host", *host, hcache);
            vh::checkF(relax || htransitions == rhtransitions, [&] { return where + ": transitions at the host: " + join(htransitions) + ", expected " + join(rhtransitions); });
        }

        // every guest that is connected and joined a cached type holds what the host holds
        void converged(const std::string& where)
        {
            std::string stale;
            for (size_t i = 0; i < g.size(); ++i) if (g[i].t && g[i].t->connected())
                for (int t = 0; t < 2; ++t) if (g[i].joined.count(staticType(t).name()))
                {
                    auto a = content(*host, t), b = content(*g[i].t, t), rest = b;
                    for (auto& [k, v] : g[i].before[t]) if (!a.count(k) && rest.count(k) && eq(rest[k], v))
                    {
                        stale = where + ": a guest still holds, since before it reconnected, an instance of " + staticType(t).name() + " the host has removed in the meantime";
                        rest.erase(k);
                    }
                    bool ok = a.size() == rest.size();
                    for (auto& [k, v] : a) ok = ok && rest.count(k) && eq(v, rest[k]);
                    vh::checkF(ok, [&] { return where + ": the host holds" + showAll(a) + " of " + staticType(t).name() + ", guest " + std::to_string(i) + " holds" + showAll(b); });
                }
            vh::check(stale.empty(), stale);
        }
        static std::string showAll(const std::map<int64_t, MV>& m) { std::string s; for (auto& [k, v] : m) s += " " + str(v); return s.empty() ? " nothing" : s; }

        std::map<int64_t, MV> content(const dots::Transceiver& t, int type)
        {
            std::map<int64_t, MV> r;
            if (auto* d = t.registry().findStructType(staticType(type).name()))
                if (auto* c = t.pool().find(*d)) for (auto& [inst, ci] : *c) { MV m = readStruct(*inst); r.emplace(m.p.at(1).i, m); }
            return r;
        }

        uint64_t hash()
        {
            uint64_t h = 0;
            auto cacheHash = [&](Cache& c) { for (int t = 0; t < nTypes; ++t) for (auto& [k, cl] : c.c[t]) h = vh::mix(h, vh::mix(dx::hash(cl.rec), t * 100 + k)); };
            cacheHash(hcache);
            for (size_t i = 0; i < g.size(); ++i)
            {
                cacheHash(g[i].cache);
                h = vh::mix(h, g[i].st * 10 + peers[i].st);
                for (int s = 0; s < 2; ++s) for (auto& p : g[i].link->q[s]) h = vh::mix(h, p.eof ? 7 : vh::mix(vh::hashStr(p.type), dx::hash(p.body)));
                for (auto& n : g[i].joined) h = vh::mix(h, vh::hashStr(n));
            }
            for (auto& [n, s] : groups) { h = vh::mix(h, vh::hashStr(n)); for (int m : s) h = vh::mix(h, m); }
            return h;
        }

        // brings every open connection to rest
        void settle(const char* where)
        {
            for (bool more = true; more;)
            {
                more = false;
                for (int i = 0; i < static_cast<int>(g.size()); ++i)
                {
                    while (canDeliverHost(i)) { deliverHost(i); compare(where); more = true; }
                    while (canDeliverGuest(i)) { deliverGuest(i); compare(where); more = true; }
                }
            }
        }

    private:
        static std::string join(const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += "[" + x + "]"; return s; }
        int name(int id) { for (size_t i = 0; i < peers.size(); ++i) if (peers[i].id == id) return 100 + static_cast<int>(i); return id; }
        sim::Packet norm(sim::Packet p) { if (p.head.p.count(5)) p.head.p[5].u = name(static_cast<int>(p.head.p[5].u)); if (p.head.p.count(2)) p.head.p[2].d = 0; if (p.type == "DotsMsgConnectResponse" && p.body.p.count(5)) p.body.p[5].u = name(static_cast<int>(p.body.p[5].u)); return p; }
        Exp norm(Exp p) { if (p.sender >= 0) p.sender = name(p.sender); p.sent = 0; if (p.type == "DotsMsgConnectResponse" && p.body.p.count(5)) p.body.p[5].u = name(static_cast<int>(p.body.p[5].u)); return p; }
        Ev norm(Ev e) { e.sender = name(e.sender); e.createdFrom = name(e.createdFrom); e.lastFrom = name(e.lastFrom); for (double* d : { &e.sent, &e.created, &e.modified }) *d = *d > 0 ? 1 : *d; return e; }

        Ev event(int t, const Clone& c, const MV& transmitted, uint32_t attrs, bool remove, int sender, int mine, int fromCache, double sent)
        {
            return Ev{ t, c.op, remove, sender, mine, fromCache, sent, attrs, transmitted, t == tUncached ? transmitted : c.rec, c.createdFrom, c.lastFrom, c.created, c.modified };
        }
        void replay(Cache& c, int t, std::vector<Ev>& log)
        {
            int left = static_cast<int>(c.c[t].size());
            for (auto& [k, cl] : c.c[t]) { --left; log.push_back(Ev{ t, 1, false, -1, 0, left, None, maskOf(cl.rec), cl.rec, cl.rec, cl.createdFrom, cl.lastFrom, cl.created, cl.modified }); }
        }
        template <typename F>
        dots::Subscription subscribe(dots::Transceiver& t, int type, F f)
        {
            return t.subscribe(staticType(type).name(), dots::Transceiver::event_handler_t<>{ [type, f](const dots::Event<>& e)
            {
                Ev r{};
                const DotsHeader& h = e.header();
                auto time = [](const auto& p) { return p.isValid() ? p->duration().toFractionalSeconds() : None; };
                r.type = type; r.op = 1 + static_cast<int>(e.mt());
                r.remove = h.removeObj == true; r.sender = h.sender.isValid() ? static_cast<int>(*h.sender) : -1; r.mine = h.isFromMyself.isValid() ? *h.isFromMyself : -1;
                r.fromCache = h.fromCache.isValid() ? static_cast<int>(*h.fromCache) : -1; r.sent = time(h.sentTime); r.attrs = h.attributes->toValue();
                r.transmitted = readStruct(e.transmitted()); r.updated = readStruct(e.updated());
                const DotsCloneInformation& ci = e.cloneInfo();
                r.createdFrom = ci.createdFrom.isValid() ? static_cast<int>(*ci.createdFrom) : -1; r.lastFrom = ci.lastUpdateFrom.isValid() ? static_cast<int>(*ci.lastUpdateFrom) : -1;
                r.created = time(ci.created); r.modified = time(ci.modified);
                f(r);
            } });
        }
        void logs(const std::string& where, std::vector<Ev>& got, std::vector<Ev>& ref)
        {
            bool ok = got.size() == ref.size();
            size_t k = 0;
            if (relax)
            {
                auto less = [](const Ev& a, const Ev& b) { return std::make_pair(a.type, show(a).size() ? a.transmitted.p.at(1).i : 0) < std::make_pair(b.type, b.transmitted.p.at(1).i); };
                std::stable_sort(got.begin(), got.end(), less); std::stable_sort(ref.begin(), ref.end(), less);
            }
            for (; k < got.size() && k < ref.size(); ++k)
            {
                Ev a = ref[k], b = got[k];
                if (!cfg.headers) for (Ev* e : { &a, &b }) { e->sender = e->mine = e->createdFrom = e->lastFrom = 0; e->sent = e->created = e->modified = None; }
                if (!match(a, b)) { ok = false; break; }
            }
            vh::checkF(ok, [&] { return where + " event " + (k < got.size() ? show(norm(got[k])) : "missing") + ", expected " + (k < ref.size() ? show(norm(ref[k])) : "nothing more"); });
            got.clear(); ref.clear();
        }
        void caches(const std::string& where, const dots::Transceiver& t, Cache& ref)
        {
            for (int ty = 0; ty < nTypes; ++ty)
            {
                auto* d = t.registry().findStructType(staticType(ty).name());
                auto* c = d ? t.pool().find(*d) : nullptr;
                size_t n = c ? c->size() : 0;
                vh::checkF(n == ref.c[ty].size(), [&] { return where + " holds" + showAll(content(t, ty)) + " of " + staticType(ty).name() + ", expected " + std::to_string(ref.c[ty].size()) + " instances"; });
                if (!n) continue;
                for (auto& [inst, ci] : *c)
                {
                    MV m = readStruct(*inst);
                    auto it = ref.c[ty].find(m.p.at(1).i);
                    vh::checkF(it != ref.c[ty].end() && eq(it->second.rec, m), [&] { return where + " holds " + str(m) + (it == ref.c[ty].end() ? ", expected nothing" : ", expected " + str(it->second.rec)); });
                    if (!cfg.headers) continue;
                    Clone& x = it->second;
                    auto time = [](const auto& p) { return p.isValid() ? p->duration().toFractionalSeconds() : None; };
                    if (x.created == Any) x.created = time(ci.created);
                    if (x.modified == Any) x.modified = time(ci.modified);
                    vh::checkF(ci.createdFrom == static_cast<uint32_t>(x.createdFrom) && ci.lastUpdateFrom == static_cast<uint32_t>(x.lastFrom), [&] { return where + ": " + str(m) + " is from " + std::to_string(name(*ci.createdFrom)) + ", " + std::to_string(name(*ci.lastUpdateFrom)) + ", expected " + std::to_string(name(x.createdFrom)) + ", " + std::to_string(name(x.lastFrom)); });
                    vh::check(time(ci.created) == x.created && time(ci.modified) == x.modified && 1 + static_cast<int>(*ci.lastOperation) == x.op, where + ": clone information of " + str(m));
                }
            }
        }
    };

    // ---- exploring all interleavings, up to the commutation of steps at different transceivers
    struct Script { std::vector<Op> ops; size_t next = 0; bool done() const { return next >= ops.size(); } };

    class Explorer
    {
    public:
        World& w;
        std::vector<Script> guests;
        Script host;
        explicit Explorer(World& w_) : w(w_), guests(w_.g.size()) {}

        // false if the execution is equivalent to one explored elsewhere
        bool run(vh::Chooser& ch)
        {
            std::set<int> sleep;
            int n = static_cast<int>(w.g.size());
            while (true)
            {
                std::vector<int> enabled;
                for (int s = 0; s < 3 * n + 1; ++s) if (can(s)) enabled.push_back(s);
                if (enabled.empty()) return true;
                std::vector<int> set = enabled;
                for (int i = 0; i < n; ++i)
                {
                    int dg = 3 * i + 1, op = 3 * i + 2;
                    if (!can(dg)) continue;
                    bool mine = !guests[i].done();
                    if (mine && guests[i].ops[guests[i].next].k == Op::cut) continue;
                    if (!mine || !can(op)) { set = { dg }; break; }
                    set = { dg, op };
                    break;
                }
                std::vector<int> awake;
                for (int s : set) if (!sleep.count(s)) awake.push_back(s);
                if (awake.empty()) return false;
                int c = ch.choose(static_cast<int>(awake.size()), "step");
                int s = awake[c];
                std::set<int> next;
                for (int z : sleep) if (independent(z, s)) next.insert(z);
                for (int k = 0; k < c; ++k) if (independent(awake[k], s)) next.insert(awake[k]);
                std::string what = describe(s);
                ch.note(what);
                vh::setNote(what);
                exec(s);
                w.compare(what);
                if (ch.tracing()) for (size_t i = 0; i < w.g.size(); ++i) ch.note("      guest " + std::to_string(i) + " holds" + World::showAll(w.g[i].t ? w.content(*w.g[i].t, tPair) : std::map<int64_t, MV>{}));
                vh::state(w.hash());
                sleep = std::move(next);
                if (afterStep) afterStep(what);
            }
        }
        std::function<void(const std::string&)> afterStep;
        std::function<bool(int, const Op&)> opEnabled; // further conditions
    private:
        bool can(int s)
        {
            int n = static_cast<int>(w.g.size());
            if (s == 3 * n) return !host.done();
            int i = s / 3;
            switch (s % 3)
            {
                case 0: return w.canDeliverHost(i);
                case 1: return w.canDeliverGuest(i);
                default:
                {
                    if (guests[i].done()) return false;
                    const Op& o = guests[i].ops[guests[i].next];
                    if (opEnabled && !opEnabled(i, o)) return false;
                    switch (o.k)
                    {
                        case Op::open: return w.g[i].st == -1 || (w.g[i].st == 4 && w.peers[i].st == 4);
                        case Op::leave: case Op::cut: return w.g[i].st >= 0 && w.g[i].st != 4;
                        default: return w.g[i].st == 2;
                    }
                }
            }
        }
        bool hostSide(int s)
        {
            int n = static_cast<int>(w.g.size());
            if (s == 3 * n || s % 3 == 0) return true;
            if (s % 3 == 2) { auto k = guests[s / 3].ops[guests[s / 3].next].k; return k == Op::open || k == Op::cut; }
            return false;
        }
        int guestSide(int s)
        {
            int n = static_cast<int>(w.g.size());
            if (s == 3 * n) return -1;
            if (s % 3 == 0) return -1;
            return s / 3;
        }
        bool independent(int a, int b)
        {
            if (hostSide(a) && hostSide(b)) return false;
            int x = guestSide(a), y = guestSide(b);
            if (x >= 0 && x == y) return false;
            // a cut takes messages away from both ends
            auto isCut = [&](int s) { return s % 3 == 2 && s / 3 < static_cast<int>(w.g.size()) && !guests[s / 3].done() && guests[s / 3].ops[guests[s / 3].next].k == Op::cut; };
            if (isCut(a) || isCut(b)) return false;
            return true;
        }
        std::string describe(int s)
        {
            int n = static_cast<int>(w.g.size());
            if (s == 3 * n) return "host: " + show(host.ops[host.next]);
            int i = s / 3;
            auto head = [&](int side) { auto& q = w.g[i].link->q[side]; return q.front().eof ? std::string("EOF") : q.front().type + " " + str(q.front().body); };
            switch (s % 3)
            {
                case 0: return "the host receives from guest " + std::to_string(i);
                case 1: return "guest " + std::to_string(i) + " receives";
                default: return "guest " + std::to_string(i) + ": " + show(guests[i].ops[guests[i].next]);
            }
        }
        void exec(int s)
        {
            int n = static_cast<int>(w.g.size());
            if (s == 3 * n) { Op o = host.ops[host.next++]; w.hostOp(o); return; }
            int i = s / 3;
            switch (s % 3)
            {
                case 0: w.deliverHost(i); break;
                case 1: w.deliverGuest(i); break;
                default: { Op o = guests[i].ops[guests[i].next++]; w.guestOp(i, o); }
            }
        }
    };
}
