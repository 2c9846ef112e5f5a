// C07: the connection's protocol, both roles, against every sequence of incoming messages, faults and local calls up to the depth.
#include "sim.h"
#include <dots/Connection.h>
#include <dots/HostTransceiver.h>
#include <dots/type/Registry.h>
#include <VPair.dots.h>

using namespace dx;
using namespace dots;
using vh::Chooser;

namespace
{
    struct Auth : io::AuthManager
    {
        bool required, verdict;
        int asked = 0;
        std::string guest;
        Auth(HostTransceiver& h, bool r, bool v) : AuthManager(h), required(r), verdict(v) {}
        std::optional<io::Nonce> requiresAuthentication(const io::Endpoint&, std::string_view) override { if (required) return io::Nonce{ uint64_t(0x1234567890abcdef) }; return std::nullopt; }
        bool verifyAuthentication(const io::Endpoint&, std::string_view g, io::Nonce, io::Nonce, const io::Digest&) override { ++asked; guest = g; return verdict; }
        bool verifyAuthentication(const io::Endpoint&, std::string_view g, io::Nonce, std::string_view, const io::Digest&) override { ++asked; guest = g; return verdict; }
    };
    HostTransceiver& owner() { static HostTransceiver h{ "owner", sim::ioc(), Registry::StaticTypePolicy::FundamentalOnly }; return h; }
    Registry& registry() { static Registry r{ std::nullopt, Registry::StaticTypePolicy::All }; VPair::_Descriptor(); return r; }

    enum Act {
        connPre, connNoPre, connPartial, connFin, connFinFalse, connAll, hello, helloAuth, helloNoName, helloNoChallenge, resp, respNoPre, respRejected, respNoId, respFin, respAll,
        err0, err3, errEmpty, user, userBare, userNoKey, userRemove, member, unknownType, damaged, transportError, localTransmit, localError, nActs
    };
    const char* actName[] = { "Connect preload", "Connect without preload", "Connect without preloadCache", "Connect preloadClientFinished", "Connect preloadClientFinished=false", "Connect with everything",
        "Hello", "Hello with authentication", "Hello without name", "Hello without challenge", "ConnectResponse", "ConnectResponse without preload", "ConnectResponse rejected", "ConnectResponse without id", "ConnectResponse preloadFinished", "ConnectResponse with everything",
        "Error 0", "Error 3", "Error without code", "instance", "instance with a bare header", "instance without key", "removal", "DotsMember", "instance of unknown type", "damaged instance", "transport error", "local transmit", "local error" };

    enum RMode { rOk, rFalse, rThrow, rDestroy, rError, rTransmit, nR };
    enum TMode { tOk, tThrowEarly, tThrowConnected, nT };

    struct Cfg { bool host; int auth; bool secret; int r, t, failFrom; };
    enum St { connecting, early, connected, suspended, closed };

    uint32_t thePeer = 0; // the identity the host gave out, which differs from execution to execution
    std::string showPacket(const sim::Packet& p)
    {
        MV b = p.body;
        if (p.type == "DotsMsgConnectResponse" && b.p.count(5) && b.p[5].u == thePeer) b.p[5].u = 1000000;
        if (p.type == "DotsMsgError" && b.p.count(2)) b.p[2].s = "<text>";
        if (p.type == "DotsMsgConnect") { if (b.p.count(4)) b.p[4].s = "<" + std::to_string(b.p[4].s.size()) + ">"; if (b.p.count(5)) b.p[5].s = "<" + std::to_string(b.p[5].s.size()) + ">"; }
        std::string h = p.h(2) ? " sent" : "";
        if (p.h(3)) { char t[32]; std::snprintf(t, sizeof t, " attributes %llx", (unsigned long long)p.h(3)->u); h += t; }
        if (p.h(5)) h += " sender " + str(*p.h(5));
        if (p.h(4) && p.h(4)->i) h += " remove";
        return p.type + h + " " + str(b);
    }
    std::string showOut(const Struct& s, bool remove = false)
    {
        return showPacket(sim::encode(s, remove));
    }

    struct ModelThrow { std::string what; };
    struct Model
    {
        const Cfg& c;
        uint32_t peerId;
        std::string auth2;
        int st = suspended;
        bool alive = true, armed = true;
        int selfId;
        enum Want { wHello, wResp, wFin, wConnect, wClientFin, wError } want;
        std::vector<std::string> log, out;
        std::string peerName = "<not_set>";
        Model(const Cfg& c_, uint32_t peer) : c(c_), peerId(peer), selfId(c_.host ? 1 : 0) { thePeer = peer; }

        void tx(const Struct& s, bool remove = false)
        {
            if (c.failFrom >= 0 && static_cast<int>(out.size()) >= c.failFrom) throw ModelThrow{ "broken" };
            out.push_back(showOut(s, remove));
        }
        void go(int s, bool error = false)
        {
            st = s;
            log.push_back(std::string("transition ") + std::to_string(s) + (s == closed ? (error ? " with error" : " gracefully") : ""));
            if (c.t == tThrowEarly && s == early) throw ModelThrow{ "handler" };
            if (c.t == tThrowConnected && s == connected) throw ModelThrow{ "handler" };
        }
        void fail()
        {
            if (st == closed) return;
            if (st == connected) { try { tx(DotsMsgError{ .errorCode = 1, .errorText = "x" }); } catch (const ModelThrow&) {} }
            go(closed, true);
        }
        void start()
        {
            go(connecting);
            if (c.host)
            {
                if (c.auth >= 2) tx(DotsMsgHello{ .serverName = "me", .authChallenge = 0x1234567890abcdef, .authenticationRequired = true });
                else tx(DotsMsgHello{ .serverName = "me", .authChallenge = 0 });
                want = wConnect;
            }
            else want = wHello;
        }
        void destroy()
        {
            alive = false;
            if (st == closed || st == suspended) return;
            bool error = false;
            if (st == connected) { try { tx(DotsMsgError{ .errorCode = 0 }); } catch (const ModelThrow&) { error = true; } }
            go(closed, error);
        }
        // yields whether receiving goes on
        bool system(int a)
        {
            auto req = [&](bool ok) { if (!ok) throw ModelThrow{ "protocol" }; };
            switch (want)
            {
                case wHello:
                    req(a == hello || a == helloAuth);
                    peerName = "peer";
                    req(a == hello || c.secret);
                    if (a == hello) tx(DotsMsgConnect{ .clientName = "me", .preloadCache = true });
                    else tx(DotsMsgConnect{ .clientName = "me", .preloadCache = true, .authChallengeResponse = std::string(64, 'x'), .cnonce = std::string(16, 'x') });
                    want = wResp;
                    break;
                case wResp:
                    req(a == resp || a == respNoPre || a == respRejected || a == respAll);
                    req(a != respRejected);
                    selfId = 9;
                    if (a == respNoPre) { go(connected); want = wError; }
                    else { go(early); tx(DotsMsgConnect{ .preloadClientFinished = true }); want = wFin; }
                    break;
                case wFin:
                    req(a == respFin || a == respAll);
                    go(connected); want = wError;
                    break;
                case wConnect:
                    req(a == connPre || a == connNoPre || a == connAll);
                    if (c.auth == 3)
                    {
                        tx(DotsMsgConnectResponse{ .clientId = peerId, .accepted = false, .preload = a != connNoPre });
                        throw ModelThrow{ "rejected" };
                    }
                    peerName = "guest";
                    tx(DotsMsgConnectResponse{ .clientId = peerId, .accepted = true, .preload = a != connNoPre });
                    if (a == connNoPre) { go(connected); want = wError; }
                    else { go(early); want = wClientFin; }
                    break;
                case wClientFin:
                    req(a == connFin || a == connAll);
                    go(connected);
                    tx(DotsMsgConnectResponse{ .preloadFinished = true });
                    want = wError;
                    break;
                case wError: req(false);
            }
            return true;
        }
        // sender and whether sentTime was given matter for instances
        void receive(int a)
        {
            if (st == closed) { armed = false; return; }
            bool goOn = true;
            try
            {
                switch (a)
                {
                    case err0: go(closed); goOn = false; break;
                    case err3: case errEmpty: fail(); goOn = false; break;
                    case unknownType: case damaged: throw ModelThrow{ "undecodable" };
                    case user: case userBare: case userNoKey: case userRemove: case member:
                    {
                        if (st != early && st != connected) throw ModelThrow{ "too early" };
                        if (a == userNoKey) throw ModelThrow{ "no key" };
                        std::string e = "instance ";
                        bool bare = a == userBare;
                        if (c.host) e += std::string("sender the guest mine 0 server time now sent ") + (bare ? "now" : "given");
                        else e += "sender " + std::to_string(bare ? 1 : a == userRemove ? selfId : 77) + " mine " + (a == userRemove ? "1" : "0") + " server time given sent " + (bare ? "now" : "given");
                        e += a == userRemove ? " remove" : "";
                        log.push_back(e);
                        switch (c.r)
                        {
                            case rOk: break;
                            case rFalse: goOn = false; break;
                            case rThrow: throw ModelThrow{ "handler" };
                            case rDestroy: destroy(); goOn = false; break;
                            case rError: fail(); break;
                            case rTransmit: tx(VPair{ .id = 5 }); break;
                        }
                        break;
                    }
                    default: goOn = system(a);
                }
            }
            catch (const ModelThrow&) { armed = false; fail(); return; }
            armed = goOn;
        }
    };

    struct Rig
    {
        Cfg c;
        sim::link_t link = std::make_shared<sim::Link>();
        std::unique_ptr<Connection> conn;
        std::unique_ptr<Auth> auth;
        std::vector<std::string> log;
        std::unique_ptr<Model> m;
        timepoint_t begin = timepoint_t::Now();
        int side;
        ~Rig() { conn.reset(); }
        static constexpr double sentTime = 1234.5, serverTime = 2345.5;

        Rig(const Cfg& c_) : c(c_), side(c_.host ? 0 : 1)
        {
            link->failFrom[side] = c.failFrom;
            conn = std::make_unique<Connection>(io::make_channel<sim::SimChannel>(link, side), c.host, c.secret ? std::make_optional<std::string>("secret") : std::nullopt);
            if (c.auth > 0) auth = std::make_unique<Auth>(owner(), c.auth >= 2, c.auth != 3);
            m = std::make_unique<Model>(this->c, conn->peerId());
            if (c.host) vh::check(conn->peerId() >= 2 && conn->selfId() == 1, "identities of the host's end");
            else vh::check(conn->peerId() == 1 && conn->selfId() == 0, "identities of the guest's end");
        }
        void start()
        {
            bool mThrew = false, threw = false;
            try { m->start(); } catch (const ModelThrow&) { mThrew = true; }
            try
            {
                conn->asyncReceive(registry(), auth.get(), "me",
                    [this](Connection& cn, io::Transmission t) -> bool { return onReceive(cn, std::move(t)); },
                    [this](Connection& cn, std::exception_ptr e) { onTransition(cn, e); });
            }
            catch (const std::exception&) { threw = true; }
            vh::check(threw == mThrew, "starting to receive reports a broken transport");
            compare("start");
            if (threw) { destroy(); throw vh::Prune{}; }
        }
        void onTransition(Connection& cn, std::exception_ptr e)
        {
            int s = static_cast<int>(cn.state());
            log.push_back("transition " + std::to_string(s) + (s == closed ? (e ? " with error" : " gracefully") : ""));
            if (cn.connected() != (s == connected) || cn.closed() != (s == closed)) log.push_back("state predicates are wrong");
            if (c.t == tThrowEarly && s == early) throw std::runtime_error{ "transition handler" };
            if (c.t == tThrowConnected && s == connected) throw std::runtime_error{ "transition handler" };
        }
        bool onReceive(Connection& cn, io::Transmission t)
        {
            const DotsHeader& h = t.header();
            std::string e = "instance sender " + (!h.sender.isValid() ? "none" : c.host && h.sender == thePeer ? "the guest" : std::to_string(*h.sender)) + " mine " + (h.isFromMyself.isValid() ? std::to_string(*h.isFromMyself) : "none");
            auto when = [&](const auto& p, double given) -> std::string
            {
                if (!p.isValid()) return "none";
                double v = p->duration().toFractionalSeconds();
                if (v == given) return "given";
                return v >= begin.duration().toFractionalSeconds() - 0.01 && v <= timepoint_t::Now().duration().toFractionalSeconds() + 0.01 ? "now" : "wrong";
            };
            e += " server time " + when(h.serverSentTime, serverTime) + " sent " + when(h.sentTime, sentTime) + (h.removeObj == true ? " remove" : "");
            log.push_back(e);
            switch (c.r)
            {
                case rOk: return true;
                case rFalse: return false;
                case rThrow: throw std::runtime_error{ "receive handler" };
                case rDestroy: conn.reset(); return false;
                case rError: cn.handleError(std::make_exception_ptr(std::runtime_error{ "handler error" })); return true;
                default: cn.transmit(VPair{ .id = 5 }); return true;
            }
        }
        void compare(const char* where)
        {
            vh::checkF(log == m->log, [&]
            {
                std::string s = std::string(where) + ": calls of the handlers differ; got";
                for (auto& l : log) s += " [" + l + "]";
                s += " expected";
                for (auto& l : m->log) s += " [" + l + "]";
                return s;
            });
            std::vector<sim::Packet> sent;
            for (auto& p : link->sent[1 - side]) if (!p.isType()) sent.push_back(p);
            bool same = sent.size() == m->out.size();
            for (size_t i = 0; same && i < sent.size(); ++i) same = showPacket(sent[i]) == m->out[i];
            vh::checkF(same, [&]
            {
                std::string s = std::string(where) + ": sent";
                for (auto& p : sent) s += " [" + showPacket(p) + "]";
                s += " expected";
                for (auto& p : m->out) s += " [" + p + "]";
                return s;
            });
            vh::check((conn != nullptr) == m->alive, "the connection exists");
            if (conn)
            {
                vh::checkF(static_cast<int>(conn->state()) == m->st, [&] { return std::string(where) + ": state " + std::to_string(static_cast<int>(conn->state())) + ", expected " + std::to_string(m->st); });
                vh::check(static_cast<int>(conn->selfId()) == m->selfId, std::string(where) + ": identity of this end");
                vh::check(conn->peerName() == m->peerName, std::string(where) + ": name of the peer");
                if (link->end[side]) vh::check(link->end[side]->armed() == m->armed, std::string(where) + ": whether receiving goes on");
            }
        }
        void give(int a)
        {
            auto push = [&](sim::Packet p) { link->q[side].push_back(std::move(p)); };
            auto sys = [&](const Struct& s) { push(sim::encode(s)); };
            auto inst = [&](const Struct& s, bool bare, uint32_t sender, bool remove)
            {
                DotsHeader h{ .typeName = s._descriptor().name(), .attributes = s._validProperties() };
                if (!bare)
                {
                    h.sentTime = timepoint_t{ duration_t{ sentTime } };
                    h.serverSentTime = timepoint_t{ duration_t{ serverTime } };
                    h.sender = sender;
                    h.isFromMyself = true;
                    h.removeObj = remove;
                }
                else h.serverSentTime = timepoint_t{ duration_t{ serverTime } };
                push(sim::encode(h, s));
            };
            switch (a)
            {
                case connPre: sys(DotsMsgConnect{ .clientName = "guest", .preloadCache = true }); break;
                case connNoPre: sys(DotsMsgConnect{ .clientName = "guest", .preloadCache = false }); break;
                case connPartial: sys(DotsMsgConnect{ .clientName = "guest" }); break;
                case connFin: sys(DotsMsgConnect{ .preloadClientFinished = true }); break;
                case connFinFalse: sys(DotsMsgConnect{ .preloadClientFinished = false }); break;
                case connAll: sys(DotsMsgConnect{ .clientName = "guest", .preloadCache = true, .preloadClientFinished = true }); break;
                case hello: sys(DotsMsgHello{ .serverName = "peer", .authChallenge = 0 }); break;
                case helloAuth: sys(DotsMsgHello{ .serverName = "peer", .authChallenge = 77, .authenticationRequired = true }); break;
                case helloNoName: sys(DotsMsgHello{ .authChallenge = 0 }); break;
                case helloNoChallenge: sys(DotsMsgHello{ .serverName = "peer" }); break;
                case resp: sys(DotsMsgConnectResponse{ .clientId = 9, .accepted = true, .preload = true }); break;
                case respNoPre: sys(DotsMsgConnectResponse{ .clientId = 9, .accepted = true, .preload = false }); break;
                case respRejected: sys(DotsMsgConnectResponse{ .clientId = 9, .accepted = false, .preload = true }); break;
                case respNoId: sys(DotsMsgConnectResponse{ .accepted = true, .preload = true }); break;
                case respFin: sys(DotsMsgConnectResponse{ .preloadFinished = true }); break;
                case respAll: sys(DotsMsgConnectResponse{ .clientId = 9, .accepted = true, .preload = true, .preloadFinished = true }); break;
                case err0: sys(DotsMsgError{ .errorCode = 0 }); break;
                case err3: sys(DotsMsgError{ .errorCode = 3, .errorText = "three" }); break;
                case errEmpty: sys(DotsMsgError{}); break;
                case user: inst(VPair{ .id = 1, .value = "v" }, false, 77, false); break;
                case userBare: inst(VPair{ .id = 1, .value = "v" }, true, 0, false); break;
                case userNoKey: inst(VPair{ .value = "v" }, false, 77, false); break;
                case userRemove: inst(VPair{ .id = 1 }, false, static_cast<uint32_t>(m->selfId), true); break;
                case member: inst(DotsMember{ .groupName = "g", .event = DotsMemberEvent::join }, false, 77, false); break;
                case unknownType: { auto p = sim::encode(VPair{ .id = 1 }); DotsHeader h{ .typeName = "NoSuchType", .attributes = PropertySet{ 2u } }; auto e = to_cbor(h); p.hdr.assign(e.begin(), e.end()); push(p); break; }
                case damaged: { auto p = sim::encode(VPair{ .id = 1, .value = "abc" }); p.data.resize(p.data.size() - 2); push(p); break; }
            }
        }
        void act(int a)
        {
            vh::transition();
            if (a == transportError)
            {
                if (m->alive) { if (m->st != closed) m->fail(); m->armed = false; }
                if (auto* e = link->end[side]) e->fail("transport error");
            }
            else if (a == localTransmit)
            {
                bool mThrew = false, threw = false;
                try { m->tx(VPair{ .id = 3, .value = "x" }); } catch (const ModelThrow&) { mThrew = true; }
                try { conn->transmit(VPair{ .id = 3, .value = "x" }); } catch (const std::exception&) { threw = true; }
                vh::check(threw == mThrew, "a failed transmission is reported");
            }
            else if (a == localError)
            {
                m->fail();
                conn->handleError(std::make_exception_ptr(std::runtime_error{ "local" }));
            }
            else
            {
                m->receive(a);
                give(a);
                link->end[side]->deliver();
            }
        }
        void destroy()
        {
            m->destroy();
            conn.reset();
            compare("destruction");
            vh::check(link->end[side] == nullptr, "the channel is released with its connection");
        }
    };

    void explore(Chooser& ch, Cfg c, int depth, bool prefixes)
    {
        Rig r(c);
        r.start();
        if (prefixes)
        {
            static const std::vector<int> hostWay{ connPre, connFin, user }, guestWay{ hello, resp, respFin };
            const auto& way = c.host ? hostWay : guestWay;
            int n = ch.choose(static_cast<int>(way.size()) + 1, "handshake messages first");
            for (int i = 0; i < n; ++i)
            {
                if (!r.conn || !r.m->armed) throw vh::Prune{};
                r.act(way[i] == hello && c.secret ? static_cast<int>(helloAuth) : way[i]);
                ch.note(std::string("handshake: ") + actName[way[i]]);
                r.compare("handshake");
            }
        }
        // an end that is closed is only given one more of each
        int after = 0;
        for (int i = 0; i < depth && r.conn; ++i)
        {
            if (r.m->st == closed && ++after > 2) break;
            int a = ch.choose(nActs + 1, "what happens");
            if (a == nActs) break;
            if (a != localTransmit && a != localError && a != transportError && !r.m->armed) throw vh::Prune{};
            if (a == localTransmit && r.m->st == closed) throw vh::Prune{};
            vh::setNote(std::string("role ") + (c.host ? "host" : "guest") + ": " + actName[a]);
            ch.note(actName[a]);
            r.act(a);
            if (ch.tracing()) for (auto& l : r.log) ch.note("   " + l);
            r.compare(actName[a]);
            uint64_t h = vh::mix(c.host, r.m->st * 100 + r.m->want * 2 + r.m->armed);
            for (auto& l : r.m->log) h = vh::mix(h, vh::hashStr(l));
            vh::state(vh::mix(h, r.m->out.size()));
            vh::outcome(vh::mix(vh::hashStr(r.m->log.back()), r.m->out.empty() ? 0 : vh::hashStr(r.m->out.back())));
        }
        if (r.conn) r.destroy();
        r.compare("the end");
        // monotone, and closed is final
        int last = -1; int closedN = 0;
        for (auto& l : r.log) if (l.rfind("transition", 0) == 0) { int s = l[11] - '0'; vh::check(s > last, "states follow each other"); last = s; closedN += s == closed; }
        vh::check(closedN == 1, "exactly one transition to closed");
    }
}

SCENARIO(host_messages)
{
    Cfg c{ true, ch.choose(4, "authentication"), false, rOk, tOk, -1 };
    explore(ch, c, vh::bound(3, 4), true);
}
SCENARIO(guest_messages)
{
    Cfg c{ false, 0, ch.flag("has a secret"), rOk, tOk, -1 };
    explore(ch, c, vh::bound(3, 4), true);
}
// misbehaving handlers and a transport that breaks at any transmission
SCENARIO(handlers_and_faults)
{
    Cfg c{ ch.flag("host"), 0, false, rOk, tOk, -1 };
    c.r = ch.choose(nR, "receive handler");
    c.t = ch.choose(nT, "transition handler");
    c.failFrom = ch.choose(6, "transport breaks at") - 1;
    if (c.r == rOk && c.t == tOk && c.failFrom < 0) throw vh::Prune{};
    explore(ch, c, vh::bound(2, 3), true);
}
SCENARIO(never_started)
{
    bool host = ch.flag("host");
    auto link = std::make_shared<sim::Link>();
    bool taken = ch.flag("channel already in use");
    auto channel = io::make_channel<sim::SimChannel>(link, 0);
    int closedN = 0;
    {
        Connection c{ channel, host };
        vh::check(c.state() == DotsConnectionState::suspended && !c.connected() && !c.closed(), "a connection starts suspended");
        if (taken)
        {
            channel->init(registry());
            bool threw = false;
            try { c.asyncReceive(registry(), nullptr, "me", [](Connection&, io::Transmission) { return true; }, [&](Connection& x, std::exception_ptr) { closedN += x.closed(); }); } catch (const std::logic_error&) { threw = true; }
            vh::check(threw, "a channel is only used once");
        }
    }
    vh::check(closedN == (taken ? 1 : 0), "a started connection ends closed");
    vh::check(link->sent[1].empty(), "nothing is sent");
}
SCENARIO(identities)
{
    int n = 2 + ch.choose(3, "guests");
    std::set<uint32_t> ids; uint32_t last = 1;
    std::vector<std::unique_ptr<Connection>> cs;
    for (int i = 0; i < n; ++i)
    {
        cs.push_back(std::make_unique<Connection>(io::make_channel<sim::SimChannel>(std::make_shared<sim::Link>(), 0), true));
        cs.back()->asyncReceive(registry(), nullptr, "me", [](Connection&, io::Transmission) { return true; }, [](Connection&, std::exception_ptr) {});
        vh::check(cs.back()->peerId() > last, "every guest gets an identity of its own");
        last = cs.back()->peerId();
        if (ch.flag("leaves")) cs.pop_back();
    }
}
VH_MAIN
