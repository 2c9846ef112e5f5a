// C16: every transport carries the same.
#include "dx.h"
#include "domains.h"
#include <dots/GuestTransceiver.h>
#include <dots/HostTransceiver.h>
#include <dots/io/channels/LocalListener.h>
#include <dots/io/channels/LocalChannel.h>
#include <dots/io/channels/TcpChannel.h>
#include <dots/io/channels/UdsChannel.h>
#include <dots/io/channels/WebSocketChannel.h>
#include <VPair.dots.h>
#include <VAll.dots.h>
#include <VVecs.dots.h>
#include <VRec.dots.h>
#include <VTransient.dots.h>
#include <VUncached.dots.h>
#include <DotsMember.dots.h>
#include <DotsMsgHello.dots.h>
#include <DotsAuthentication.dots.h>
#include <DotsAuthenticationPolicy.dots.h>
#include <dots/io/auth/LegacyAuthManager.h>
#include <thread>
#include <csignal>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/resource.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <unistd.h>
#include <fcntl.h>

using namespace dx;
using namespace dots;
using vh::Chooser;

namespace
{
    const char* const transports[] = { "tcp-v2", "tcp-v1", "uds-v2", "uds-v1", "ws", "local" };
    constexpr int Tcp2 = 0, Tcp1 = 1, Uds2 = 2, Uds1 = 3, Ws = 4, Local = 5;

    struct Scratch
    {
        std::string dir;
        Scratch() { const char* base = ::getenv("TMPDIR"); std::string t = std::string(base ? base : "/tmp") + "/vt.XXXXXX"; dir = ::mkdtemp(t.data()); }
        ~Scratch() { for (auto* f : { "uds-v1", "uds-v2" }) ::unlink((dir + "/" + f).c_str()); ::rmdir(dir.c_str()); }
    };
    const std::string& scratch() { static Scratch s; return s.dir; }
    std::string myAddress() { int p = ::getpid(); return "127." + std::to_string(1 + (p >> 14) % 120) + "." + std::to_string((p >> 7) & 127) + "." + std::to_string(1 + (p & 127)); }
    int nextPort() { static int p = 20000; if (++p > 30000) p = 20001; return p; }

    // a host that waits for something that never happens is stuck
    void watch() { ::alarm(100); }
    struct Unwatch { Unwatch() { watch(); } ~Unwatch() { ::alarm(0); } };

    int patience = getenv("VT_PATIENCE") ? atoi(getenv("VT_PATIENCE")) : 15;
    struct World;
    struct Log
    {
        std::vector<std::string> events;
        void add(const char* what, const Struct& transmitted, const Struct& updated, property_set_t props)
        {
            events.push_back(std::string(what) + " " + props.toString() + " " + dx::str(readStruct(transmitted)).substr(0, 4000) + " -> " + dx::str(readStruct(updated)).substr(0, 4000));
        }
    };
    struct Guest
    {
        World& w;
        std::string name;
        asio::io_context io;
        size_t run() { io.restart(); return io.poll(); }
        std::vector<int> states;
        std::vector<std::string> errors;
        std::unique_ptr<GuestTransceiver> g;
        std::vector<Subscription> subs;
        Log log;
        int marker = -1;
        Guest(World& w_, std::string n);
        ~Guest();
        void open(int transport);
        template <typename T> void listen() { subs.push_back(g->subscribe<T>([this](const Event<T>& e) { log.add(e.isRemove() ? "remove" : e.isCreate() ? "create" : "update", e.transmitted(), e.updated(), e.newProperties()); })); }
        void listenMarker() { subs.push_back(g->subscribe<VUncached>([this](const Event<VUncached>& e) { marker = std::max<int>(marker, *e().id); })); }
        std::string why() const { std::string r; for (auto& e : errors) r += " (" + e + ")"; return r; }
        bool up() const { return g->connected(); }
        bool down() const { return !states.empty() && states.back() == static_cast<int>(DotsConnectionState::closed); }
    };
    struct World
    {
        Unwatch u;
        asio::io_context hio;
        std::vector<Guest*> guests;
        Guest* deaf = nullptr;
        std::vector<std::pair<uint32_t, int>> states;
        std::unique_ptr<HostTransceiver> host = std::make_unique<HostTransceiver>("host", hio, Registry::StaticTypePolicy::All, Transceiver::transition_handler_t{ [this](const Connection& c, std::exception_ptr) { states.emplace_back(c.peerId(), static_cast<int>(c.state())); } });
        std::string uris[6];
        int ports[6] = {};
        io::LocalListener* local = nullptr;
        std::vector<Subscription> subs;
        Log log;
        int marker = 0;
        World()
        {
            (void)VPair::_Descriptor(); (void)VAll::_Descriptor(); (void)VVecs::_Descriptor(); (void)VRec::_Descriptor(); (void)VTransient::_Descriptor(); (void)VUncached::_Descriptor();
        }
        ~World() { subs.clear(); host.reset(); hio.restart(); hio.poll(); }
        void listen(int t)
        {
            if (!uris[t].empty()) return;
            if (t == Local) { local = &host->listen<io::LocalListener>(); uris[t] = "local"; return; }
            if (t == Uds1 || t == Uds2) { uris[t] = std::string(transports[t]) + "://" + scratch() + "/" + transports[t]; host->listen(std::vector<io::Endpoint>{ io::Endpoint{ uris[t] } }); return; }
            for (int tries = 0;; ++tries)
            {
                ports[t] = nextPort();
                uris[t] = std::string(transports[t]) + "://" + myAddress() + ":" + std::to_string(ports[t]);
                try { host->listen(std::vector<io::Endpoint>{ io::Endpoint{ uris[t] } }); return; }
                catch (const std::exception&) { if (tries > 50) throw; }
            }
        }
        bool settle(const std::function<bool()>& done);
        void idle() { settle([n = 0]() mutable { return ++n > 3; }); }
        // whatever was sent before has arrived everywhere
        bool mark(std::vector<Guest*> gs)
        {
            for (auto* g : gs) // what a guest sent before has reached the host ...
            {
                if (!g->up()) continue;
                g->g->publish(VUncached{ .id = ++marker });
                if (!settle([&] { return !g->up() || g->marker >= marker; })) return false;
            }
            host->publish(VUncached{ .id = ++marker }); // ... and what the host sends then everyone
            return settle([&] { for (auto* x : gs) if (x->up() && x->marker < marker) return false; return true; });
        }
    };
    bool World::settle(const std::function<bool()>& done)
    {
        for (auto end = std::chrono::steady_clock::now() + std::chrono::seconds(patience); std::chrono::steady_clock::now() < end;)
        {
            size_t n = 0;
            hio.restart(); n += hio.poll();
            for (auto* g : std::vector<Guest*>(guests)) if (g != deaf) n += g->run();
            vh::transition();
            if (done()) return true;
            if (n == 0) ::usleep(100);
        }
        return false;
    }
    Guest::Guest(World& w_, std::string n) : w(w_), name(std::move(n))
    {
        w.guests.push_back(this);
        g = std::make_unique<GuestTransceiver>(name, io, Registry::StaticTypePolicy::All, Transceiver::transition_handler_t{ [this](const Connection& c, std::exception_ptr e) {
            states.push_back(static_cast<int>(c.state()));
            if (e) { try { std::rethrow_exception(e); } catch (const std::exception& x) { errors.push_back(x.what()); } catch (...) {} }
        } });
    }
    Guest::~Guest()
    {
        subs.clear(); g.reset();
        run();
        w.guests.erase(std::find(w.guests.begin(), w.guests.end(), this));
    }
    void Guest::open(int t)
    {
        w.listen(t);
        if (t == Local) { g->open(io::make_channel<io::LocalChannel>(io, *w.local)); return; }
        if (t != Ws) { g->open(io::Endpoint{ w.uris[t] }); return; }
        io::channel_ptr_t channel; // waits for the host's answer
        std::exception_ptr e;
        std::atomic<bool> done{ false };
        std::thread th{ [&] { try { channel = io::make_channel<io::WebSocketChannel>(io, io::Endpoint{ w.uris[t] }); } catch (...) { e = std::current_exception(); } done = true; } };
        w.settle([&] { return done.load(); });
        th.join();
        if (e) std::rethrow_exception(e);
        g->open(std::move(channel));
    }
    std::string show(const std::vector<std::string>& v, size_t from) { std::string r; for (size_t i = from; i < v.size() && i < from + 3; ++i) r += (r.empty() ? "" : "; ") + v[i].substr(0, 300); return r; }
    void same(const Log& want, const Log& got, const std::string& where, const std::string& who)
    {
        if (want.events == got.events) return;
        size_t i = 0;
        while (i < want.events.size() && i < got.events.size() && want.events[i] == got.events[i]) ++i;
        vh::check(false, where + ": " + who + " saw [" + show(got.events, i) + "] instead of [" + show(want.events, i) + "]");
    }
    template <typename T> std::string contents(Transceiver& t)
    {
        std::string r;
        for (const auto& [i, c] : t.container<T>()) r += dx::str(readStruct(*i)) + ";";
        return r;
    }
}

// two guests on any two transports and the host see the same of every short history
SCENARIO(carry)
{
    int ta = ch.choose(6, "writer's transport"), tb = ch.choose(6, "reader's transport");
    bool late = ch.flag("late");
    if (!vh::thorough() && (ta == Ws || tb == Ws)) // it is slow, with its delayed acknowledgements
    {
        int other = ta == Ws ? tb : ta;
        if (late || (other != Ws && other != Tcp2)) throw vh::Prune{};
    }
    int depth = vh::bound(2, 3), previous = -1;
    struct Step { int op, by; bool settle; };
    std::vector<Step> script;
    for (int i = 0; i < depth; ++i)
    {
        int op = ch.choose(10, "operation"), by = op < 5 ? 0 : op < 8 ? 1 : 2;
        script.push_back({ op, by, (i > 0 && previous != by) || (i > 0 && ch.flag("settle")) });
        previous = by;
    }
    World w;
    w.subs.push_back(w.host->subscribe<VPair>([&](const Event<VPair>& e) { w.log.add(e.isRemove() ? "remove" : e.isCreate() ? "create" : "update", e.transmitted(), e.updated(), e.newProperties()); }));
    Guest a{ w, "a" }, b{ w, "b" };
    std::string where = std::string(transports[ta]) + " and " + transports[tb] + (late ? ", late" : "") + ":";
    a.open(ta);
    b.open(tb);
    vh::check(w.settle([&] { return a.up() && b.up(); }), where + " no connection" + a.why() + b.why());
    a.listen<VPair>(); a.listenMarker();
    b.listenMarker();
    if (!late) b.listen<VPair>();
    vh::check(w.mark({ &a, &b }), where + " nothing arrives");
    vh::check(a.up() && b.up(), where + " the connection ended" + a.why() + b.why());
    std::map<int, MV> model;
    int i = -1;
    for (auto [op, by, settle] : script)
    {
        ++i;
        static const char* names[] = { "a writes all", "a writes a part", "a writes a part of more", "a removes", "a writes another", "the host writes all", "the host writes a part of more", "the host removes", "b writes a part of more", "b writes an empty text" };
        if (settle) { vh::check(w.mark({ &a, &b }), where + " nothing arrives"); vh::check(a.up() && b.up(), where + " the connection ended" + a.why() + b.why()); where += ","; }
        where += std::string(" ") + names[op];
        Transceiver& t = by == 0 ? static_cast<Transceiver&>(*a.g) : by == 1 ? static_cast<Transceiver&>(*w.host) : *b.g;
        VPair p{ .id = op == 4 ? 2 : 1, .value = std::string(1, 'a' + op) + std::to_string(i), .extra = op + i / 10.0 };
        property_set_t props = p._validProperties();
        bool remove = op == 3 || op == 7;
        switch (op)
        {
            case 1: p.extra.reset(); props = p._validProperties(); break;
            case 2: props = VPair::value_p; break;
            case 6: props = VPair::extra_p; break;
            case 8: props = VPair::extra_p; break;
            case 9: p.value = ""; p.extra.reset(); props = p._validProperties(); break;
        }
        if (remove) { t.remove(p); props = VPair::id_p; }
        else { t.publish(p, props); props += VPair::id_p; }
        MV v = dx::mOnly(readStruct(p), props.toValue());
        if (remove)
        {
            if (auto it = model.find(*p.id); it != model.end()) model.erase(it);
        }
        else model[*p.id] = dx::mCopy(model.count(*p.id) ? model[*p.id] : MV::St(), v, props.toValue());
        vh::transition();
    }
    vh::check(w.mark({ &a, &b }), where + " nothing arrives");
    vh::check(a.up() && b.up(), where + " the connection ended" + a.why() + b.why());
    ch.note(where);
    if (late) { b.listen<VPair>(); vh::check(w.settle([&] { return contents<VPair>(*b.g) == contents<VPair>(*w.host); }), where + ": b was not told what there is: " + contents<VPair>(*b.g)); }
    std::string all;
    for (auto& [k, v] : model) all += dx::str(v) + ";";
    vh::check(contents<VPair>(*w.host) == all, where + ": the host has " + contents<VPair>(*w.host) + " instead of " + all);
    vh::check(contents<VPair>(*a.g) == all, where + ": a has " + contents<VPair>(*a.g) + " instead of " + all);
    vh::check(contents<VPair>(*b.g) == all, where + ": b has " + contents<VPair>(*b.g) + " instead of " + all);
    same(w.log, a.log, where, "a");
    if (!late) same(w.log, b.log, where, "b");
    uint64_t h = 0;
    for (auto& e : w.log.events) h = vh::mix(h, vh::hashStr(e));
    vh::state(vh::mix(h, ta * 6 + tb));
    vh::outcome(h);
}

namespace
{
    struct TwoWay // a guest on a transport, the host, and another guest on another transport
    {
        World w;
        Guest a{ w, "a" }, b{ w, "b" };
        std::string where;
        TwoWay(int ta, int tb) : where(std::string(transports[ta]) + " and " + transports[tb])
        {
            a.open(ta);
            b.open(tb);
            vh::check(w.settle([&] { return a.up() && b.up(); }), where + ": no connection" + a.why() + b.why());
            a.listenMarker(); b.listenMarker();
        }
        void mark(const std::string& what)
        {
            vh::check(w.mark({ &a, &b }), where + what + ": nothing arrives");
            vh::check(a.up() && b.up(), where + what + ": the connection ended" + a.why() + b.why());
        }
    };
    template <typename T> std::vector<MV> allValues(bool json)
    {
        std::vector<MV> r;
        auto& d = T::_Descriptor();
        MV key = MV::St();
        for (auto& pd : d.propertyDescriptors()) if (pd.isKey()) key.p[pd.tag()] = dom::few(pd.valueDescriptor())[0];
        for (auto& pd : d.propertyDescriptors())
            for (auto& v : dom::full(pd.valueDescriptor(), json))
            {
                MV m = key;
                m.p[pd.tag()] = v;
                r.push_back(m);
            }
        return r;
    }
    template <typename T> void valuesOf(int ta, int tb, bool fromHost)
    {
        bool json = ta == Ws || tb == Ws;
        TwoWay t{ ta, tb };
        t.where += std::string(" ") + T::_Descriptor().name() + (fromHost ? " from the host" : "");
        std::vector<MV> got[3];
        auto listen = [&](int i, Transceiver& x) { return x.subscribe<T>([&got, i](const Event<T>& e) { got[i].push_back(readStruct(e.transmitted())); }); };
        std::vector<Subscription> subs;
        subs.push_back(listen(0, *t.a.g)); subs.push_back(listen(1, *t.b.g)); subs.push_back(listen(2, *t.w.host));
        t.mark(" at first");
        auto vs = allValues<T>(json);
        for (auto& v : vs)
        {
            AnyStruct s = dx::make(T::_Descriptor(), v);
            if (fromHost) t.w.host->publish(*s); else t.a.g->publish(*s);
            vh::transition();
        }
        t.mark(" afterwards");
        for (int i = 0; i < 3; ++i)
        {
            static const char* who[] = { "a", "b", "the host" };
            vh::check(got[i].size() == vs.size(), t.where + ": " + who[i] + " received " + std::to_string(got[i].size()) + " of " + std::to_string(vs.size()));
            for (size_t k = 0; k < vs.size(); ++k) vh::checkF(dx::eq(got[i][k], vs[k]) || dx::str(got[i][k]) == dx::str(vs[k]), [&] { return t.where + ": " + dx::str(vs[k]).substr(0, 500) + " arrived at " + who[i] + " as " + dx::str(got[i][k]).substr(0, 500); });
        }
        subs.clear();
        vh::state(vh::hashStr(t.where));
    }
}

// every boundary value of every property type
SCENARIO(values)
{
    int ta = ch.choose(6, "writer's transport"), tb = ch.choose(6, "reader's transport"), type = ch.choose(3, "type");
    bool fromHost = ch.flag("from the host");
    if (fromHost && ta > tb) throw vh::Prune{};
    if (type == 0) valuesOf<VAll>(ta, tb, fromHost);
    else if (type == 1) valuesOf<VVecs>(ta, tb, fromHost);
    else valuesOf<VRec>(ta, tb, fromHost);
    vh::outcome(type);
}

// many and big ones, before anybody reads
SCENARIO(bursts)
{
    int ta = ch.choose(6, "writer's transport"), tb = ch.choose(6, "reader's transport");
    int by = ch.choose(2, "from");
    static const std::vector<size_t> sizes{ 0, 1, 100, 1990, 2000, 2010, 2020, 2030, 2040, 2050, 4090, 65500, 65536, 1 << 20, 3 << 20 };
    size_t size = ch.of(sizes, "size");
    int n = ch.of(std::vector<int>{ 1, 2, 7, 100 }, "count");
    if (static_cast<size_t>(n) * size > (vh::thorough() ? 9u << 20 : 4u << 20)) throw vh::Prune{};
    if (!vh::thorough() && ta != tb && (size != 100 && size != 2020 && size != 65536)) throw vh::Prune{};
    if (!vh::thorough() && ta != tb && n * size > 1 << 20) throw vh::Prune{};
    bool mixed = ch.flag("mixed");
    TwoWay t{ ta, tb };
    t.where += (by ? " from the host " : " ") + std::to_string(n) + " of " + std::to_string(size) + (mixed ? " mixed" : "");
    std::vector<std::string> got[3];
    std::vector<Subscription> subs;
    auto listen = [&](int i, Transceiver& x) { return x.subscribe<VPair>([&got, i](const Event<VPair>& e) { got[i].push_back(std::to_string(*e().id) + ":" + std::string(*e().value)); }); };
    subs.push_back(listen(0, *t.a.g)); subs.push_back(listen(1, *t.b.g)); subs.push_back(listen(2, *t.w.host));
    t.mark(" at first");
    std::vector<std::string> want;
    for (int i = 0; i < n; ++i)
    {
        std::string v(mixed && i % 2 ? 3 : size, static_cast<char>('a' + i % 26));
        VPair p{ .id = i, .value = v };
        if (by) t.w.host->publish(p); else t.a.g->publish(p);
        want.push_back(std::to_string(i) + ":" + v);
        vh::transition();
    }
    t.mark(" afterwards");
    for (int i = 0; i < 3; ++i) vh::check(got[i] == want, t.where + ": not the same arrived at " + std::to_string(i) + ": " + std::to_string(got[i].size()) + " of " + std::to_string(n));
    subs.clear();
    vh::state(vh::hashStr(t.where));
    vh::outcome(n);
}

// whoever goes, goes once and takes only his own along
SCENARIO(endings)
{
    int ta = ch.choose(6, "leaver's transport"), tb = ch.choose(6, "other's transport"), how = ch.choose(5, "end"), polled = ch.choose(3, "polled");
    TwoWay t{ ta, tb };
    static const char* hows[] = { " a goes", " a goes just after publishing", " the host goes", " a goes, comes again and goes", " both go" };
    t.where += hows[how];
    t.b.listen<VTransient>();
    t.mark(" at first");
    t.a.g->publish(VTransient{ .id = 1, .value = "a" });
    t.b.g->publish(VTransient{ .id = 2, .value = "b" });
    t.mark(" before");
    auto closed = [&] { return std::count_if(t.w.states.begin(), t.w.states.end(), [](auto& s) { return s.second == static_cast<int>(DotsConnectionState::closed); }); };
    auto poll = [&] { for (int i = 0; i < polled; ++i) { t.a.run(); t.b.run(); if (i) { t.w.hio.restart(); t.w.hio.poll(); } } };
    vh::state(vh::mix(vh::hashStr(t.where), polled));
    vh::outcome(how);
    if (how == 2)
    {
        t.b.subs.clear(); // handlers of b refer to b only, they may stay
        poll();
        t.w.host.reset();
        vh::check(t.w.settle([&] { return t.a.down() && t.b.down(); }), t.where + ": not noticed");
        for (auto* g : { &t.a, &t.b }) vh::check(std::count(g->states.begin(), g->states.end(), static_cast<int>(DotsConnectionState::closed)) == 1, t.where + ": noticed several times");
        return;
    }
    if (how == 1) t.a.g->publish(VTransient{ .id = 3, .value = std::string(70000, 'c') });
    poll();
    t.a.subs.clear();
    t.a.g.reset();
    int goes = 1;
    if (how == 4) { t.b.subs.clear(); t.b.g.reset(); goes = 2; }
    vh::check(t.w.settle([&] { return closed() == goes; }), t.where + ": the host did not notice");
    if (how == 4)
    {
        vh::check(contents<VTransient>(*t.w.host).empty(), t.where + ": the host still has " + contents<VTransient>(*t.w.host));
    }
    if (how == 3)
    {
        Guest c{ t.w, "a" };
        c.open(ta);
        vh::check(t.w.settle([&] { return c.up(); }), t.where + ": no connection" + c.why());
        c.g->publish(VTransient{ .id = 1, .value = "c" });
        vh::check(t.w.settle([&] { return contents<VTransient>(*t.b.g).find("'c'") != std::string::npos; }), t.where + ": nothing arrives");
        c.subs.clear();
        c.g.reset();
        vh::check(t.w.settle([&] { return closed() == 2; }), t.where + ": the host did not notice the second time");
    }
    if (how != 4)
    {
        vh::check(t.w.mark({ &t.b }), t.where + ": nothing arrives afterwards");
        for (Transceiver* x : { static_cast<Transceiver*>(t.w.host.get()), static_cast<Transceiver*>(t.b.g.get()) })
            vh::check(x->container<VTransient>().size() == 1 && contents<VTransient>(*x).find("'b'") != std::string::npos, t.where + ": what is left is " + contents<VTransient>(*x));
        vh::check(t.b.up(), t.where + ": b went as well" + t.b.why());
    }
    Guest d{ t.w, "d" };
    d.open(ta);
    vh::check(t.w.settle([&] { return d.up(); }), t.where + ": no connection afterwards" + d.why());
    vh::check(closed() == goes + (how == 3), t.where + ": ends were reported " + std::to_string(closed()) + " times");
}

namespace
{
    struct Fd
    {
        int fd = -1;
        ~Fd() { if (fd >= 0) ::close(fd); }
        void dial(World& w, int t)
        {
            bool uds = t == Uds1 || t == Uds2;
            fd = ::socket(uds ? AF_UNIX : AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
            int rc;
            if (uds)
            {
                sockaddr_un a{}; a.sun_family = AF_UNIX;
                std::strcpy(a.sun_path, (scratch() + "/" + transports[t]).c_str());
                rc = ::connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a);
            }
            else
            {
                sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(static_cast<uint16_t>(w.ports[t]));
                ::inet_pton(AF_INET, myAddress().c_str(), &a.sin_addr);
                rc = ::connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a);
            }
            vh::check(rc == 0, std::string(transports[t]) + ": nobody listens any more");
            ::fcntl(fd, F_SETFL, O_NONBLOCK);
        }
        void say(const std::string& s) { (void)!::send(fd, s.data(), s.size(), MSG_NOSIGNAL); }
        void hangUp(bool hard) { if (hard) { linger l{ 1, 0 }; ::setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); } ::close(fd); fd = -1; }
    };
    const char* const callers[] = { "hangs up", "hangs up hard", "talks garbage", "talks garbage and hangs up", "stays silent", "stops in the middle", "makes no sense", "starts well and hangs up hard", "is a guest that goes at once", "is a guest" };
    std::string upgrade(const char* protocol, const char* key = "dGhlIHNhbXBsZSBub25jZQ==") { return std::string("GET / HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: upgrade\r\nSec-WebSocket-Key: ") + key + "\r\nSec-WebSocket-Version: 13\r\n" + (protocol ? std::string("Sec-WebSocket-Protocol: ") + protocol + "\r\n" : std::string{}) + "\r\n"; }
}

// whatever calls, the next one is served
SCENARIO(doors)
{
    int t = ch.choose(6, "transport");
    int n = vh::bound(2, 3);
    struct Call { int what; bool poll; };
    std::vector<Call> calls;
    for (int i = 0; i < n; ++i)
    {
        calls.push_back({ ch.choose(10, "caller"), ch.flag("polled") });
        if (t == Local && calls.back().what < 8) throw vh::Prune{};
    }
    World w;
    Guest first{ w, "first" };
    first.open(t);
    std::string where = transports[t];
    vh::check(w.settle([&] { return first.up(); }), where + ": no connection" + first.why());
    first.listenMarker();
    first.listen<VPair>();
    vh::check(w.mark({ &first }), where + ": nothing arrives at first");
    std::vector<std::unique_ptr<Fd>> fds;
    std::vector<std::unique_ptr<Guest>> guests;
    size_t good = 1;
    for (auto [what, poll] : calls)
    {
        where += std::string(", one ") + callers[what];
        if (what < 8)
        {
            fds.push_back(std::make_unique<Fd>());
            Fd& f = *fds.back();
            f.dial(w, t);
            switch (what)
            {
                case 0: f.hangUp(false); break;
                case 1: f.hangUp(true); break;
                case 2: f.say(std::string(300, '\xff')); break;
                case 3: f.say(std::string(300, '\x5b') + "\r\n\r\n"); f.hangUp(false); break;
                case 5: f.say(t == Ws ? upgrade("dots-json").substr(0, 40) : std::string("\x1a\x00", 2)); break;
                case 6: f.say(t == Ws ? "GET / HTTP/1.1\r\nHost: x\r\n\r\n" : std::string("\x1a\xff\xff\xff\xff more", 10)); break;
                case 7: f.say(t == Ws ? upgrade("dots-json") : std::string("\x1a\x00\x00\x00\x10 something", 14)); f.hangUp(true); break;
            }
        }
        else
        {
            auto g = std::make_unique<Guest>(w, "g");
            if (what == 8 && t == Ws)
            {
                // the handshake takes the host's answer, the rest does not
                g->open(t);
                g.reset();
            }
            else
            {
                g->open(t);
                if (what == 8) g.reset();
                else { guests.push_back(std::move(g)); ++good; }
            }
        }
        if (poll) w.idle();
    }
    ch.note(where);
    vh::setNote(where);
    vh::check(w.settle([&] { for (auto& g : guests) if (!g->up()) return false; return true; }), where + ": a guest was not served");
    Guest last{ w, "last" };
    last.open(t);
    vh::check(w.settle([&] { return last.up(); }), where + ": the next one was not served" + last.why());
    last.listenMarker();
    last.listen<VPair>();
    vh::check(w.mark({ &first, &last }), where + ": nothing arrives");
    w.host->publish(VPair{ .id = 1, .value = "x" });
    last.g->publish(VPair{ .id = 2, .value = "y" });
    vh::check(w.mark({ &first, &last }), where + ": nothing arrives afterwards");
    vh::check(first.up() && last.up() && first.log.events.size() == 2 && last.log.events.size() == 2, where + ": the guests did not get everything");
    vh::state(vh::hashStr(where));
    vh::outcome(t);
}

// a guest that does not read costs the others nothing
SCENARIO(deaf)
{
    int t = ch.choose(6, "transport"), o = ch.choose(6, "other's transport");
    size_t size = ch.of(std::vector<size_t>{ 1000, 100000, 1000000 }, "size");
    bool returns = ch.flag("reads again");
    if (!vh::thorough() && ((o != t && o != (t + 1) % 6) || size == 1000000)) throw vh::Prune{};
    World w;
    std::string where = std::string(transports[t]) + " does not read, " + transports[o] + " does, " + std::to_string(size);
    Guest d{ w, "deaf" }, b{ w, "b" };
    d.open(t);
    vh::check(w.settle([&] { return d.up(); }), where + ": no connection" + d.why());
    d.listenMarker(); d.listen<VPair>();
    vh::check(w.mark({ &d }), where + ": nothing arrives at first");
    b.open(o);
    vh::check(w.settle([&] { return b.up(); }), where + ": no connection" + b.why());
    b.listenMarker(); b.listen<VPair>();
    vh::check(w.mark({ &d, &b }), where + ": nothing arrives");
    size_t total = returns ? 3 << 20 : vh::thorough() ? 40 << 20 : 24 << 20;
    int n = static_cast<int>(std::min<size_t>(total / size, 4000));
    w.deaf = &d;
    vh::setNote(where);
    std::string v(size, 'v');
    for (int i = 0; i < n; ++i)
    {
        w.host->publish(VPair{ .id = i % 7, .value = v });
        vh::transition();
        if (i % 16 == 15 || size > 50000) { w.hio.restart(); w.hio.poll(); b.run(); }
    }
    vh::check(w.mark({ &b }), where + ": the other one did not get anything any more" + b.why());
    vh::check(b.log.events.size() == static_cast<size_t>(n), where + ": the other one got " + std::to_string(b.log.events.size()) + " of " + std::to_string(n));
    w.deaf = nullptr;
    if (returns)
    {
        vh::check(w.mark({ &d, &b }), where + ": nothing arrives later" + d.why());
        vh::check(d.up() && d.log.events.size() == static_cast<size_t>(n), where + ": it got " + std::to_string(d.log.events.size()) + " of " + std::to_string(n) + " later");
    }
    vh::state(vh::hashStr(where) + returns);
    vh::outcome(returns);
}

// no more files: those who are in stay in
SCENARIO(exhausted)
{
    int t = ch.choose(5, "transport"), before = ch.choose(2, "guests before");
    World w;
    std::string where = std::string(transports[t]) + ": when files run out";
    Guest first{ w, "first" }, second{ w, "second" };
    first.open(t);
    vh::check(w.settle([&] { return first.up(); }), where + ": no connection" + first.why());
    if (before) { second.open(t); vh::check(w.settle([&] { return second.up(); }), where + ": no connection" + second.why()); second.listenMarker(); second.listen<VPair>(); }
    first.listenMarker();
    first.listen<VPair>();
    std::vector<Guest*> gs{ &first };
    if (before) gs.push_back(&second);
    vh::check(w.mark(gs), where + ": nothing arrives at first");
    Fd caller;
    caller.dial(w, t);
    rlimit was{}, now{};
    ::getrlimit(RLIMIT_NOFILE, &was);
    now = was;
    now.rlim_cur = static_cast<rlim_t>(caller.fd);
    ::setrlimit(RLIMIT_NOFILE, &now);
    std::vector<int> taken; // whatever is free below the limit
    for (int fd; (fd = ::dup(2)) >= 0;) taken.push_back(fd);
    w.idle();
    ::setrlimit(RLIMIT_NOFILE, &was);
    for (int fd : taken) ::close(fd);
    w.host->publish(VPair{ .id = 1, .value = "x" });
    first.g->publish(VPair{ .id = 2, .value = "y" });
    vh::check(w.mark(gs), where + ": nothing arrives afterwards");
    for (auto* g : gs) vh::check(g->up() && g->log.events.size() == 2, where + ": the guests did not get everything");
    vh::state(vh::hashStr(where) + before);
    vh::outcome(t);
}

namespace
{
    template <typename... Args> io::channel_ptr_t tcpChannel(int t, Args&&... args)
    {
        if (t == Tcp2) return io::make_channel<io::v2::TcpChannel>(args...);
        return io::make_channel<io::v1::TcpChannel>(args...);
    }
}

// who gets in depends on the address, whatever carries it
SCENARIO(admission)
{
    struct Way { const char* listen; const char* from; const char* network; int part, whole; };
    static const Way ways[]{ { "", "", "", 32, 8 }, { "[::1]", "[::1]", "::1", 128, 64 }, { "[::]", "[::1]", "::1", 128, 64 }, { "[::]", "", "", 32, 8 } };
    int t = ch.choose(5, "transport"), way = ch.choose(4, "way"), rule = ch.choose(7, "rule"), response = ch.choose(3, "response");
    if ((t == Uds1 || t == Uds2) && way) throw vh::Prune{};
    if (rule < 4 && response) throw vh::Prune{};
    if (t == Ws && *ways[way].from) throw vh::Prune{}; // its client only connects to IPv4 addresses
    bool again = ch.flag("again");
    World w;
    std::string mine = myAddress(), listen = *ways[way].listen ? ways[way].listen : mine, from = *ways[way].from ? ways[way].from : mine, network = *ways[way].network ? ways[way].network : "127.0.0.1";
    bool v6 = network.find(':') != std::string::npos;
    static const char* rules[]{ "its own address may, others not", "its own address may not, others may", "another address may, others not", "its network may, others not", "its address may with the secret, others not", "its network may with the secret, others not", "another address may with a secret, others not" };
    std::string where = std::string(transports[t]) + " to " + (listen == mine ? "IPv4" : listen) + " from " + (from == mine ? "IPv4" : from) + ", " + rules[rule] + (response ? response == 1 ? ", right secret" : ", wrong secret" : "");
    vh::state(vh::hashStr(where + (again ? "+" : "")));
    w.host->setAuthManager<io::LegacyAuthManager>();
    DotsNetwork exact{ .network = network, .prefix = static_cast<uint8_t>(ways[way].part) }, whole{ .network = v6 ? std::string("::") : std::string("127.0.0.0"), .prefix = static_cast<uint8_t>(ways[way].whole) };
    DotsNetwork other{ .network = v6 ? std::string("::2") : std::string("126.0.0.1"), .prefix = static_cast<uint8_t>(ways[way].part) };
    DotsAuthentication a{ .nameSpace = "", .network = rule == 3 || rule == 5 ? whole : rule == 2 || rule == 6 ? other : exact, .clientName = "", .priority = 1, .accept = rule != 1 };
    if (rule >= 4) a.secret = "secret";
    w.host->publish(a);
    w.host->publish(DotsAuthenticationPolicy{ .nameSpace = "", .accept = rule == 1 });
    bool expected = rule == 0 || rule == 3 || ((rule == 4 || rule == 5) && response == 1) || t == Uds1 || t == Uds2;
    std::optional<std::string> secret;
    if (response) secret = response == 1 ? "secret" : "Secret";
    std::string target;
    if (t == Uds1 || t == Uds2) { w.listen(t); target = w.uris[t]; }
    else
    {
        for (int tries = 0;; ++tries)
        {
            w.ports[t] = nextPort() + (way ? 12000 + ::getpid() % 97 * 300 : 0);
            if (w.ports[t] > 60000) w.ports[t] = 20000 + w.ports[t] % 40000;
            try { w.host->listen(std::vector<io::Endpoint>{ io::Endpoint{ std::string(transports[t]) + "://" + listen + ":" + std::to_string(w.ports[t]) } }); break; }
            catch (const std::exception&) { if (tries > 50) throw; }
        }
        target = std::string(transports[t]) + "://" + from + ":" + std::to_string(w.ports[t]);
    }
    for (int k = 0; k <= again; ++k)
    {
        Guest g{ w, "g" };
        auto open = [&](io::channel_ptr_t c) { g.g->open({}, {}, secret, std::move(c)); };
        io::Endpoint e{ target };
        if (t == Tcp2 || t == Tcp1)
        {
            if (from == mine && k == 0) open(tcpChannel(t, g.io, e));
            else
            {
                int called = 0;
                boost::system::error_code error;
                auto connected = [&](const boost::system::error_code& x) { ++called; error = x; };
                io::channel_ptr_t channel = tcpChannel(t, g.io, e.host(), e.port(), connected);
                vh::check(w.settle([&] { return called > 0; }) && !error && called == 1, where + ": no connection " + error.message());
                open(std::move(channel));
            }
        }
        else if (t == Uds2) open(io::make_channel<io::posix::v2::UdsChannel>(g.io, e));
        else if (t == Uds1) open(io::make_channel<io::posix::v1::UdsChannel>(g.io, e));
        else
        {
            io::channel_ptr_t channel;
            std::exception_ptr failed;
            std::atomic<bool> done{ false };
            std::thread th{ [&] { try { channel = io::make_channel<io::WebSocketChannel>(g.io, e); } catch (...) { failed = std::current_exception(); } done = true; } };
            w.settle([&] { return done.load(); });
            th.join();
            if (failed) std::rethrow_exception(failed);
            open(std::move(channel));
        }
        vh::check(w.settle([&] { return g.up() || g.down(); }), where + ": neither admitted nor refused");
        vh::check(g.up() == expected, where + (g.up() ? ": admitted" : ": refused" + g.why()));
        if (expected) { g.listenMarker(); vh::check(w.mark({ &g }) && g.up(), where + ": nothing arrives"); }
    }
    vh::outcome(expected);
}

// connecting in the background, to somebody or nobody, given up at any time
SCENARIO(background)
{
    int t = ch.choose(2, "transport"), target = ch.choose(4, "target"), polls = ch.choose(5, "polls"), then = ch.choose(2, "then");
    static const char* targets[]{ "a host", "nobody", "no port", "no address" };
    World w;
    w.listen(t);
    Guest g{ w, "g" };
    std::string where = std::string(transports[t]) + " in the background to " + targets[target] + (then ? ", given up after " + std::to_string(polls) : "");
    if (!then && polls) throw vh::Prune{};
    vh::state(vh::hashStr(where));
    vh::setNote(where);
    int called = 0;
    boost::system::error_code error;
    auto connected = [&](const boost::system::error_code& x) { ++called; error = x; };
    std::string host = target == 3 ? "1:2:3" : myAddress(), port = target == 2 ? "x" : target == 1 ? "1" : std::to_string(w.ports[t]);
    io::channel_ptr_t channel = tcpChannel(t, g.io, host, port, connected);
    if (then)
    {
        for (int i = 0; i < polls; ++i) { ::usleep(i * 300); g.run(); w.hio.restart(); w.hio.poll(); }
        channel = {};
        w.idle();
        vh::check(called <= 1, where + ": the result was reported " + std::to_string(called) + " times");
        called = 0;
        channel = tcpChannel(t, g.io, host, port, connected);
    }
    vh::check(w.settle([&] { return called > 0; }), where + ": no result");
    w.idle();
    vh::check(called == 1, where + ": the result was reported " + std::to_string(called) + " times");
    vh::check(!error == (target == 0), where + ": " + error.message());
    vh::outcome(target);
    if (error) channel = {};
    else
    {
        g.g->open(std::move(channel));
        vh::check(w.settle([&] { return g.up(); }), where + ": no connection" + g.why());
        g.listenMarker();
        vh::check(w.mark({ &g }), where + ": nothing arrives");
    }
    Guest b{ w, "b" };
    b.open(t);
    vh::check(w.settle([&] { return b.up(); }), where + ": no connection afterwards" + b.why());
}

VH_MAIN
