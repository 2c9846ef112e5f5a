// C19: the daemon's account of its clients and of itself is true and is kept no longer than needed.
#include "vh.h"
#include "sim.h"
#include <DotsDaemon.h>
#include <DotsClient.dots.h>
#include <DotsDaemonStatus.dots.h>
#include <DotsCacheInfo.dots.h>
#include <DotsClearCache.dots.h>
#include <DotsEcho.dots.h>
#include <dots/GuestTransceiver.h>
#include <dots/io/Io.h>
#include "domains.h"
#include <VPair.dots.h>
#include <VTransient.dots.h>
#include <DotsMsgConnect.dots.h>
#include <sys/syscall.h>

using namespace dots;
using namespace dots::types;
using dx::MV; using dx::readStruct; using dx::str; using dx::eq;

static int64_t g_now = 0; // ns
static bool g_virtual = false;
extern "C" int clock_gettime(clockid_t id, timespec* t)
{
    if (g_virtual && (id == CLOCK_MONOTONIC || id == CLOCK_REALTIME)) { int64_t n = (id == CLOCK_MONOTONIC ? 1000ll : 1700000000ll) * 1000000000 + g_now; t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; return 0; }
    return syscall(SYS_clock_gettime, id, t);
}
extern "C" int timerfd_create(int, int) { errno = ENOSYS; return -1; }

namespace
{
    using S = std::string;
    asio::io_context& gio() { return io::global_io_context(); }

    struct Guest
    {
        std::unique_ptr<GuestTransceiver> t;
        sim::link_t link;
        std::vector<Subscription> subs;
        uint32_t id = 0;
        ~Guest() { subs.clear(); t.reset(); }
    };

    struct Record { S name; DotsConnectionState state; };
    struct Inst { uint32_t created, last; };

    struct World
    {
        std::unique_ptr<DotsDaemon> daemon;
        HostTransceiver* host;
        sim::SimListener* listener;
        Guest g[2], watcher;
        std::vector<sim::link_t> raw;
        std::map<uint32_t, Record> clients;             // every connection there was, but for those that were cleaned up
        std::map<std::pair<S, int64_t>, Inst> content;  // what the guests published
        std::map<uint32_t, S> watched;                  // the watcher's account
        uint32_t next = 0;
        timepoint_t started;

        World()
        {
            VPair::_Descriptor(); VTransient::_Descriptor();
            g_virtual = true;
            g_now = 0;
            gio().restart();
            gio().poll();
            setenv("DOTS_ENDPOINT", "", 1);
            static char name[] = "dotsd"; static char* argv[] = { name, nullptr };
            started = timepoint_t::Now();
            daemon = std::make_unique<DotsDaemon>("the daemon", 1, argv);
            host = &static_cast<HostTransceiver&>(daemon->transceiver());
            listener = static_cast<sim::SimListener*>(&host->listen(std::make_unique<sim::SimListener>()));
        }
        bool daemonFirst = false;
        ~World()
        {
            for (auto* x : { &g[0], &g[1], &watcher }) { x->subs.clear(); x->t.reset(); }
            daemon.reset();
            gio().restart();
            gio().poll();
        }
        bool can(const sim::link_t& l, int side) { return l && l->end[side] && l->end[side]->armed() && !l->q[side].empty(); }
        void drain()
        {
            for (bool more = true; more;)
            {
                more = false;
                auto go = [&](const sim::link_t& l, int s) { if (can(l, s)) { l->end[s]->deliver(); vh::transition(); more = true; } };
                for (auto* x : { &g[0], &g[1], &watcher }) for (int s : { 0, 1 }) go(x->link, s);
                for (auto& l : raw) go(l, 0);
            }
            gio().restart();
            gio().poll();
        }
        void advance(int64_t s) { g_now += s * 1000000000; gio().restart(); gio().poll(); drain(); }

        uint32_t newest()
        {
            uint32_t r = 0;
            for (auto& [i, info] : host->pool().get<DotsClient>()) { (void)info; r = std::max(r, *i.to<DotsClient>().id); }
            return r;
        }
        void open(Guest& x, const S& name)
        {
            x.link = std::make_shared<sim::Link>();
            x.t = std::make_unique<GuestTransceiver>(name, sim::ioc(), type::Registry::StaticTypePolicy::All);
            type::DescriptorMap types;
            for (auto* d : std::initializer_list<const type::StructDescriptor*>{ &VPair::_Descriptor(), &VTransient::_Descriptor() }) types.emplace(const_cast<type::StructDescriptor&>(*d));
            x.t->open(std::move(types), {}, std::nullopt, io::make_channel<sim::SimChannel>(x.link, 1, "uds:/x"));
            listener->accept(io::make_channel<sim::SimChannel>(x.link, 0, "uds:/x"));
            drain();
            x.id = x.t->connection().selfId();
            clients[x.id] = { name, DotsConnectionState::connected };
        }
        void over(uint32_t id)
        {
            if (auto it = clients.find(id); it != clients.end()) it->second.state = DotsConnectionState::closed;
            // what was to be withdrawn with its last writer
            for (auto it = content.begin(); it != content.end();) it = it->first.first == "VTransient" && it->second.last == id ? content.erase(it) : std::next(it);
        }
        void leave(Guest& x) { x.subs.clear(); x.t.reset(); raw.push_back(std::move(x.link)); over(x.id); drain(); }
        void published(const S& type, int64_t key, uint32_t by)
        {
            auto [it, isNew] = content.try_emplace({ type, key }, Inst{ by, by });
            if (!isNew) it->second.last = by;
        }
        void cleanUp()
        {
            std::set<uint32_t> used;
            for (auto& [k, i] : content) { (void)k; used.insert(i.created); used.insert(i.last); }
            for (auto& [k, i] : running) { (void)i; if (clients.count(k)) { used.insert(i.created); used.insert(i.last); } }
            for (auto it = clients.begin(); it != clients.end();)
                if (it->second.state == DotsConnectionState::closed && !used.count(it->first)) { running.erase(it->first); it = clients.erase(it); } else ++it;
        }
        std::map<uint32_t, Inst> running; // client records that guests wrote to themselves

        void judge(const S& where)
        {
            std::map<uint32_t, S> is, should, copy;
            auto text = [](const DotsClient& c) { return (c.name.isValid() ? *c.name : S{ "?" }) + " " + (c.connectionState.isValid() ? std::to_string(int(*c.connectionState)) : S{ "?" }) + (c.running.isValid() ? *c.running ? " running" : " not running" : ""); };
            for (auto& [i, info] : host->pool().get<DotsClient>()) { (void)info; is[*i.to<DotsClient>().id] = text(i.to<DotsClient>()); }
            for (auto& [id, r] : clients) should[id] = (r.name) + " " + std::to_string(int(r.state)) + (running.count(id) ? " running" : "");
            auto show = [](auto& m) { S s; for (auto& [k, v] : m) s += " " + std::to_string(k) + ": " + v + ","; return s; };
            for (auto& [k, v] : is) if (should.count(k) && should[k].substr(0, 2) == "* ") should[k] = v.substr(0, v.find(' ')) + should[k].substr(1); // the name of one that did not say it is the host's matter
            vh::checkF(is == should, [&] { return where + ": the daemon lists" + show(is) + " and should list" + show(should); });
            if (watcher.t) vh::checkF(watched == is, [&] { return where + ": a guest was told" + show(watched) + " and should have been told" + show(is); });
            uint64_t h = vh::mix(0, g_now);
            for (auto& [k, v] : is) h = vh::mix(h, vh::mix(k, vh::hashStr(v)));
            for (auto& [k, v] : content) h = vh::mix(h, vh::mix(vh::hashStr(k.first), vh::mix(v.created, v.last)));
            vh::state(h);
        }
        void watch()
        {
            open(watcher, "watcher");
            watcher.subs.push_back(watcher.t->subscribe<DotsClient>([this](const Event<DotsClient>& e) {
                if (e.isRemove()) watched.erase(*e().id);
                else { const DotsClient& c = e.updated(); watched[*c.id] = (c.name.isValid() ? *c.name : S{ "?" }) + " " + (c.connectionState.isValid() ? std::to_string(int(*c.connectionState)) : S{ "?" }) + (c.running.isValid() ? *c.running ? " running" : " not running" : ""); }
            }));
            drain();
        }
        void status(const S& where)
        {
            auto& c = host->pool().get<DotsDaemonStatus>();
            vh::check(c.size() == 1, where + ": the daemon publishes " + std::to_string(c.size()) + " records of its status");
            const DotsDaemonStatus& s = c.begin()->first.to<DotsDaemonStatus>();
            vh::check(s.serverName == "the daemon" && s.startTime == started, where + ": the status has another name or start time");
            vh::check(s.cache.isValid() && s.cache->nrTypes.isValid() && s.cache->size.isValid() && s.resourceUsage.isValid(), where + ": the status has no account of the cache or resources");
        }
    };
}

// every history of guests that come, publish, remove, leave, break and come again, with the passing of time
SCENARIO(clients)
{
    int start = ch.choose(3, "connected at first");
    bool watching = ch.flag("watching");
    int before = start == 2 ? ch.choose(3, "content") : 0;
    int depth = vh::bound(3, 4);
    std::vector<int> steps;
    for (int i = 0; i < depth; ++i)
    {
        int s = ch.choose(15, "step");
        if (s == 14) break;
        steps.push_back(s);
    }
    World w;
    if (watching) w.watch();
    for (int i = 0; i < start; ++i) w.open(w.g[i], i ? "b" : "a");
    for (int i = 0; i < before; ++i) { w.g[i].t->publish(VPair{ .id = 1, .value = "v" }); w.drain(); w.published("VPair", 1, w.g[i].id); }
    int64_t cleaned = 0;
    S where;
    auto advance = [&](int n)
    {
        size_t types = w.host->pool().size(), size = w.host->pool().totalMemoryUsage();
        w.advance(n);
        if (n == 1 && g_now / 1000000000 % 10 != 0)
        {
            w.status(where);
            auto& c = *w.host->pool().get<DotsDaemonStatus>().begin()->first.to<DotsDaemonStatus>().cache;
            vh::checkF(c.nrTypes == types && c.size == size, [&] { return where + ": the status says " + std::to_string(*c.nrTypes) + " types, " + std::to_string(*c.size) + " bytes, the cache has " + std::to_string(types) + ", " + std::to_string(size); });
        }
        for (; cleaned + 10 <= g_now / 1000000000; cleaned += 10) w.cleanUp();
    };
    for (int s : steps)
    {
        where += " " + std::to_string(s);
        switch (s)
        {
            case 0: case 1: if (w.g[s].t) w.leave(w.g[s]); else w.open(w.g[s], s ? "b" : "a"); break;
            case 2: case 3: { Guest& x = w.g[s - 2]; if (!x.t) throw vh::Prune{}; x.t->publish(VPair{ .id = 1, .value = "v" }); w.drain(); w.published("VPair", 1, x.id); break; }
            case 4: case 5: { Guest& x = w.g[s - 4]; if (!x.t) throw vh::Prune{}; x.t->publish(VTransient{ .id = 7 }); w.drain(); w.published("VTransient", 7, x.id); break; }
            case 6: { Guest& x = w.g[0]; if (!x.t) throw vh::Prune{}; x.t->publish(VPair{ .id = 1 }, std::nullopt, true); w.drain(); w.content.erase({ "VPair", 1 }); break; }
            case 7: { Guest& x = w.g[1]; if (!x.t) throw vh::Prune{}; w.over(x.id); if (x.link->end[0]) x.link->end[0]->fail("cut"); w.drain(); x.subs.clear(); x.t.reset(); x.link.reset(); break; }
            case 8: advance(1); break;
            case 9: advance(10); break;
            case 10: case 11: case 12: // a caller that says nothing, something, or leaves at once
            {
                uint32_t before = w.newest();
                auto l = std::make_shared<sim::Link>();
                w.listener->accept(io::make_channel<sim::SimChannel>(l, 0, "uds:/x"));
                w.raw.push_back(l);
                if (s == 11) l->push(1, sim::encode(DotsMsgConnect{ .clientName = "h", .preloadCache = true }));
                if (s == 12) { sim::Packet p; p.eof = true; l->push(1, p); }
                w.drain();
                uint32_t id = w.newest();
                vh::check(id != before, where + ": the daemon does not list a caller");
                w.clients[id] = { s == 11 ? "h" : "*", s == 11 ? DotsConnectionState::early_subscribe : s == 12 ? DotsConnectionState::closed : DotsConnectionState::connecting };
                break;
            }
            case 13: // as applications do
            {
                Guest& x = w.g[0];
                if (!x.t) throw vh::Prune{};
                x.t->publish(DotsClient{ .id = x.id, .running = true });
                w.drain();
                w.running[x.id] = { 1, x.id };
                break;
            }
        }
        for (auto& [id, i] : w.running) if (w.clients.count(id) && w.clients[id].state == DotsConnectionState::closed) i.last = 1;
        w.judge(where);
    }
    advance(10);
    w.judge(where + " in the end");
    if (!steps.empty()) w.status(where);
    advance(3);
    w.judge(where + " in the end, later");
    if (w.daemonFirst = int(steps.size()) < depth; w.daemonFirst)
    {
        w.daemon.reset();
        w.daemonFirst = false;
        for (auto* x : { &w.g[0], &w.g[1], &w.watcher })
        {
            while (x->link && w.can(x->link, 1)) x->link->end[1]->deliver();
            vh::check(!x->t || x->t->closed(), where + ": the daemon is gone and a guest does not know");
        }
    }
    vh::outcome(vh::mix(w.clients.size(), vh::mix(w.content.size(), w.watched.size())));
}

VH_MAIN
