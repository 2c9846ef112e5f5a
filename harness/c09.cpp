// C09: host and guests converge, over every interleaving of their operations and of the deliveries between them.
#include "net.h"
using namespace net;
using vh::Chooser;

namespace
{
    constexpr uint32_t V = 1u << 2, E = 1u << 3;

    Op subset(int t, MV r, uint32_t attrs) { return Op{ Op::pub, t, r, attrs | 2u }; }

    // what one party does to the shared record; `who` makes its values its own
    std::vector<Op> alphabet(const std::string& who, bool all)
    {
        std::vector<Op> a{
            pub(tPair, rec(tPair, 1, who, 0.5)),
            rem(tPair, 1),
            pub(tPair, rec(tPair, 1), V),
            subset(tPair, rec(tPair, 1, "hidden", who.size() * 2.0), E),
        };
        if (all)
        {
            a.push_back(pub(tPair, rec(tPair, 2, who)));
            a.push_back(pub(tPair, rec(tPair, 1, who)));
            a.push_back(pub(tTransient, rec(tTransient, 1, who)));
            a.push_back(rem(tTransient, 1));
            a.push_back(pub(tUncached, rec(tUncached, 1, who)));
        }
        return a;
    }
    Config config(int guests, bool all = false)
    {
        Config c; c.guests = guests; c.headers = false; c.lockstep = false;
        if (all) c.hostPolicy = Registry::StaticTypePolicy::All;
        return c;
    }
    void start(World& w, int i, std::vector<int> types)
    {
        w.guestOp(i, Op{ Op::open });
        w.settle("opening");
        for (int t : types) { w.guestOp(i, sub(t)); w.settle("subscribing"); }
    }
    void explore(Chooser& ch, World& w, std::vector<std::vector<Op>> guests, std::vector<Op> host = {})
    {
        Explorer e(w);
        for (size_t i = 0; i < guests.size(); ++i) e.guests[i].ops = std::move(guests[i]);
        e.host.ops = std::move(host);
        if (!e.run(ch)) throw vh::Prune{};
        w.converged("at rest");
        vh::outcome(w.hash());
    }
}
SCENARIO(two_writers)
{
    auto c = config(2);
    auto a = alphabet("g0", false), b = alphabet("guest1", false);
    std::vector<Op> x, y;
    for (int k = 0; k < 2; ++k) x.push_back(ch.of(a));
    for (int k = 0; k < vh::bound(1, 2); ++k) y.push_back(ch.of(b));
    World w(c);
    start(w, 0, { tPair });
    start(w, 1, { tPair });
    explore(ch, w, { x, y });
}
SCENARIO(late_guest)
{
    auto c = config(2);
    auto a = alphabet("g0", false);
    bool content = vh::thorough() ? ch.flag() : true;
    std::vector<Op> x;
    for (int k = 0; k < vh::bound(3, 4); ++k) x.push_back(ch.of(a));
    World w(c);
    start(w, 0, { tPair });
    if (content) { w.guestOp(0, pub(tPair, rec(tPair, 1, "before"))); w.guestOp(0, pub(tPair, rec(tPair, 3, "other"))); w.settle("content"); }
    explore(ch, w, { x, { Op{ Op::open }, sub(tPair) } });
}
SCENARIO(host_writer)
{
    auto c = config(2); c.hostPolicy = Registry::StaticTypePolicy::All;
    auto a = alphabet("h", false), b = alphabet("guest0", false);
    if (!vh::thorough()) b.resize(2);
    std::vector<Op> x{ ch.of(a), ch.of(a) }, y{ ch.of(b) };
    World w(c);
    w.hostOp(sub(tPair));
    start(w, 0, { tPair });
    explore(ch, w, { y, { Op{ Op::open }, sub(tPair) } }, x);
}
SCENARIO(types)
{
    auto c = config(2);
    auto a = alphabet("g0", true), b = alphabet("guest1", true);
    std::vector<Op> x{ ch.of(a) }, y{ ch.of(b) };
    World w(c);
    std::vector<int> all{ tPair, tTransient, tUncached };
    start(w, 0, all); start(w, 1, all);
    explore(ch, w, { x, y });
}
SCENARIO(preload)
{
    auto c = config(2);
    c.preload[1] = { tPair, tTransient };
    auto a = alphabet("g0", true);
    std::vector<Op> x{ ch.of(a) };
    World w(c);
    start(w, 0, { tPair });
    w.guestOp(0, pub(tPair, rec(tPair, 1, "before"))); w.settle("content");
    explore(ch, w, { x, { Op{ Op::open }, sub(tPair), pub(tPair, rec(tPair, 1, "guest1")) } });
}
SCENARIO(three_guests)
{
    auto c = config(3);
    auto a = alphabet("g0", false), b = alphabet("guest1", false);
    if (!vh::thorough()) { a.resize(2); b.resize(2); }
    std::vector<Op> x{ ch.of(a) }, y{ ch.of(b) };
    World w(c);
    for (int i = 0; i < 2; ++i) start(w, i, { tPair });
    explore(ch, w, { x, y, { Op{ Op::open }, sub(tPair) } });
}
// a host whose handlers publish in reply: everybody ends with what the host has
SCENARIO(host_reacts)
{
    auto c = config(2, true); c.steps = false;
    auto b = alphabet("guest0", false);
    World w(c);
    bool events = ch.flag();
    int when = ch.choose(3, "in reply to"); // create, update, remove
    int what = ch.choose(vh::bound(4, 6), "reply");
    int left = 1 + ch.choose(2, "replies");
    int byHost = ch.choose(2, "who starts");
    std::vector<Op> x{ ch.of(b) };
    if (vh::thorough()) x.push_back(ch.of(b));
    auto act = [&](const Op& o)
    {
        AnyStruct a = make(staticType(o.type), o.rec);
        if (o.k == Op::pub) w.host->publish(*a, PropertySet{ o.attrs }); else w.host->remove(*a);
    };
    auto react = [&]
    {
        if (left == 0) return;
        --left;
        if (what == 0) act(pub(tPair, rec(tPair, 1, "reply", 7.0)));
        if (what == 1) act(rem(tPair, 1));
        if (what == 2) { act(rem(tPair, 1)); act(pub(tPair, rec(tPair, 1, "second"))); }
        if (what == 3) act(pub(tPair, rec(tPair, 2, "other")));
        if (what == 4) act(pub(tPair, rec(tPair, 1, std::nullopt, 1.0)));
        if (what == 5) { act(pub(tPair, rec(tPair, 1, "first"))); act(rem(tPair, 1)); }
    };
    start(w, 0, { tPair });
    w.guestOp(0, pub(tPair, rec(tPair, 1, "before")));
    w.settle("content");
    if (when == 0) { w.guestOp(0, rem(tPair, 1)); w.settle("content"); }
    dots::Subscription s = events
        ? w.host->subscribe<dots::types::VPair>([&](const dots::Event<dots::types::VPair>& e) { if (when == (e.isCreate() ? 0 : e.isUpdate() ? 1 : 2) && !e.header().fromCache.isValid()) react(); })
        : w.host->subscribe("VPair", dots::Transceiver::transmission_handler_t{ [&](const dots::io::Transmission& t) { if ((when == 2) == (t.header().removeObj == true)) react(); } });
    std::vector<Op> h;
    if (byHost) h.push_back(ch.of(alphabet("h", false)));
    std::vector<Op> y{ Op{ Op::open }, sub(tPair) };
    if (!vh::thorough()) { start(w, 1, {}); y = { sub(tPair) }; }
    explore(ch, w, { x, y }, h);
}
VH_MAIN
