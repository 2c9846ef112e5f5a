// C11: whatever way and whenever a guest goes: the host forgets it, withdraws what it leaves behind, and everybody else learns of it.
#include "net.h"
using namespace net;
using vh::Chooser;

namespace
{
    Config config(int guests, bool all = false)
    {
        Config c; c.guests = guests; c.headers = false;
        if (all) c.hostPolicy = Registry::StaticTypePolicy::All;
        return c;
    }
    void start(World& w, int i, std::vector<int> types = {})
    {
        w.guestOp(i, Op{ Op::open });
        w.compare("opening");
        w.settle("opening");
        for (int t : types) { w.guestOp(i, sub(t)); w.compare("subscribing"); w.settle("subscribing"); }
    }
    void explore(Chooser& ch, World& w, std::vector<std::vector<Op>> guests, std::vector<Op> host = {})
    {
        Explorer e(w);
        for (size_t i = 0; i < guests.size(); ++i) e.guests[i].ops = std::move(guests[i]);
        e.host.ops = std::move(host);
        if (!e.run(ch)) throw vh::Prune{};
        // nothing is left of those who are gone
        for (auto& [inst, ci] : w.host->container<dots::types::VTransient>())
        {
            bool alive = *ci.lastUpdateFrom == hostId;
            for (size_t i = 0; i < w.peers.size(); ++i) if (w.peers[i].id == static_cast<int>(*ci.lastUpdateFrom) && w.peers[i].st != 4) alive = true;
            vh::check(alive, "at rest: an instance to be cleaned up outlives its last writer");
        }
        w.converged("at rest");
        vh::outcome(w.hash());
    }
    std::vector<Op> alphabet(const std::string& who)
    {
        return { pub(tTransient, rec(tTransient, 1, who)), pub(tTransient, rec(tTransient, 2, who)), rem(tTransient, 1), pub(tPair, rec(tPair, 1, who)) };
    }
}
// the end of a guest between, before and after its own and another guest's changes
SCENARIO(any_moment)
{
    auto c = config(2, true);
    auto how = ch.choose(2, "how") ? Op::leave : Op::cut;
    std::vector<Op> y;
    auto a = alphabet("guest1");
    if (!vh::thorough()) a.resize(2);
    for (int k = 0; k < vh::bound(2, 3); ++k) y.push_back(ch.of(a));
    y.push_back(Op{ how });
    std::vector<Op> x{ ch.of(alphabet("g0")) };
    World w(c);
    w.hostOp(sub(tTransient));
    start(w, 0, { tPair, tTransient });
    start(w, 1, { tTransient });
    explore(ch, w, { x, y });
}
// the end before the handshake is over
SCENARIO(handshake)
{
    auto c = config(2);
    c.preload[1] = { tPair, tTransient };
    auto how = ch.choose(2, "how") ? Op::leave : Op::cut;
    std::vector<Op> y{ Op{ Op::open }, Op{ how } };
    std::vector<Op> x{ ch.of(alphabet("g0")) };
    World w(c);
    start(w, 0, { tPair, tTransient });
    w.guestOp(0, pub(tPair, rec(tPair, 7, "c"))); w.compare("content"); w.settle("content");
    explore(ch, w, { x, y });
}
// a host with a mind of its own: it takes further instances away, or makes new ones, when told of a removal
SCENARIO(reacting_host)
{
    auto c = config(2, true); c.lockstep = false;
    World w(c);
    w.relax = true;
    int n = 1 + ch.choose(3, "left behind");
    int what = ch.choose(4, "reaction");
    int at = ch.choose(n, "at"), to = ch.choose(n, "to");
    start(w, 0, { tPair, tTransient });
    start(w, 1);
    for (int k = 0; k < n; ++k) { w.guestOp(1, pub(tTransient, rec(tTransient, k, "left"))); w.settle("content"); }
    bool done = false;
    auto react = [&]
    {
        done = true;
        dots::types::VTransient v{ .id = to, .value = "again" };
        if (what == 0) w.host->remove(v);
        if (what == 1) w.host->publish(v);
        if (what == 2) { w.host->remove(v); w.host->publish(v); }
        if (what == 3) for (int k = 0; k < 64; ++k) w.host->publish(dots::types::VTransient{ .id = 100 + k });
    };
    dots::Subscription s = ch.flag() ? w.host->subscribe<dots::types::VTransient>([&](const dots::Event<dots::types::VTransient>& e) { if (e.isRemove() && !done && *e().id == at) react(); })
        : w.host->subscribe("VTransient", dots::Transceiver::transmission_handler_t{ [&](const dots::io::Transmission& t) { if (t.header().removeObj == true && !done && *t.instance()->_to<dots::types::VTransient>().id == at) react(); } });
    sim::SimChannel* end = w.g[1].link->end[0];
    end->fail("broken");
    while (w.canDeliverGuest(0)) w.g[0].link->end[1]->deliver();
    auto a = w.content(*w.host, tTransient), b = w.content(*w.g[0].t, tTransient);
    std::map<int64_t, bool> mine;
    for (auto& [inst, ci] : w.host->container<dots::types::VTransient>()) vh::check(*ci.lastUpdateFrom == hostId, "an instance to be cleaned up outlives its last writer");
    vh::check(a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), [](auto& x, auto& y) { return x.first == y.first && eq(x.second, y.second); }), "the watching guest holds" + World::showAll(b) + ", the host" + World::showAll(a));
    vh::outcome(vh::mix(a.size(), what * 100 + at * 10 + to));
}
// and back again
SCENARIO(again)
{
    auto c = config(2);
    bool pre = ch.flag();
    if (pre) c.preload[1] = { tPair, tTransient };
    World w(c);
    start(w, 0, { tPair, tTransient });
    start(w, 1, pre ? std::vector<int>{} : std::vector<int>{ tPair, tTransient });
    std::vector<Op> x{ ch.of(alphabet("g0")), };
    std::vector<Op> y{ pub(tTransient, rec(tTransient, 2, "first life")), Op{ ch.flag() ? Op::leave : Op::cut }, Op{ Op::open }, sub(tPair), pub(tPair, rec(tPair, 1, "second life")) };
    explore(ch, w, { x, y });
}
// the host finds out only when a transmission fails, at any of its transmissions
SCENARIO(broken_transport)
{
    auto c = config(3, true);
    std::vector<Op> x{ ch.of(alphabet("g0")), ch.of(alphabet("g00")) }, h{ pub(tTransient, rec(tTransient, 3, "host")) };
    World w(c);
    w.hostOp(sub(tTransient));
    start(w, 0, { tPair, tTransient });
    start(w, 1, { tTransient, tPair });
    start(w, 2, { tTransient });
    w.guestOp(1, pub(tTransient, rec(tTransient, 1, "guest1"))); w.compare("content"); w.settle("content");
    w.guestOp(1, pub(tTransient, rec(tTransient, 2, "guest1"))); w.compare("content"); w.settle("content");
    w.g[1].link->failFrom[0] = w.g[1].link->count[1] + ch.choose(3, "further transmissions");
    explore(ch, w, { x, {}, {} }, h);
}
SCENARIO(broken_while_joining)
{
    auto c = config(2, true);
    World w(c);
    if (ch.flag()) c.preload[1] = { tPair };
    start(w, 0, { tPair, tTransient });
    w.hostOp(sub(tPair));
    for (int k = 0; k < 3; ++k) { w.guestOp(0, pub(tPair, rec(tPair, k, "c"))); w.compare("content"); }
    w.settle("content");
    start(w, 1);
    w.g[1].link->failFrom[0] = w.g[1].link->count[1] + ch.choose(6, "further transmissions");
    explore(ch, w, { { pub(tPair, rec(tPair, 1, "x")) }, { sub(tPair), pub(tTransient, rec(tTransient, 1, "y")), sub(tTransient) } });
}
// two break at once, each leaving instances behind that the other is to be told of
SCENARIO(two_broken)
{
    auto c = config(3, true); c.lockstep = false;
    World w(c);
    w.relax = true;
    w.hostOp(sub(tTransient));
    start(w, 0, { tPair, tTransient });
    start(w, 1, { tTransient, tPair });
    start(w, 2, { tTransient, tPair });
    int n = ch.choose(3, "left behind") ;
    for (int who = 1; who <= 2; ++who) for (int k = 0; k < n; ++k) { w.guestOp(who, pub(tTransient, rec(tTransient, who * 10 + k, "left"))); w.compare("content"); w.settle("content"); }
    for (int who = 1; who <= 2; ++who) w.g[who].link->failFrom[0] = w.g[who].link->count[1] + ch.choose(2, "further transmissions");
    std::vector<Op> x{ ch.of(alphabet("g0")), ch.of(alphabet("g00")) };
    explore(ch, w, { x, {}, {} }, ch.flag() ? std::vector<Op>{ pub(tTransient, rec(tTransient, 3, "host")) } : std::vector<Op>{});
}
// a guest that was alone in some groups, among others in other groups and absent from the rest: afterwards each group goes on without it
SCENARIO(groups)
{
    auto c = config(2, true);
    std::vector<int> all{ tPair, tUncached, tTransient }, mine, others;
    for (int t : all)
    {
        int m = ch.choose(3, "membership");     // alone, with the other guest, not at all
        if (m < 2) mine.push_back(t);
        if (m > 0) others.push_back(t);
    }
    if (ch.flag("joined in the other order")) std::reverse(mine.begin(), mine.end());
    int how = ch.choose(3, "how");              // leave, cut, found out at a transmission
    int first = ch.choose(3, "first type used");
    World w(c);
    if (ch.flag("the host subscribes")) for (int t : all) w.hostOp(sub(t));
    start(w, 0, others);
    start(w, 1, mine);
    if (how == 2) w.g[1].link->failFrom[0] = w.g[1].link->count[1];
    std::vector<Op> h, y;
    for (int k = 0; k < 3; ++k) h.push_back(pub(all[(first + k) % 3], rec(all[(first + k) % 3], 5, "host")));
    if (how < 2) w.guestOp(1, Op{ how ? Op::cut : Op::leave }), w.compare("the end"), w.settle("the end");
    std::vector<Op> x{ pub(all[first], rec(all[first], 6, "g0")) };
    explore(ch, w, { x, {} }, h);
}
VH_MAIN
