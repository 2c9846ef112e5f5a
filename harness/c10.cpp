// C10: joining a group yields the host's instances as a counted snapshot and from then on every change, message by message.
#include "net.h"
using namespace net;
using vh::Chooser;

namespace
{
    Config config(int guests)
    {
        Config c; c.guests = guests; c.headers = false;
        return c;
    }
    void start(World& w, int i, std::vector<int> types = {})
    {
        w.guestOp(i, Op{ Op::open });
        w.compare("opening");
        w.settle("opening");
        for (int t : types) { w.guestOp(i, sub(t)); w.compare("subscribing"); w.settle("subscribing"); }
    }
    void explore(Chooser& ch, World& w, std::vector<std::vector<Op>> guests, std::vector<Op> host = {})
    {
        Explorer e(w);
        for (size_t i = 0; i < guests.size(); ++i) e.guests[i].ops = std::move(guests[i]);
        e.host.ops = std::move(host);
        if (!e.run(ch)) throw vh::Prune{};
        w.converged("at rest");
        vh::outcome(w.hash());
    }
    // content of the host before anything happens
    void fill(Chooser& ch, World& w, int by, int most)
    {
        int n = ch.choose(most + 1, "content");
        for (int k = 0; k < n; ++k) { w.guestOp(by, pub(tPair, rec(tPair, k + 1, "c" + std::to_string(k)))); w.compare("content"); w.settle("content"); }
        if (n)
        {
            w.guestOp(by, pub(tTransient, rec(tTransient, 1, "t"))); w.compare("content");
            w.guestOp(by, pub(tPair, rec(tPair, 1, std::nullopt, 0.5))); w.compare("content");
            w.settle("content");
        }
    }
}
// which types are subscribed through the opening call and afterwards, with every content
SCENARIO(preload)
{
    auto c = config(2);
    const std::vector<std::vector<int>> sets{ {}, { tPair }, { tPair, tTransient }, { tUncached, tPair }, { tPair, tTransient, tUncached } };
    c.preload[1] = ch.of(sets);
    if (ch.flag()) c.preloadPublish[1] = { tPair, tUncached };
    std::vector<int> later = ch.of(sets);
    World w(c);
    start(w, 0, ch.flag() ? std::vector<int>{ tPair, tTransient } : std::vector<int>{});
    fill(ch, w, 0, 2);
    std::vector<Op> ops{ Op{ Op::open } };
    for (int t : later) ops.push_back(sub(t));
    explore(ch, w, { {}, ops });
}
// every moment of a change relative to the joining guest
SCENARIO(changes)
{
    auto c = config(2);
    bool pre = ch.flag();
    if (pre) c.preload[1] = { tPair };
    const std::vector<Op> a{ pub(tPair, rec(tPair, 1, "new", 1.0)), rem(tPair, 1), pub(tPair, rec(tPair, 2, "second")), pub(tPair, rec(tPair, 1), 1u << 2) };
    std::vector<Op> x;
    for (int k = 0; k < vh::bound(2, 3); ++k) x.push_back(ch.of(a));
    World w(c);
    start(w, 0);
    fill(ch, w, 0, 2);
    std::vector<Op> ops{ Op{ Op::open }, sub(tPair) };
    explore(ch, w, { x, ops });
}
// several subscriptions of one guest: it joins once, later ones are served from its own cache
SCENARIO(subscriptions)
{
    auto c = config(2);
    if (ch.flag()) c.preload[1] = { tPair };
    const std::vector<Op> a{ sub(tPair), unsub(tPair), sub(tTransient), sub(tUncached) };
    std::vector<Op> ops{ Op{ Op::open }, sub(tPair) };
    int subs = 1;
    for (int k = 0; k < vh::bound(2, 3); ++k)
    {
        Op o = ch.of(a);
        if (o.k == Op::unsub) { if (subs == 0) throw vh::Prune{}; --subs; }
        else if (o.type == tPair) ++subs;
        ops.push_back(o);
    }
    World w(c);
    start(w, 0);
    fill(ch, w, 0, 1);
    explore(ch, w, { { pub(tPair, rec(tPair, 1, "x")) }, ops });
}
// membership messages in any order, from a guest of another make
SCENARIO(membership)
{
    auto c = config(2);
    const std::vector<Op> a{ member("VPair", DotsMemberEvent::join), member("VPair", DotsMemberEvent::leave), member("VPair", DotsMemberEvent::kill), member("VTransient", DotsMemberEvent::join),
        member("VUncached", DotsMemberEvent::join), member("VNowhere", DotsMemberEvent::join), member("VNowhere", DotsMemberEvent::leave), pub(tPair, rec(tPair, 1, "raw")) };
    std::vector<Op> x;
    for (int k = 0; k < vh::bound(3, 4); ++k) x.push_back(ch.of(a));
    World w(c);
    w.g[1].raw = true;
    start(w, 0, { tPair });
    if (ch.flag()) { w.guestOp(0, pub(tPair, rec(tPair, 1, "c"))); w.compare("content"); w.settle("content"); }
    start(w, 1);
    explore(ch, w, { vh::thorough() ? std::vector<Op>{ pub(tPair, rec(tPair, 1, "x")), pub(tUncached, rec(tUncached, 1, "u")) } : std::vector<Op>{ pub(tPair, rec(tPair, 1, "x")) }, x });
}
// a type nobody has told the host of yet: a group without instances, which becomes one with the first instance
SCENARIO(unknown)
{
    auto c = config(2);
    std::vector<int> t{ ch.choose(nTypes, "type") };
    World w(c);
    start(w, 0);
    const std::vector<Op> a{ sub(t[0]), pub(t[0], rec(t[0], 1, "y")) };
    std::vector<Op> y{ Op{ Op::open }, ch.of(a), ch.of(a) };
    explore(ch, w, { { pub(t[0], rec(t[0], 1, "x")), sub(t[0]) }, y });
}
SCENARIO(host_publishes)
{
    auto c = config(1); c.hostPolicy = Registry::StaticTypePolicy::All;
    if (ch.flag()) c.preload[0] = { tPair };
    const std::vector<Op> a{ pub(tPair, rec(tPair, 1, "new", 1.0)), rem(tPair, 1), pub(tUncached, rec(tUncached, 2, "second")), pub(tTransient, rec(tTransient, 2, "second")) };
    std::vector<Op> x;
    for (int k = 0; k < 3; ++k) x.push_back(ch.of(a));
    World w(c);
    explore(ch, w, { { Op{ Op::open }, sub(tPair), sub(tUncached) } }, x);
}
VH_MAIN
