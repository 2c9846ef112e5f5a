// C12: who and when: the header of every event and the clone information of every cached instance.
#include "net.h"
using namespace net;
using vh::Chooser;

namespace
{
    Config config(int guests, bool all = false)
    {
        Config c; c.guests = guests;
        if (all) c.hostPolicy = Registry::StaticTypePolicy::All;
        return c;
    }
    void start(World& w, int i, std::vector<int> types = {})
    {
        w.guestOp(i, Op{ Op::open });
        w.compare("opening");
        w.settle("opening");
        for (int t : types) { w.guestOp(i, sub(t)); w.compare("subscribing"); w.settle("subscribing"); }
    }
    void explore(Chooser& ch, World& w, std::vector<std::vector<Op>> guests, std::vector<Op> host = {})
    {
        Explorer e(w);
        for (size_t i = 0; i < guests.size(); ++i) e.guests[i].ops = std::move(guests[i]);
        e.host.ops = std::move(host);
        if (!e.run(ch)) throw vh::Prune{};
        w.converged("at rest");
        vh::outcome(w.hash());
    }
    std::vector<Op> alphabet(const std::string& who)
    {
        return { pub(tPair, rec(tPair, 1, who)), rem(tPair, 1), pub(tUncached, rec(tUncached, 1, who)), pub(tTransient, rec(tTransient, 1, who)) };
    }
}
// two guests and the host change the same instances; one of the guests watches, the other does not
SCENARIO(writers)
{
    auto c = config(2, true);
    std::vector<Op> x{ ch.of(alphabet("g0")) }, y{ ch.of(alphabet("guest1")) }, h{ ch.of(alphabet("host")) };
    if (vh::thorough()) x.push_back(ch.of(alphabet("g00")));
    World w(c);
    w.hostOp(sub(tPair)); w.hostOp(sub(tUncached)); w.hostOp(sub(tTransient));
    start(w, 0, { tPair, tUncached, tTransient });
    start(w, 1, { y[0].type });
    explore(ch, w, { x, y }, h);
}
// what a late guest is told about instances others made
SCENARIO(snapshot)
{
    auto c = config(3, true);
    auto first = ch.choose(3, "created by"), second = ch.choose(4, "updated by");
    World w(c);
    start(w, 0); start(w, 1);
    auto act = [&](int who, Op o) { if (who == 2) w.hostOp(o); else w.guestOp(who, o); w.compare("content"); w.settle("content"); };
    act(first, pub(tPair, rec(tPair, 1, "v")));
    act(first, pub(tPair, rec(tPair, 2, "v")));
    if (second < 3) act(second, pub(tPair, rec(tPair, 1, std::nullopt, 0.25)));
    std::vector<Op> x{ ch.of(alphabet("g0")) };
    explore(ch, w, { x, {}, { Op{ Op::open }, sub(tPair), sub(tPair) } });
}
// headers a guest has no say in
SCENARIO(claims)
{
    auto c = config(2, true);
    World w(c);
    w.g[1].raw = true;
    w.hostOp(sub(tPair)); w.hostOp(sub(tUncached));
    start(w, 0, { tPair, tUncached });
    start(w, 1);
    std::vector<Op> x;
    for (int k = 0; k < vh::bound(2, 3); ++k)
    {
        int t = ch.flag() ? tUncached : tPair;
        AnyStruct a = make(staticType(t), rec(t, 1, "claim"));
        DotsHeader h{ .typeName = staticType(t).name(), .attributes = a->_validProperties() };
        int what = ch.choose(6, "claim");
        if (what == 1) h.sender = 1u;
        if (what == 2) h.sender = static_cast<uint32_t>(w.peers[0].id);
        if (what == 3) { h.sender = 77u; h.isFromMyself = true; }
        if (what == 4) { h.serverSentTime = dots::timepoint_t{ std::chrono::seconds{ 5 } }; h.sentTime = dots::timepoint_t{ std::chrono::seconds{ 4 } }; }
        if (what == 5) { h.sentTime = dots::timepoint_t{ std::chrono::seconds{ 3 } }; h.isFromMyself = true; }
        if (t == tPair && ch.flag()) h.removeObj = true; else if (what % 2) h.removeObj = false;
        x.push_back(raw("claim " + std::to_string(what), sim::encode(h, *a)));
    }
    explore(ch, w, { { pub(tPair, rec(tPair, 1, "x")) }, x });
}
// reconnecting gives a guest another identity; what it wrote earlier keeps the old one
SCENARIO(again)
{
    auto c = config(2, true);
    World w(c);
    start(w, 0, { tPair });
    start(w, 1, { tPair });
    w.guestOp(1, pub(tPair, rec(tPair, 1, "first life"))); w.compare("content"); w.settle("content");
    std::vector<Op> x{ ch.of(alphabet("g0")) };
    explore(ch, w, { x, { Op{ Op::cut }, Op{ Op::open }, pub(tPair, rec(tPair, 1, "second life")) } });
}
VH_MAIN
