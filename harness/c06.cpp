// C06: dispatch to subscribers against a reference dispatcher, for every program of reacting handlers up to the bounds.
#include "dyn.h"
#include <dots/HostTransceiver.h>
#include <dots/GuestTransceiver.h>
#include <dots/asio.h>
#include <VPair.dots.h>
#include <VUncached.dots.h>

using namespace dx;
using namespace dots;
using vh::Chooser;

namespace
{
    asio::io_context& ioc() { static asio::io_context c; return c; }

    enum Kind3 { EvA, TxA, EvB, nKinds };
    enum Act { nothing, unsubSelf, unsubNext, unsubNext2, unsubAll, subNew, subNewTx, subNewGone, resub, pubA1, pubA2, remA1, pubB, throwStd, throwInt, pubA2ThenUnsub, unsubThenPubB, remPubA1, clearAll, remB, pubA1Fewer, nActs };
    const char* actName[] = { "nothing", "unsubscribe itself", "unsubscribe the next", "unsubscribe the one after", "unsubscribe all", "subscribe another", "subscribe another to transmissions", "subscribe another and unsubscribe it", "unsubscribe and subscribe itself", "publish 1", "publish 2", "remove 1", "publish uncached", "throw", "throw an int", "publish 2 and unsubscribe itself", "unsubscribe itself and publish uncached", "remove and publish 1", "clear the transceiver", "remove uncached", "publish 1 with fewer properties" };
    enum Stim { sA1, sA2, sRem1, sB, sA1Fewer, sRem2, nStims };

    MV recA(int id, int n, bool fewer)
    {
        MV m = MV::St({ { 1, MV::Int(Type::int32, id) } });
        m.p[2] = MV::S("value " + std::to_string(n));
        if (!fewer) m.p[3] = MV::F(Type::float64, n);
        return m;
    }
    MV recB(int n) { return MV::St({ { 1, MV::Int(Type::int32, 5) }, { 2, MV::S("u" + std::to_string(n)) } }); }

    using Log = std::vector<std::string>;
    std::string entry(int id, const char* what, const MV& tr, const MV* up, uint32_t attrs, int fromCache, bool remove, uint32_t sender)
    {
        char b[96];
        std::snprintf(b, sizeof b, " attributes %x cache %d remove %d sender %u ", attrs, fromCache, remove, sender);
        return "handler " + std::to_string(id) + " " + what + b + str(tr) + (up ? " -> " + str(*up) : "");
    }

    struct Program
    {
        struct H { int kind, act; };
        std::vector<H> handlers;
        int initial; // instances before anyone subscribes
        std::vector<int> stims;
    };

    // ---- the reference
    struct Model
    {
        struct Clone { MV rec; int last; };
        struct H { int kind, act; bool alive = true, fired = false; };
        const Program& p;
        Log log;
        std::vector<std::shared_ptr<H>> hs;
        std::map<int, std::shared_ptr<H>> slot; // handle -> handler; a handle can be renewed
        std::map<int, std::shared_ptr<Clone>> cache;
        int n = 0;
        std::map<H*, int> ids;
        Model(const Program& p_) : p(p_) {}

        static const char* mtName(int last) { return last == 1 ? "create" : last == 2 ? "update" : "remove"; }
        void sub(int handle, int kind, int act)
        {
            auto h = std::make_shared<H>(H{ kind, act });
            ids[h.get()] = handle;
            hs.push_back(h);
            if (kind == EvA)
            {
                std::vector<std::pair<int, std::shared_ptr<Clone>>> snap(cache.begin(), cache.end());
                int left = static_cast<int>(snap.size());
                for (auto& [k, c] : snap)
                {
                    --left;
                    log.push_back(entry(handle, "create", c->rec, &c->rec, maskOf(c->rec), left, false, 0));
                }
            }
            slot[handle] = h;
        }
        void unsub(int handle) { auto it = slot.find(handle); if (it != slot.end() && it->second) { it->second->alive = false; it->second = nullptr; } }
        void act(H& h)
        {
            int self = ids[&h], cnt = static_cast<int>(p.handlers.size());
            switch (h.act)
            {
                case unsubSelf: unsub(self); break;
                case unsubNext: unsub((self + 1) % cnt); break;
                case unsubNext2: unsub((self + 2) % cnt); break;
                case unsubAll: for (int i = 0; i < 100; ++i) unsub(i); break;
                case subNew: sub(50 + self, EvA, nothing); break;
                case subNewTx: sub(50 + self, TxA, nothing); break;
                case subNewGone: sub(50 + self, h.kind, nothing); unsub(50 + self); break;
                case resub: unsub(self); sub(self, h.kind, nothing); break;
                case pubA1: publish(0, 1, false); break;
                case pubA1Fewer: publish(0, 1, true); break;
                case pubA2: publish(0, 2, false); break;
                case remA1: remove(1); break;
                case pubB: publish(1, 5, false); break;
                case throwStd: throw std::runtime_error("x");
                case throwInt: throw 42;
                case pubA2ThenUnsub: publish(0, 2, false); unsub(self); break;
                case unsubThenPubB: unsub(self); publish(1, 5, false); break;
                case remPubA1: remove(1); publish(0, 1, false); break;
                case clearAll: for (auto& x : hs) x->alive = false; break;
                case remB: throw std::logic_error("uncached");
                default: break;
            }
        }
        void call(H& h, const std::string& e)
        {
            log.push_back(e);
            if (h.fired) return;
            h.fired = true;
            try { act(h); } catch (...) {}
        }
        template <typename F> void deliver(int kind, F&& make)
        {
            std::vector<std::shared_ptr<H>> snap;
            for (auto& h : hs) if (h->kind == kind && h->alive) snap.push_back(h);
            for (auto it = snap.rbegin(); it != snap.rend(); ++it) if ((*it)->alive) call(**it, make(ids[it->get()]));
        }
        void publish(int type, int id, bool fewer)
        {
            MV r = type == 0 ? recA(id, ++n, fewer) : recB(++n);
            // fewer: the extra property is named but not set, which takes it away
            uint32_t attrs = type == 0 ? 0xe : 6;
            if (type == 0) deliver(TxA, [&](int h) { return entry(h, "transmission", r, nullptr, attrs, -1, false, 1); });
            if (type == 0)
            {
                auto& slotC = cache[id];
                if (!slotC) slotC = std::make_shared<Clone>(Clone{ r, 1 });
                else { slotC->rec = mCopy(slotC->rec, r, attrs & ~2u); slotC->last = 2; }
                auto c = slotC;
                int mt = c->last;
                deliver(EvA, [&](int h) { return entry(h, mtName(mt), r, &c->rec, attrs, -1, false, 1); });
            }
            else deliver(EvB, [&](int h) { return entry(h, "create", r, &r, attrs, -1, false, 1); });
        }
        void remove(int id)
        {
            MV r = recA(id, ++n, true);
            uint32_t attrs = 2;
            deliver(TxA, [&](int h) { return entry(h, "transmission", mOnly(r, attrs), nullptr, attrs, -1, true, 1); });
            auto it = cache.find(id);
            if (it == cache.end()) return;
            auto c = it->second;
            c->last = 3;
            cache.erase(it);
            deliver(EvA, [&](int h) { return entry(h, "remove", mOnly(r, attrs), &c->rec, attrs, -1, true, 1); });
        }
    };

    // ---- the real thing
    struct Real
    {
        const Program& p;
        Log log;
        std::unique_ptr<HostTransceiver> t = std::make_unique<HostTransceiver>("host", ioc(), type::Registry::StaticTypePolicy::FundamentalOnly);
        struct H { int handle, kind, act; bool fired = false; };
        std::map<int, std::optional<Subscription>> slot;
        int n = 0;
        Real(const Program& p_) : p(p_) {}
        ~Real() { slot.clear(); }

        void handle(const std::shared_ptr<H>& h, const std::string& e, bool replay)
        {
            log.push_back(e);
            if (h->fired || replay) return;
            h->fired = true;
            act(h->handle, h->kind, h->act); // the handler itself might be gone afterwards
        }
        void sub(int handle_, int kind, int act_)
        {
            auto h = std::make_shared<H>(H{ handle_, kind, act_ });
            std::optional<Subscription> s;
            if (kind == TxA)
                s.emplace(t->subscribe(VPair::_Descriptor(), Transceiver::transmission_handler_t{ [this, h](const io::Transmission& tr)
                {
                    auto keep = h;
                    handle(keep, entry(keep->handle, "transmission", readStruct(*tr.instance()), nullptr, tr.header().attributes->toValue(), tr.header().fromCache.isValid() ? static_cast<int>(*tr.header().fromCache) : -1, tr.header().removeObj == true, tr.header().sender.isValid() ? *tr.header().sender : 0), false);
                } }));
            else
            {
                auto f = [this, h](const auto& ev)
                {
                    auto keep = h;
                    MV up = readStruct(ev.updated());
                    vh::check(&ev.updated() == &ev() && ev.isCreate() == (ev.mt() == DotsMt::create) && ev.isUpdate() == (ev.mt() == DotsMt::update) && ev.isRemove() == (ev.mt() == DotsMt::remove), "kind of event");
                    vh::check(*ev.header().typeName == ev.descriptor().name(), "type of event");
                    handle(keep, entry(keep->handle, ev.isCreate() ? "create" : ev.isUpdate() ? "update" : "remove", readStruct(ev.transmitted()), &up, ev.header().attributes->toValue(), ev.header().fromCache.isValid() ? static_cast<int>(*ev.header().fromCache) : -1, ev.header().removeObj == true, ev.header().sender.isValid() ? *ev.header().sender : 0), ev.header().fromCache.isValid());
                };
                // typed and untyped subscriptions by turns
                if (kind == EvA && handle_ % 2 == 0) s.emplace(t->subscribe<VPair>(Transceiver::event_handler_t<VPair>{ f }));
                else if (kind == EvA) s.emplace(t->subscribe(VPair::_Descriptor(), Transceiver::event_handler_t<>{ f }));
                else s.emplace(t->subscribe<VUncached>(Transceiver::event_handler_t<VUncached>{ f }));
            }
            slot[handle_].reset();
            slot[handle_].emplace(std::move(*s));
        }
        void unsub(int h) { auto it = slot.find(h); if (it != slot.end()) it->second.reset(); }
        void act(int self, int kind, int a)
        {
            int cnt = static_cast<int>(p.handlers.size());
            switch (a)
            {
                case unsubSelf: unsub(self); break;
                case unsubNext: unsub((self + 1) % cnt); break;
                case unsubNext2: unsub((self + 2) % cnt); break;
                case unsubAll: for (int i = 0; i < 100; ++i) unsub(i); break;
                case subNew: sub(50 + self, EvA, nothing); break;
                case subNewTx: sub(50 + self, TxA, nothing); break;
                case subNewGone: sub(50 + self, kind, nothing); unsub(50 + self); break;
                case resub: unsub(self); sub(self, kind, nothing); break;
                case pubA1: publish(0, 1, false); break;
                case pubA1Fewer: publish(0, 1, true); break;
                case pubA2: publish(0, 2, false); break;
                case remA1: remove(1); break;
                case pubB: publish(1, 5, false); break;
                case throwStd: throw std::runtime_error("x");
                case throwInt: throw 42;
                case pubA2ThenUnsub: publish(0, 2, false); unsub(self); break;
                case unsubThenPubB: unsub(self); publish(1, 5, false); break;
                case remPubA1: remove(1); publish(0, 1, false); break;
                case clearAll: t->clear(); break;
                case remB: t->remove(*make(VUncached::_Descriptor(), recB(0))); break;
                default: break;
            }
        }
        void publish(int type, int id, bool fewer)
        {
            vh::transition();
            if (type == 0) { AnyStruct x = make(VPair::_Descriptor(), recA(id, ++n, fewer)); t->publish(*x, PropertySet{ PropertySet::All }); }
            else { AnyStruct x = make(VUncached::_Descriptor(), recB(++n)); t->publish(*x); }
        }
        void remove(int id)
        {
            vh::transition();
            AnyStruct x = make(VPair::_Descriptor(), recA(id, ++n, true));
            t->remove(*x);
        }
    };

    template <typename W> void drive(W& w, const Program& p)
    {
        for (int i = 1; i <= p.initial; ++i) w.publish(0, i, false);
        for (size_t i = 0; i < p.handlers.size(); ++i) w.sub(static_cast<int>(i), p.handlers[i].kind, p.handlers[i].act);
        for (int s : p.stims)
        {
            switch (s)
            {
                case sA1: w.publish(0, 1, false); break;
                case sA2: w.publish(0, 2, false); break;
                case sA1Fewer: w.publish(0, 1, true); break;
                case sRem1: w.remove(1); break;
                case sRem2: w.remove(2); break;
                case sB: w.publish(1, 5, false); break;
            }
        }
    }

    void compare(const Log& real, const Log& model)
    {
        for (size_t i = 0; i < std::max(real.size(), model.size()); ++i)
            vh::checkF(i < real.size() && i < model.size() && real[i] == model[i], [&] { return "call " + std::to_string(i) + " is\n    " + (i < real.size() ? real[i] : "missing") + "\n  instead of\n    " + (i < model.size() ? model[i] : "none"); });
    }

    void program(Chooser& ch, size_t n, size_t stims, const std::vector<int>& acts)
    {
        Program p;
        for (size_t i = 0; i < n; ++i)
        {
            int kind = ch.choose(nKinds, "kind");
            int act = acts[ch.choose(static_cast<int>(acts.size()), "reaction")];
            p.handlers.push_back({ kind, act });
            if (ch.tracing()) ch.note("handler " + std::to_string(i) + " on " + (kind == EvA ? "events" : kind == TxA ? "transmissions" : "uncached events") + " reacts: " + actName[act]);
        }
        p.initial = ch.choose(vh::bound(2, 3), "instances before");
        for (size_t i = 0; i < stims; ++i) p.stims.push_back(ch.choose(nStims, "stimulus"));
        if (ch.tracing()) { ch.note("instances before: " + std::to_string(p.initial)); for (int s : p.stims) ch.note("stimulus " + std::to_string(s)); }
        Model m(p);
        drive(m, p);
        Real r(p);
        // after the program nobody is subscribed and nothing is called any more
        drive(r, p);
        compare(r.log, m.log);
        const auto& c = r.t->container<VPair>();
        vh::check(c.size() == m.cache.size(), "container size");
        uint64_t h = m.log.size();
        for (auto& [id, cl] : m.cache)
        {
            const VPair* x = c.find(VPair{ .id = id });
            vh::checkF(x != nullptr && eq(readStruct(*x), cl->rec), [&] { return "container content of " + std::to_string(id); });
            h = vh::mix(h, hash(cl->rec));
        }
        for (auto& [k, s] : r.slot) s.reset();
        size_t before = r.log.size();
        r.publish(0, 1, false); r.publish(1, 1, false); r.remove(1);
        vh::check(r.log.size() == before, "a handler was called after it was unsubscribed");
        vh::state(h);
        uint64_t lh = 0;
        for (auto& e : r.log) lh = vh::mix(lh, vh::hashStr(e));
        vh::outcome(lh);
    }
}

static std::vector<int> allActs() { std::vector<int> a; for (int i = 0; i < nActs; ++i) a.push_back(i); return a; }
SCENARIO(one_handler) { program(ch, 1, 3, allActs()); }
SCENARIO(two_handlers) { program(ch, 2, 2, allActs()); }
SCENARIO(three_handlers)
{
    if (vh::thorough()) program(ch, 3, 1, allActs());
    else program(ch, 3, 1, { nothing, unsubSelf, unsubNext, pubA2, remA1, throwStd, pubA2ThenUnsub, clearAll });
}

// reactions while the cache is replayed to a new subscriber: its picture of the instances ends up that of the container
SCENARIO(replay)
{
    int initial = 1 + ch.choose(3, "instances before");
    int at = ch.choose(initial, "react at");
    int act = ch.choose(8, "reaction");
    int other = ch.choose(3, "another subscriber");
    HostTransceiver t("host", ioc(), type::Registry::StaticTypePolicy::FundamentalOnly);
    for (int i = 1; i <= initial; ++i) t.publish(VPair{ .id = i, .value = "v" });
    std::map<int, std::string> view, view2;
    std::optional<Subscription> s2, inner;
    auto keep = [](std::map<int, std::string>& v, const Event<VPair>& e)
    {
        if (e.isRemove()) v.erase(*e().id); else v[*e().id] = e().value.isValid() ? *e().value : "";
    };
    if (other) s2.emplace(t.subscribe<VPair>([&](const Event<VPair>& e) { keep(view2, e); if (other == 2 && !e.header().fromCache.isValid()) s2.reset(); }));
    int calls = 0;
    std::optional<Subscription> s;
    bool threw = false;
    auto first = [&](const Event<VPair>& e)
    {
        keep(view, e);
        if (calls++ != at) return;
        int id = *e().id, next = id % 3 + 1;
        switch (act)
        {
            case 1: t.remove(VPair{ .id = id }); break;
            case 2: t.remove(VPair{ .id = next }); break;
            case 3: for (int i = 1; i <= 3; ++i) t.remove(VPair{ .id = i }); break;
            case 4: t.publish(VPair{ .id = 7, .value = "new" }); break;
            case 5: t.publish(VPair{ .id = id, .value = "changed" }); break;
            case 6: throw std::runtime_error("x");
            case 7: inner.emplace(t.subscribe<VPair>([&](const Event<VPair>&) {})); t.remove(VPair{ .id = next }); t.publish(VPair{ .id = next, .value = "again" }); break;
        }
    };
    try { s.emplace(t.subscribe<VPair>(first)); } catch (const std::runtime_error&) { threw = true; }
    vh::check(threw == (act == 6), "an exception of a handler during the replay reaches the subscriber");
    auto same = [&](const std::map<int, std::string>& v)
    {
        const auto& c = t.container<VPair>();
        bool ok = v.size() == c.size();
        c.forEach([&](const VPair& x) { auto it = v.find(*x.id); ok = ok && it != v.end() && it->second == (x.value.isValid() ? *x.value : ""); });
        return ok;
    };
    if (!threw) vh::check(same(view), "after the replay the subscriber knows the instances of the container");
    if (other == 1 && !threw) vh::check(same(view2), "the other subscriber knows the instances of the container");
    int before = calls;
    t.publish(VPair{ .id = 2, .value = "later" });
    vh::check(calls == before + (threw ? 0 : 1), "a failed subscription receives nothing, a successful one every event once");
    if (!threw) vh::check(same(view), "the subscriber follows the container");
    s.reset(); before = calls;
    t.publish(VPair{ .id = 3, .value = "last" });
    vh::check(calls == before, "a handler was called after it was unsubscribed");
    vh::state(vh::mix(initial * 100 + at * 10 + act, other));
}

// new type handlers
namespace
{
    enum TAct { tNothing, tUnsubSelf, tUnsubOther, tSubNew, tReg, tRegThenUnsub, tThrowStd, tThrowInt, tUnsubThenReg, tActs };
    struct TypeModel
    {
        struct H { int handle, act; bool alive = true, fired = false; };
        std::vector<std::shared_ptr<H>> hs;
        std::map<int, std::shared_ptr<H>> slot;
        std::set<std::string> types;
        Log log;
        void unsub(int i) { auto it = slot.find(i); if (it != slot.end() && it->second) { it->second->alive = false; it->second = nullptr; } }
        void call(H& h, const std::string& name)
        {
            log.push_back(std::to_string(h.handle) + " " + name);
            if (h.fired) return;
            h.fired = true;
            switch (h.act)
            {
                case tUnsubSelf: unsub(h.handle); break;
                case tUnsubOther: unsub(1 - h.handle); break;
                case tSubNew: sub(10 + h.handle, tNothing); break;
                case tReg: reg("XM"); break;
                case tRegThenUnsub: reg("XM"); unsub(h.handle); break;
                case tUnsubThenReg: unsub(h.handle); reg("XM"); break;
                case tThrowStd: throw std::runtime_error("x");
                case tThrowInt: throw 42;
            }
        }
        bool sub(int handle, int act)
        {
            auto h = std::make_shared<H>(H{ handle, act });
            hs.push_back(h);
            std::vector<std::string> snap(types.begin(), types.end());
            try { for (auto& n : snap) call(*h, n); }
            catch (...) { h->alive = false; throw; }
            slot[handle] = h;
            return true;
        }
        void reg(const std::string& n)
        {
            if (!types.insert(n).second) return;
            auto snap = hs;
            for (auto it = snap.rbegin(); it != snap.rend(); ++it) if ((*it)->alive) { try { call(**it, n); } catch (...) {} }
        }
    };
    struct TypeReal
    {
        HostTransceiver t{ "host", ioc(), type::Registry::StaticTypePolicy::FundamentalOnly };
        struct H { int handle, act; bool fired = false; };
        std::map<int, std::optional<Subscription>> slot;
        Log log;
        void unsub(int i) { auto it = slot.find(i); if (it != slot.end()) it->second.reset(); }
        void sub(int handle, int act)
        {
            auto h = std::make_shared<H>(H{ handle, act });
            auto f = [this, h](const type::Descriptor<>& d)
            {
                auto keep = h;
                if (d.name()[0] != 'X') return;
                log.push_back(std::to_string(keep->handle) + " " + d.name());
                if (keep->fired) return;
                keep->fired = true;
                switch (keep->act)
                {
                    case tUnsubSelf: unsub(keep->handle); break;
                    case tUnsubOther: unsub(1 - keep->handle); break;
                    case tSubNew: sub(10 + keep->handle, tNothing); break;
                    case tReg: reg("XM"); break;
                    case tRegThenUnsub: reg("XM"); unsub(keep->handle); break;
                    case tUnsubThenReg: unsub(keep->handle); reg("XM"); break;
                    case tThrowStd: throw std::runtime_error("x");
                    case tThrowInt: throw 42;
                }
            };
            std::optional<Subscription> s;
            if (handle % 2 == 0) s.emplace(t.subscribe(Transceiver::new_type_handler_t<>{ f }));
            else s.emplace(t.subscribe<StructDescriptor>(Transceiver::new_type_handler_t<StructDescriptor>{ f }));
            slot[handle].emplace(std::move(*s));
        }
        void reg(const std::string& n)
        {
            vh::transition();
            if (t.registry().hasType(n)) return;
            t.registry().registerType<Descriptor<DynamicStruct>>(n, uint8_t(0), type::property_descriptor_container_t{}, sizeof(DynamicStruct));
        }
        ~TypeReal() { slot.clear(); }
    };
    template <typename W> void driveTypes(W& w, int before, int a0, int a1, int stims)
    {
        if (before & 1) w.reg("XA");
        if (before & 2) w.reg("XZ");
        auto trySub = [&](int h, int a) { try { w.sub(h, a); } catch (...) { w.log.push_back("subscribe throws"); } };
        trySub(0, a0);
        trySub(1, a1);
        if (stims & 1) w.reg("XB");
        if (stims & 2) w.reg("XA");
        if (stims & 4) w.reg("XY");
    }
}
SCENARIO(new_types)
{
    int before = ch.choose(4, "types before"), a0 = ch.choose(tActs, "first"), a1 = ch.choose(tActs, "second"), stims = ch.choose(8, "types after");
    TypeModel m;
    driveTypes(m, before, a0, a1, stims);
    TypeReal r;
    driveTypes(r, before, a0, a1, stims);
    compare(r.log, m.log);
    for (auto& [k, s] : r.slot) s.reset();
    size_t n = r.log.size();
    r.reg("XLast");
    vh::check(r.log.size() == n, "a new type handler was called after it was unsubscribed");
    vh::outcome(vh::mix(vh::mix(before, stims), r.log.size()));
}

// a subscription outlives or moves along with its transceiver, is moved itself, discarded or dropped twice
SCENARIO(lifetimes)
{
    int kind = ch.choose(4, "kind of subscription");
    int what = ch.choose(6, "what happens to the transceiver");
    int how = ch.choose(5, "how the subscription ends");
    int calls = 0;
    auto t = std::make_unique<HostTransceiver>("host", ioc(), type::Registry::StaticTypePolicy::FundamentalOnly);
    std::unique_ptr<HostTransceiver> u;
    int reg = 0;
    std::optional<Subscription> s;
    if (kind == 0) s.emplace(t->subscribe<VPair>([&](const Event<VPair>&) { ++calls; }));
    else if (kind == 1) s.emplace(t->subscribe(VPair::_Descriptor(), Transceiver::transmission_handler_t{ [&](const io::Transmission&) { ++calls; } }));
    else if (kind == 2) s.emplace(t->subscribe(VPair::_Descriptor(), Transceiver::event_handler_t<>{ [&](const Event<>&) { ++calls; } }));
    else s.emplace(t->subscribe(Transceiver::new_type_handler_t<>{ [&](const type::Descriptor<>& d) { if (d.name()[0] == 'X') ++calls; } }));
    auto stimulate = [&](HostTransceiver& x)
    {
        if (kind == 3) x.registry().registerType<Descriptor<DynamicStruct>>("X" + std::to_string(++reg), uint8_t(0), type::property_descriptor_container_t{}, sizeof(DynamicStruct));
        else x.publish(VPair{ .id = 1, .value = "v" });
    };
    HostTransceiver* live = t.get();
    stimulate(*live);
    vh::check(calls == 1, "a subscriber is called once");
    bool cleared = false;
    switch (what)
    {
        case 1: u = std::make_unique<HostTransceiver>(std::move(*t)); live = u.get(); break;
        case 2: u = std::make_unique<HostTransceiver>(std::move(*t)); t.reset(); live = u.get(); break;
        case 3: u = std::make_unique<HostTransceiver>("other", ioc(), type::Registry::StaticTypePolicy::FundamentalOnly); *u = std::move(*t); t.reset(); live = u.get(); break;
        case 4: t->clear(); cleared = kind != 3; break;
        case 5: t.reset(); live = nullptr; break;
    }
    if (live) { stimulate(*live); vh::check(calls == (cleared ? 1 : 2), "a subscriber of a moved transceiver is called once, of a cleared one not at all"); }
    int expect = calls;
    bool stays = false;
    switch (how)
    {
        case 0: s.reset(); break;
        case 1: s->unsubscribe(); s->unsubscribe(); s.reset(); break;
        case 2: { Subscription v{ std::move(*s) }; s.reset(); if (live) { stimulate(*live); vh::check(calls == expect + (cleared ? 0 : 1), "a moved subscription lasts"); expect = calls; } break; }
        case 3: s->discard(); s.reset(); stays = !cleared; break;
        case 4:
        {
            HostTransceiver other("o", ioc(), type::Registry::StaticTypePolicy::FundamentalOnly);
            Subscription v{ other.subscribe<VPair>([&](const Event<VPair>&) {}) };
            v = std::move(*s);
            s.reset();
            if (live) { stimulate(*live); vh::check(calls == expect + (cleared ? 0 : 1), "an assigned subscription lasts"); expect = calls; }
            break;
        }
    }
    if (live) { stimulate(*live); vh::check(calls == expect + (stays ? 1 : 0), "a subscription that has ended receives nothing, a discarded one goes on"); }
    vh::state(kind * 100 + what * 10 + how);
}

VH_MAIN
