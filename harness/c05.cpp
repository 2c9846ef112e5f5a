// C05: the container against a reference map, over every operation history up to the depth.
#include "dyn.h"
#include <dots/Container.h>
#include <dots/ContainerPool.h>
#include <VRec.dots.h>
#include <VAll.dots.h>
#include <VVecs.dots.h>
#include <VOnlyKey.dots.h>
#include <VNoKey.dots.h>
#include <VPair.dots.h>

using namespace dx;
using namespace dots;
using vh::Chooser;

namespace
{
    struct Clone { MV rec; int last; uint32_t lastFrom, createdFrom; double created, modified; };

    struct Less
    {
        const StructDescriptor* d;
        bool operator()(const MV& a, const MV& b) const { return mCmp(a, b, *d, keyMask(*d)) < 0; }
    };
    using Ref = std::map<MV, Clone, Less>;

    // one operation of the alphabet
    struct Op { enum K { insert, remove, clear } k; MV rec; uint32_t attrs; };
    struct World
    {
        const char* name;
        const StructDescriptor* d;
        std::vector<Op> ops;
        std::function<std::unique_ptr<Container<>>()> mk;
        std::function<void(const Container<>&, const Ref&)> typed; // what only the typed interface offers
    };

    std::string opStr(const Op& o)
    {
        char b[32]; std::snprintf(b, sizeof b, " attributes %x", o.attrs);
        return o.k == Op::clear ? "clear" : (o.k == Op::insert ? "insert " : "remove ") + str(o.rec) + b;
    }

    // values: every record value used; attrs: the records' own properties, more than them and fewer
    void fill(World& w, const std::vector<MV>& keys, const std::vector<MV>& rests)
    {
        uint32_t km = keyMask(*w.d), all = allMask(*w.d);
        for (auto& k : keys)
        {
            for (auto& r : rests)
            {
                MV v = k;
                for (auto& [t, x] : r.p) v.p[t] = x;
                std::set<uint32_t> as{ maskOf(v), all, km };
                for (uint32_t t = 0; t < 32; ++t) if (in(all & ~km, t)) as.insert(km | (1u << t));
                size_t n = 0;
                for (uint32_t a : as) { if (++n > 6 && !vh::thorough()) break; w.ops.push_back({ Op::insert, v, a }); }
            }
            w.ops.push_back({ Op::remove, k, km });
            w.ops.push_back({ Op::remove, k, all });
            MV v = k;
            for (auto& [t, x] : rests.back().p) v.p[t] = x;
            w.ops.push_back({ Op::remove, v, maskOf(v) });
        }
        w.ops.push_back({ Op::clear, MV::St(), 0 });
    }

    template <typename T> World typedWorld(const char* n)
    {
        World w;
        w.name = n; w.d = &T::_Descriptor();
        w.mk = [] { return std::unique_ptr<Container<>>(new Container<T>()); };
        w.typed = [](const Container<>& c, const Ref& ref)
        {
            const Container<T>& t = c.as<T>();
            size_t n = 0;
            auto it = ref.begin();
            t.forEach([&](const T& x) { vh::check(it != ref.end() && eq(readStruct(x), it->second.rec), "typed forEach"); ++it; ++n; });
            vh::check(n == ref.size(), "typed forEach covers the container");
            if constexpr (std::tuple_size_v<typename T::_key_properties_t> == 0)
                vh::check((t.find() != nullptr) == !ref.empty() && (ref.empty() || eq(readStruct(*t.find()), ref.begin()->second.rec)), "find of the only instance");
            else for (auto& [k, cl] : ref)
            {
                T probe; writeStruct(probe, k);
                const T* f = t.find(probe);
                vh::check(f != nullptr && eq(readStruct(*f), cl.rec) && &t.get(probe) == f, "typed find");
            }
        };
        return w;
    }
    World dynWorldOf(const char* n, const StructDescriptor& sd)
    {
        World w;
        w.name = n; w.d = &dynWorld().twin(sd);
        auto* d = w.d;
        w.mk = [d] { return std::make_unique<Container<>>(*d); };
        return w;
    }

    MV I32(int64_t x) { return MV::Int(Type::int32, x); }
    MV St(std::map<uint32_t, MV> m) { return MV::St(std::move(m)); }

    const std::vector<World>& worlds()
    {
        static std::vector<World> w = []
        {
            std::vector<World> r;
            std::string longStr(40, 'L');
            auto add = [&](World a, std::vector<MV> keys, std::vector<MV> rests) { fill(a, keys, rests); r.push_back(std::move(a)); };
            std::vector<MV> pk{ St({ { 1, I32(1) } }), St({ { 1, I32(-7) } }) };
            std::vector<MV> pr{ St({}), St({ { 2, MV::S("s") } }), St({ { 3, MV::F(Type::float64, 2.5) } }), St({ { 2, MV::S(longStr) }, { 3, MV::F(Type::float64, -1) } }) };
            add(typedWorld<VPair>("VPair"), pk, pr);
            add(dynWorldOf("VPair'", VPair::_Descriptor()), pk, pr);
            std::vector<MV> nr{ St({}), St({ { 1, I32(4) } }), St({ { 2, MV::S(longStr) } }), St({ { 1, I32(5) }, { 2, MV::S("q") } }) };
            add(typedWorld<VNoKey>("VNoKey"), { St({}) }, nr);
            add(dynWorldOf("VNoKey'", VNoKey::_Descriptor()), { St({}) }, nr);
            // two keys, one of which is a record of its own, partly unset
            auto L = [&](std::map<uint32_t, MV> m) { return MV::St(std::move(m)); };
            std::vector<MV> ok{ St({ { 1, I32(1) }, { 7, L({}) } }), St({ { 1, I32(1) }, { 7, L({ { 3, I32(0) } }) } }), St({ { 1, I32(1) }, { 7, L({ { 1, MV::S("") } }) } }), St({ { 1, I32(0) }, { 7, L({ { 3, I32(2) }, { 17, MV::V({ I32(1) }) } }) } }), St({ { 1, I32(1) }, { 7, L({ { 17, MV::V({}) } }) } }) };
            add(typedWorld<VOnlyKey>("VOnlyKey"), ok, { St({}) });
            add(dynWorldOf("VOnlyKey'", VOnlyKey::_Descriptor()), ok, { St({}) });
            // two keys that are neither first nor contiguous; nested records and vectors of records
            std::vector<MV> rk{ St({ { 2, I32(1) }, { 30, MV::S("a") } }), St({ { 2, I32(1) }, { 30, MV::S("b") } }), St({ { 2, I32(2) }, { 30, MV::S("a") } }) };
            MV leaf = L({ { 3, I32(3) }, { 1, MV::S(longStr) } }), node = L({ { 2, leaf }, { 4, MV::Bool(true) } }), node2 = L({ { 31, MV::F(Type::float64, 1) } });
            std::vector<MV> rr{ St({ { 9, node } }), St({ { 9, node2 }, { 12, MV::V({ leaf, L({}) }) } }), St({ { 5, MV::S("n") }, { 1, MV::E(7) } }), St({ { 12, MV::V({}) } }) };
            add(typedWorld<VRec>("VRec"), rk, rr);
            add(dynWorldOf("VRec'", VRec::_Descriptor()), rk, rr);
            // one key of each other shape
            std::vector<MV> ak{ St({ { 17, MV::S("") } }), St({ { 17, MV::S(longStr) } }), St({ { 17, MV::S(longStr + "x") } }) };
            add(typedWorld<VAll>("VAll"), ak, { St({ { 1, MV::Bool(true) }, { 16, MV::U("u") } }), St({ { 10, MV::F(Type::float32, 1.5) }, { 18, MV::E(7) }, { 31, leaf } }) });
            std::vector<MV> vk{ St({ { 1, MV::V({}) } }), St({ { 1, MV::V({ MV::Bool(true) }) } }), St({ { 1, MV::V({ MV::Bool(false), MV::Bool(true) }) } }) };
            std::vector<MV> vr{ St({ { 17, MV::V({ MV::S("a"), MV::S(longStr) }) } }), St({ { 20, MV::V({ node, L({}) }) }, { 4, MV::V({ I32(1) }) } }) };
            add(typedWorld<VVecs>("VVecs"), vk, vr);
            add(dynWorldOf("VVecs'", VVecs::_Descriptor()), vk, vr);
            return r;
        }();
        return w;
    }

    struct Run
    {
        const World& w;
        std::unique_ptr<Container<>> c;
        Ref ref;
        uint32_t step = 0;
        bool big;
        Run(const World& w_) : w(w_), c(w_.mk()), ref(Less{ w_.d }), big(w_.d->name() == "VVecs" || w_.d->name() == "VRec" || w_.d->name() == "VAll") {}

        static void cmp(const std::pair<const AnyStruct, DotsCloneInformation>& v, const Clone& r, const char* where)
        {
            cmp(*v.first, v.second, r, where);
        }
        static void cmp(const Struct& s, const DotsCloneInformation& ci, const Clone& r, const char* where)
        {
            MV got = readStruct(s);
            vh::checkF(eq(got, r.rec), [&] { return std::string(where) + " holds " + str(got) + ", the reference " + str(r.rec); });
            vh::checkF(ci.lastOperation.isValid() && static_cast<int>(*ci.lastOperation) == r.last, [&] { return std::string(where) + ": last operation"; });
            vh::checkF(ci.lastUpdateFrom == r.lastFrom && ci.createdFrom == r.createdFrom, [&] { return std::string(where) + ": who created and who last changed the instance"; });
            vh::checkF(ci.created.isValid() && ci.created->duration().toFractionalSeconds() == r.created && ci.modified.isValid() && ci.modified->duration().toFractionalSeconds() == r.modified, [&] { return std::string(where) + ": times of creation and change"; });
            vh::check(ci.localUpdateTime.isValid(), std::string(where) + ": time of the local update");
        }

        void apply(const Op& o)
        {
            ++step;
            vh::transition();
            if (o.k == Op::clear) { c->clear(); ref.clear(); return; }
            AnyStruct x = make(*w.d, o.rec);
            DotsHeader h;
            h.typeName = w.d->name(); h.sender = 10 + step; h.sentTime = timepoint_t{ duration_t{ 1000.0 + step } }; h.attributes = PropertySet{ o.attrs }; h.removeObj = o.k == Op::remove;
            MV key = mOnly(o.rec, keyMask(*w.d));
            auto it = ref.find(key);
            double now = 1000.0 + step;
            if (o.k == Op::insert)
            {
                if (it == ref.end()) it = ref.emplace(key, Clone{ o.rec, static_cast<int>(DotsMt::create), *h.sender, *h.sender, now, now }).first;
                else
                {
                    // what the attributes name is taken over, including that it is not set; the rest stays
                    Clone& cl = it->second;
                    cl.rec = mCopy(cl.rec, o.rec, o.attrs & ~keyMask(*w.d));
                    cl.last = static_cast<int>(DotsMt::update); cl.lastFrom = *h.sender; cl.modified = now;
                }
                const auto& got = c->insert(h, *x);
                cmp(got, it->second, "what insert yields");
                vh::check(c->findClone(*x) == &got, "what insert yields is what is found");
            }
            else
            {
                auto node = c->remove(h, *x);
                vh::check(node.empty() == (it == ref.end()), "remove yields what was removed");
                if (it != ref.end())
                {
                    Clone cl = it->second;
                    cl.rec = mCopy(cl.rec, o.rec, o.attrs & ~keyMask(*w.d));
                    cl.last = static_cast<int>(DotsMt::remove); cl.lastFrom = *h.sender; cl.modified = now;
                    cmp(*node.key(), node.mapped(), cl, "what remove yields");
                    ref.erase(it);
                }
            }
            vh::check(eq(readStruct(*x), o.rec), "the operand is left as it was");
        }

        void whole()
        {
            const Container<>& k = *c;
            vh::check(k.size() == ref.size() && k.empty() == ref.empty(), "size");
            auto it = ref.begin();
            uint64_t h = vh::hashStr(w.name);
            for (const auto& v : k)
            {
                vh::check(it != ref.end(), "no more instances than the reference");
                cmp(v, it->second, "in order of keys the container");
                h = vh::mix(h, hash(it->second.rec)); h = vh::mix(h, it->second.last);
                AnyStruct probe = make(*w.d, it->first);
                vh::check(k.find(*probe) == &*v.first && &k.get(*probe) == &*v.first && &k.getClone(*probe) == &v && k.findClone(*probe) == &v, "the instance is found by its key alone");
                ++it;
            }
            vh::check(it == ref.end(), "no fewer instances than the reference");
            size_t n = 0, m = 0;
            k.forEach([&](const Struct&) { ++n; });
            k.forEachClone([&](const auto&) { ++m; });
            vh::check(n == ref.size() && m == ref.size(), "forEach covers the container");
            if (w.typed) w.typed(k, ref);
            vh::check(k.totalMemoryUsage() >= sizeof(Container<>), "memory usage");
            vh::state(h);
        }
        void absent(const Op& o)
        {
            if (o.k == Op::clear) return;
            AnyStruct x = make(*w.d, o.rec);
            bool has = ref.count(mOnly(o.rec, keyMask(*w.d))) != 0;
            vh::check((c->find(*x) != nullptr) == has && (c->findClone(*x) != nullptr) == has, "find tells whether the instance is there");
            bool threw = false;
            try { (void)c->get(*x); } catch (const std::logic_error&) { threw = true; }
            vh::check(threw == !has, "get throws when the instance is not there");
        }
    };
}

// every history up to the depth, everything compared after the last operation (each prefix is a history of its own)
static void histories(Chooser& ch, size_t from, size_t to, int depth)
{
    const World& w = worlds()[from + ch.choose(static_cast<int>(to - from), "type")];
    Run r(w);
    int n = 1 + ch.choose(depth, "length");
    const Op* last = nullptr;
    for (int i = 0; i < n; ++i)
    {
        last = &w.ops[ch.choose(static_cast<int>(w.ops.size()), "operation")];
        if (ch.tracing()) ch.note(std::string(w.name) + ": " + opStr(*last));
        r.apply(*last);
    }
    r.whole();
    r.absent(*last);
    vh::outcome(vh::mix(vh::hashStr(w.name), r.ref.size() * 8 + last->k));
}
SCENARIO(simple_histories) { histories(ch, 0, 4, vh::bound(3, 4)); }
SCENARIO(key_histories) { histories(ch, 4, 6, vh::bound(3, 5)); }
SCENARIO(rich_histories) { histories(ch, 6, worlds().size(), vh::bound(2, 3)); }

// a copy and a moved-to container are containers of their own
SCENARIO(copies)
{
    const World& w = ch.of(worlds(), "type");
    Run r(w);
    const Op& a = ch.of(w.ops, "first");
    const Op& b = ch.of(w.ops, "then");
    r.apply(a);
    Container<> copy{ *r.c };
    Ref before = r.ref;
    r.apply(b);
    r.whole();
    Run q(w);
    q.ref = before;
    *q.c = std::move(copy);
    q.whole();
    q.apply(b);
    q.whole();
    r.whole();
}

// memory usage grows and shrinks with what is stored
SCENARIO(memory)
{
    const World& w = ch.of(worlds(), "type");
    Container<> c{ *w.d };
    size_t empty = c.totalMemoryUsage(), sum = 0;
    std::vector<const Op*> ins;
    std::set<std::string> seen;
    for (auto& o : w.ops) if (o.k == Op::insert && seen.insert(str(mOnly(o.rec, keyMask(*w.d)))).second) ins.push_back(&o);
    DotsHeader h; h.attributes = PropertySet{ ~0u }; h.sender = 2; h.sentTime = timepoint_t{ duration_t{ 1. } };
    for (auto* o : ins)
    {
        AnyStruct x = make(*w.d, o->rec);
        c.insert(h, *x);
        sum += c.find(*x)->_totalMemoryUsage() + sizeof(Container<>::value_t);
        vh::check(c.totalMemoryUsage() == empty + sum, "memory usage is that of the instances");
    }
    c.clear();
    vh::check(c.totalMemoryUsage() == empty, "memory usage of a cleared container");
}

VH_MAIN
