// C01: record operations against a per-property model, for compiled and run-time described types.
#include "dyn.h"
#include <VRec.dots.h>
#include <VAll.dots.h>
#include <VVecs.dots.h>
#include <VOnlyKey.dots.h>
#include <VNoKey.dots.h>
#include <VNode.dots.h>

using namespace dx;
using vh::Chooser;

namespace
{
    // operations through the generic interface and, for compiled types, through the typed one
    struct Ops
    {
        const char* name;
        const StructDescriptor* desc;
        std::function<void(Struct&, const Struct&, PropertySet)> assign, copy, merge;
        std::function<void(Struct&, Struct&, PropertySet)> moveAssign, swap;
        std::function<void(Struct&, PropertySet)> clear;
        std::function<bool(const Struct&, const Struct&, PropertySet)> equal, less, lessEqual, greater, greaterEqual;
        std::function<bool(const Struct&, const Struct&)> same;
        std::function<PropertySet(const Struct&, const Struct&, PropertySet)> diff;
        std::function<MV(const Struct&)> copyConstruct;
        std::function<MV(Struct&)> moveConstruct;
        std::function<void(Struct&, const Struct&)> opAssign;
        std::function<void(Struct&, Struct&)> opMove;
        std::function<int(const Struct&, const Struct&)> opCompare; // bit 0 ==, 1 !=, 2 <, 3 <=, 4 >, 5 >=
    };

    template <typename L> int cmpBits(const L& a, const L& b)
    {
        return (a == b ? 1 : 0) | (a != b ? 2 : 0) | (a < b ? 4 : 0) | (a <= b ? 8 : 0) | (a > b ? 16 : 0) | (a >= b ? 32 : 0);
    }

    Ops genericOps(const char* n, const StructDescriptor& d)
    {
        Ops o;
        o.name = n; o.desc = &d;
        o.assign = [](Struct& a, const Struct& b, PropertySet i) { a._assign(b, i); };
        o.copy = [](Struct& a, const Struct& b, PropertySet i) { a._copy(b, i); };
        o.merge = [](Struct& a, const Struct& b, PropertySet i) { a._merge(b, i); };
        o.moveAssign = [](Struct& a, Struct& b, PropertySet i) { a._assign(std::move(b), i); };
        o.swap = [](Struct& a, Struct& b, PropertySet i) { a._swap(b, i); };
        o.clear = [](Struct& a, PropertySet i) { a._clear(i); };
        o.equal = [](const Struct& a, const Struct& b, PropertySet i) { return a._equal(b, i); };
        o.less = [](const Struct& a, const Struct& b, PropertySet i) { return a._less(b, i); };
        o.lessEqual = [](const Struct& a, const Struct& b, PropertySet i) { return a._lessEqual(b, i); };
        o.greater = [](const Struct& a, const Struct& b, PropertySet i) { return a._greater(b, i); };
        o.greaterEqual = [](const Struct& a, const Struct& b, PropertySet i) { return a._greaterEqual(b, i); };
        o.same = [](const Struct& a, const Struct& b) { return a._same(b); };
        o.diff = [](const Struct& a, const Struct& b, PropertySet i) { return a._diffProperties(b, i); };
        o.copyConstruct = [](const Struct& a) { AnyStruct x{ a }; AnyStruct y{ x }; return readStruct(*y); };
        o.moveConstruct = [](Struct& a) { AnyStruct x{ a }; AnyStruct y{ std::move(x) }; return readStruct(*y); };
        o.opAssign = [](Struct& a, const Struct& b) { AnyStruct x{ b }; AnyStruct y{ a }; y = x; a._assign(*y); };
        o.opMove = [](Struct& a, Struct& b) { AnyStruct x{ b }; AnyStruct y{ a }; y = std::move(x); a._assign(*y); };
        o.opCompare = [](const Struct& a, const Struct& b) { return cmpBits<Struct>(a, b); };
        return o;
    }

    template <typename T>
    Ops typedOps(const char* n)
    {
        Ops o;
        auto c = [](const Struct& s) -> const T& { return static_cast<const T&>(s); };
        auto m = [](Struct& s) -> T& { return static_cast<T&>(s); };
        o.name = n; o.desc = &T::_Descriptor();
        o.assign = [=](Struct& a, const Struct& b, PropertySet i) { m(a)._assign(c(b), i); };
        o.copy = [=](Struct& a, const Struct& b, PropertySet i) { m(a)._copy(c(b), i); };
        o.merge = [=](Struct& a, const Struct& b, PropertySet i) { m(a)._merge(c(b), i); };
        o.moveAssign = [=](Struct& a, Struct& b, PropertySet i) { m(a)._assign(std::move(m(b)), i); };
        o.swap = [=](Struct& a, Struct& b, PropertySet i) { m(a)._swap(m(b), i); };
        o.clear = [=](Struct& a, PropertySet i) { m(a)._clear(i); };
        o.equal = [=](const Struct& a, const Struct& b, PropertySet i) { return c(a)._equal(c(b), i); };
        o.less = [=](const Struct& a, const Struct& b, PropertySet i) { return c(a)._less(c(b), i); };
        o.lessEqual = [=](const Struct& a, const Struct& b, PropertySet i) { return c(a)._lessEqual(c(b), i); };
        o.greater = [=](const Struct& a, const Struct& b, PropertySet i) { return c(a)._greater(c(b), i); };
        o.greaterEqual = [=](const Struct& a, const Struct& b, PropertySet i) { return c(a)._greaterEqual(c(b), i); };
        o.same = [=](const Struct& a, const Struct& b) { return c(a)._same(c(b)); };
        o.diff = [=](const Struct& a, const Struct& b, PropertySet i) { return c(a)._diffProperties(c(b), i); };
        o.copyConstruct = [=](const Struct& a) { T x{ c(a) }; return readStruct(x); };
        o.moveConstruct = [=](Struct& a) { T x{ std::move(m(a)) }; return readStruct(x); };
        o.opAssign = [=](Struct& a, const Struct& b) { m(a) = c(b); };
        o.opMove = [=](Struct& a, Struct& b) { m(a) = std::move(m(b)); };
        o.opCompare = [=](const Struct& a, const Struct& b) { return cmpBits<T>(c(a), c(b)); };
        return o;
    }

    Ops dynOps(const char* n, const StructDescriptor& d)
    {
        Ops o = genericOps(n, d);
        auto c = [](const Struct& s) -> const DynamicStruct& { return static_cast<const DynamicStruct&>(s); };
        auto m = [](Struct& s) -> DynamicStruct& { return static_cast<DynamicStruct&>(s); };
        auto& dd = static_cast<const Descriptor<DynamicStruct>&>(d);
        (void)dd;
        o.copyConstruct = [=](const Struct& a) { DynamicStruct x{ c(a) }; return readStruct(x); };
        o.moveConstruct = [=](Struct& a) { DynamicStruct x{ std::move(m(a)) }; return readStruct(x); };
        o.opAssign = [=](Struct& a, const Struct& b) { m(a) = c(b); };
        o.opMove = [=](Struct& a, Struct& b) { m(a) = std::move(m(b)); };
        o.opCompare = [=](const Struct& a, const Struct& b) { return cmpBits<DynamicStruct>(c(a), c(b)); };
        return o;
    }

    template <typename T> const std::vector<Ops>& kinds()
    {
        static std::vector<Ops> k = [] {
            std::vector<Ops> v;
            v.push_back(typedOps<T>("typed"));
            v.push_back(genericOps("generic", T::_Descriptor()));
            v.push_back(dynOps("dynamic", dynWorld().twin(T::_Descriptor())));
            return v;
        }();
        return k;
    }

    std::vector<MV> domain(const Descriptor<>& d, bool small);

    std::vector<MV> leafDomain(bool small)
    {
        auto I = [](int x) { return MV::Int(Type::int32, x); };
        std::vector<MV> r{ MV::St(), MV::St({ { 3, I(1) } }), MV::St({ { 3, I(1) }, { 1, MV::S("a string that does not fit the small buffer") } }) };
        if (!small) { r.push_back(MV::St({ { 3, I(2) } })); r.push_back(MV::St({ { 17, MV::V({ I(1), I(2) }) }, { 1, MV::S("") } })); }
        return r;
    }

    std::vector<MV> domain(const Descriptor<>& d, bool small)
    {
        Type t = d.type();
        switch (kind(t))
        {
            case Kind::I:
                if (t == Type::boolean) return { MV::Int(t, 0), MV::Int(t, 1) };
                if (t == Type::Enum) return { MV::Int(t, 0), MV::Int(t, 7), MV::Int(t, 100000) };
                if (t == Type::int8) return { MV::Int(t, -128), MV::Int(t, 1) };
                return { MV::Int(t, t == Type::int64 ? INT64_MIN : t == Type::int16 ? INT16_MIN : INT32_MIN), MV::Int(t, 1) };
            case Kind::U:
                return { MV::UInt(t, 1), MV::UInt(t, t == Type::uint8 ? 255 : t == Type::uint16 ? 65535 : t == Type::uint64 ? UINT64_MAX : UINT32_MAX) };
            case Kind::D: return { MV::F(t, -1.5), MV::F(t, 0.25) };
            case Kind::S:
                if (t == Type::uuid) return { MV::U(std::string(16, '\0')), MV::U(std::string("\xff" "0123456789abcde", 16)) };
                return { MV::S(""), MV::S("a string that does not fit the small buffer") };
            case Kind::V:
            {
                auto e = domain(static_cast<const Descriptor<Vector<>>&>(d).valueDescriptor(), true);
                return small ? std::vector<MV>{ MV::V({}), MV::V({ e[0], e[1] }) } : std::vector<MV>{ MV::V({}), MV::V({ e[0] }), MV::V({ e[1], e[0] }) };
            }
            default:
            {
                auto& sd = static_cast<const StructDescriptor&>(d);
                if (sd.name() == "VLeaf") return leafDomain(small);
                std::vector<MV> r{ MV::St() };
                auto l = leafDomain(true);
                r.push_back(MV::St({ { 2, l[1] }, { 31, MV::F(Type::float64, 2) } }));
                r.push_back(MV::St({ { 2, l[2] }, { 4, MV::Bool(true) } }));
                return r;
            }
        }
    }

    std::string describe(const Ops& o, const char* op, const MV& a, const MV& b, uint32_t inc)
    {
        return std::string(o.desc->name()) + " (" + o.name + ") " + op + " a=" + str(a) + " b=" + str(b) + " included=" + std::to_string(inc);
    }

    void expectMV(const MV& got, const MV& want, const Ops& o, const char* op, const MV& a, const MV& b, uint32_t inc)
    {
        vh::checkF(eq(got, want), [&] { return describe(o, op, a, b, inc) + ": got " + str(got) + ", expected " + str(want); });
        vh::outcome(vh::mix(vh::hashStr(op), hash(got)));
    }

    void checkPair(const Ops& o, const MV& a, const MV& b, uint32_t inc)
    {
        const StructDescriptor& d = *o.desc;
        PropertySet ps{ inc };
        auto two = [&](const char* op, const std::function<void(Struct&, Struct&)>& f, const MV& wantA, const MV* wantB) {
            AnyStruct x = make(d, a), y = make(d, b);
            if (vh::G().replay) std::fprintf(stderr, "%s\n", describe(o, op, a, b, inc).c_str());
            f(*x, *y);
            vh::transition();
            expectMV(readStruct(*x), wantA, o, op, a, b, inc);
            if (wantB != nullptr) expectMV(readStruct(*y), *wantB, o, (std::string(op) + "(source)").c_str(), a, b, inc);
            else { writeStruct(*y, a); expectMV(readStruct(*y), a, o, (std::string(op) + "(source rewritten)").c_str(), a, b, inc); }
        };
        two("assign", [&](Struct& x, Struct& y) { o.assign(x, y, ps); }, mAssign(a, b, inc), &b);
        two("move-assign", [&](Struct& x, Struct& y) { o.moveAssign(x, y, ps); }, mAssign(a, b, inc), nullptr);
        two("copy", [&](Struct& x, Struct& y) { o.copy(x, y, ps); }, mCopy(a, b, inc), &b);
        two("merge", [&](Struct& x, Struct& y) { o.merge(x, y, ps); }, mMerge(a, b, inc), &b);
        { MV wa = mCopy(a, b, inc), wb = mCopy(b, a, inc); two("swap", [&](Struct& x, Struct& y) { o.swap(x, y, ps); }, wa, &wb); }
        two("clear", [&](Struct& x, Struct&) { o.clear(x, ps); }, mWithout(a, inc), &b);
        {
            const AnyStruct x = make(d, a), y = make(d, b);
            int c = mCmp(a, b, d, inc);
            uint32_t diff = mDiff(a, b, inc);
            auto is = [&](const char* op, bool got, bool want) { vh::checkF(got == want, [&] { return describe(o, op, a, b, inc) + ": got " + (got ? "true" : "false"); }); };
            is("equal", o.equal(*x, *y, ps), diff == 0);
            is("less", o.less(*x, *y, ps), c < 0);
            is("lessEqual", o.lessEqual(*x, *y, ps), c <= 0);
            is("greater", o.greater(*x, *y, ps), c > 0);
            is("greaterEqual", o.greaterEqual(*x, *y, ps), c >= 0);
            uint32_t got = o.diff(*x, *y, ps).toValue();
            vh::checkF(got == diff, [&] { return describe(o, "diff", a, b, inc) + ": got " + std::to_string(got) + ", expected " + std::to_string(diff); });
            vh::transition(6);
            expectMV(readStruct(*x), a, o, "comparisons(left)", a, b, inc);
            expectMV(readStruct(*y), b, o, "comparisons(right)", a, b, inc);
        }
    }

    void checkWhole(const Ops& o, const MV& a, const MV& b)
    {
        const StructDescriptor& d = *o.desc;
        auto is = [&](const char* op, bool got, bool want) { vh::checkF(got == want, [&] { return describe(o, op, a, b, 0) + ": got " + (got ? "true" : "false"); }); };
        {
            const AnyStruct x = make(d, a), y = make(d, b);
            uint32_t key = keyMask(d);
            is("same", o.same(*x, *y), mDiff(a, b, key) == 0);
            int c = mCmp(a, b, d, ~0u);
            bool e = mDiff(a, b, ~0u) == 0;
            int want = (e ? 1 : 2) | (c < 0 ? 4 : 0) | (c <= 0 ? 8 : 0) | (c > 0 ? 16 : 0) | (c >= 0 ? 32 : 0);
            int got = o.opCompare(*x, *y);
            vh::checkF(got == want, [&] { return describe(o, "operators", a, b, 0) + ": got bits " + std::to_string(got) + ", expected " + std::to_string(want); });
            vh::checkF(x->_validProperties().toValue() == maskOf(a), [&] { return describe(o, "validProperties", a, b, 0); });
            vh::checkF(x->_keyProperties().toValue() == key, [&] { return describe(o, "keyProperties", a, b, 0); });
            vh::checkF(x->_properties().toValue() == allMask(d), [&] { return describe(o, "properties", a, b, 0); });
            is("hasProperties", x->_hasProperties(PropertySet{ maskOf(b) }), (maskOf(b) & ~maskOf(a)) == 0);
            is("hasProperties(exact)", x->_hasProperties<false>(PropertySet{ maskOf(b) }), maskOf(b) == maskOf(a));
            expectMV(o.copyConstruct(*x), a, o, "copy-construct", a, b, 0);
            expectMV(readStruct(*x), a, o, "copy-construct(source)", a, b, 0);
        }
        { AnyStruct x = make(d, a); expectMV(o.moveConstruct(*x), a, o, "move-construct", a, b, 0); writeStruct(*x, b); expectMV(readStruct(*x), b, o, "reuse after move", a, b, 0); }
        { AnyStruct x = make(d, a), y = make(d, b); o.opAssign(*x, *y); expectMV(readStruct(*x), b, o, "=", a, b, 0); expectMV(readStruct(*y), b, o, "=(source)", a, b, 0); }
        { AnyStruct x = make(d, a), y = make(d, b); o.opMove(*x, *y); expectMV(readStruct(*x), b, o, "=(move)", a, b, 0); writeStruct(*y, a); expectMV(readStruct(*y), a, o, "reuse after move", a, b, 0); }
        // self operations
        { AnyStruct x = make(d, a); uint32_t inc = maskOf(b) | 1u << 31; o.assign(*x, *x, PropertySet{ inc }); expectMV(readStruct(*x), mOnly(a, inc), o, "self-assign", a, b, inc); }
        { AnyStruct x = make(d, a); o.copy(*x, *x, PropertySet::All); o.merge(*x, *x, PropertySet::All); o.swap(*x, *x, PropertySet::All); expectMV(readStruct(*x), a, o, "self copy/merge/swap", a, b, ~0u); }
        vh::transition(12);
    }

    // the properties that take part; all others stay invalid
    void active(Chooser& ch, const StructDescriptor& d, int n, MV& a, MV& b, uint32_t& act, bool small)
    {
        const auto& pds = d.propertyDescriptors();
        size_t from = 0;
        act = 0;
        a = MV::St(); b = MV::St();
        for (int k = 0; k < n && from < pds.size(); ++k)
        {
            size_t left = pds.size() - from - (n - k - 1);
            if (static_cast<int>(pds.size() - from) < n - k) break;
            size_t i = from + ch.choose(static_cast<int>(left), "property");
            from = i + 1;
            auto dom = domain(pds[i].valueDescriptor(), small);
            int x = ch.choose(static_cast<int>(dom.size()) + 1, "a");
            int y = ch.choose(static_cast<int>(dom.size()) + 1, "b");
            if (x > 0) a.p[pds[i].tag()] = dom[x - 1];
            if (y > 0) b.p[pds[i].tag()] = dom[y - 1];
            act |= 1u << pds[i].tag();
        }
    }

    template <typename T> void pairs(Chooser& ch, int n, bool small)
    {
        const Ops& o = ch.of(kinds<T>(), "kind");
        MV a, b; uint32_t act;
        active(ch, *o.desc, n, a, b, act, small);
        // included sets: none of the active ones, each one, all but each, all; irrelevant bits both set and clear
        std::vector<uint32_t> incs{ ~0u, 0u, act, ~act };
        for (uint32_t t = 0; t < 32 && n > 1; ++t) if (in(act, t)) { incs.push_back(1u << t); incs.push_back(~(1u << t)); }
        if (ch.tracing()) ch.note("a=" + str(a) + " b=" + str(b));
        vh::state(vh::mix(vh::mix(vh::hashStr(o.desc->name()), hash(a)), hash(b)));
        for (uint32_t inc : incs) checkPair(o, a, b, inc);
        checkWhole(o, a, b);
        if (a.p.size() > 1) vh::sample(std::string(o.name) + " " + o.desc->name() + " a=" + str(a) + " b=" + str(b));
    }
}

SCENARIO(pairs_rec) { pairs<VRec>(ch, vh::bound(2, 3), false); }
SCENARIO_THOROUGH(pairs_rec_small) { pairs<VRec>(ch, 3, true); }
SCENARIO(pairs_all) { pairs<VAll>(ch, vh::bound(1, 2), false); }
SCENARIO(pairs_all_small) { pairs<VAll>(ch, vh::bound(1, 2), true); }
SCENARIO(pairs_vecs) { pairs<VVecs>(ch, vh::bound(1, 2), false); }
SCENARIO(pairs_onlykey) { pairs<VOnlyKey>(ch, 2, false); }
SCENARIO(pairs_nokey) { pairs<VNoKey>(ch, 2, false); }
SCENARIO(pairs_node) { pairs<VNode>(ch, vh::bound(2, 3), false); }

namespace
{
    // every sequence of operations on two records, in lockstep with the model
    template <typename T> void sequences(Chooser& ch, int depth, const std::vector<MV>& init)
    {
        const Ops& o = ch.of(kinds<T>(), "kind");
        const StructDescriptor& d = *o.desc;
        MV m[2] = { init[0], init[1] };
        AnyStruct x[2] = { make(d, m[0]), make(d, m[1]) };
        uint32_t first = 1u << d.propertyDescriptors().front().tag();
        const uint32_t incs[2] = { ~0u, first };
        auto verify = [&](const std::string& op) {
            for (int i = 0; i < 2; ++i)
            {
                MV got = readStruct(*x[i]);
                vh::checkF(eq(got, m[i]), [&] { return std::string(d.name()) + " (" + o.name + ") after " + op + ": record " + std::to_string(i) + " is " + str(got) + ", expected " + str(m[i]); });
            }
        };
        for (int step = 0; step < depth; ++step)
        {
            int op = ch.choose(7 + 2 * static_cast<int>(init.size()), "op");
            std::string name;
            if (op < 6)
            {
                int i = ch.choose(2, "target");
                uint32_t inc = incs[ch.choose(2, "included")];
                int j = 1 - i;
                switch (op)
                {
                    case 0: name = "assign"; o.assign(*x[i], *x[j], PropertySet{ inc }); m[i] = mAssign(m[i], m[j], inc); break;
                    case 1: name = "copy"; o.copy(*x[i], *x[j], PropertySet{ inc }); m[i] = mCopy(m[i], m[j], inc); break;
                    case 2: name = "merge"; o.merge(*x[i], *x[j], PropertySet{ inc }); m[i] = mMerge(m[i], m[j], inc); break;
                    case 3: name = "clear"; o.clear(*x[i], PropertySet{ inc }); m[i] = mWithout(m[i], inc); break;
                    case 4: name = "swap"; o.swap(*x[i], *x[j], PropertySet{ inc }); { MV a = mCopy(m[i], m[j], inc), b = mCopy(m[j], m[i], inc); m[i] = a; m[j] = b; } break;
                    case 5: name = "move then rewrite"; o.moveAssign(*x[i], *x[j], PropertySet{ inc }); m[i] = mAssign(m[i], m[j], inc); writeStruct(*x[j], init[2 % init.size()]); m[j] = init[2 % init.size()]; break;
                }
                name += " to " + std::to_string(i) + " included " + std::to_string(inc);
            }
            else if (op == 6) { std::swap(x[0], x[1]); std::swap(m[0], m[1]); name = "exchange holders"; }
            else
            {
                int k = op - 7;
                writeStruct(*x[k & 1], init[k / 2]); m[k & 1] = init[k / 2];
                name = "write " + std::to_string(k & 1);
            }
            if (ch.tracing()) ch.note(name + " -> " + str(m[0]) + " | " + str(m[1]));
            vh::transition();
            vh::state(vh::mix(hash(m[0]), vh::mix(hash(m[1]), 77)));
            verify(name);
        }
    }
}

SCENARIO(sequences_node)
{
    auto l = leafDomain(true);
    static const std::vector<MV> init{ MV::St({ { 2, l[2] }, { 4, MV::Bool(true) } }), MV::St({ { 2, l[1] }, { 31, MV::F(Type::float64, 3) } }), MV::St() };
    sequences<VNode>(ch, vh::bound(3, 4), init);
}
SCENARIO(sequences_rec)
{
    auto l = leafDomain(false);
    static const std::vector<MV> init{ MV::St({ { 5, MV::S("a string that does not fit the small buffer") }, { 12, MV::V({ l[2], l[4] }) } }), MV::St({ { 2, MV::Int(Type::int32, 4) }, { 9, MV::St({ { 2, l[2] } }) } }) };
    sequences<VRec>(ch, vh::bound(3, 4), init);
}

// property-level interface on a compiled type
SCENARIO(property_ops)
{
    VLeaf a, b;
    std::optional<std::string> m[2];
    VLeaf* x[2] = { &a, &b };
    const std::vector<std::optional<std::string>> vals{ std::nullopt, std::string("short"), std::string("a string that does not fit the small buffer") };
    int depth = vh::bound(4, 5);
    for (int s = 0; s < depth; ++s)
    {
        int op = ch.choose(8, "op"), i = ch.choose(2, "on"), j = 1 - i;
        switch (op)
        {
            case 0: x[i]->text = *vals[1]; m[i] = vals[1]; break;
            case 1: x[i]->text.emplace(*vals[2]); m[i] = vals[2]; break;
            case 2: x[i]->text = dots::invalid; m[i].reset(); break;
            case 3: x[i]->text = x[j]->text; m[i] = m[j]; break;
            case 4: x[i]->text.swap(x[j]->text); std::swap(m[i], m[j]); break;
            case 5: { std::string& r = x[i]->text.valueOrEmplace("dflt"); if (!m[i]) m[i] = "dflt"; vh::check(r == *m[i], "valueOrEmplace"); r += "+"; *m[i] += "+"; break; }
            case 6: x[i]->text = std::move(x[j]->text); m[i] = m[j]; x[j]->text = *vals[1]; m[j] = vals[1]; break;
            case 7: x[i]->text = std::string_view("view"); m[i] = "view"; break;
        }
        for (int k = 0; k < 2; ++k)
        {
            vh::check(x[k]->text.isValid() == m[k].has_value(), "validity differs from the model");
            vh::check(x[k]->text.valueOrDefault("none") == m[k].value_or("none"), "valueOrDefault differs from the model");
            bool threw = false;
            try { vh::check(x[k]->text.value() == *m[k], "value differs from the model"); } catch (const std::runtime_error&) { threw = true; }
            vh::check(threw == !m[k], "value() has to throw exactly when the property is invalid");
            vh::check((x[k]->text == dots::invalid) == !m[k], "comparison with invalid");
            vh::check((x[k]->text == std::string("short")) == (m[k] == std::optional<std::string>("short")), "comparison with a value");
            vh::check((x[k]->_validProperties().toValue() == (m[k] ? 2u : 0u)), "valid set differs from the model");
        }
        vh::check((a.text == b.text) == (m[0] == m[1]), "==");
        vh::check((a.text < b.text) == (m[0] < m[1]), "<");
        vh::check((a.text <= b.text) == (m[0] <= m[1]), "<=");
        vh::check((a.text > b.text) == (m[0] > m[1]), ">");
        vh::check((a.text >= b.text) == (m[0] >= m[1]), ">=");
        vh::check((a.text != b.text) == (m[0] != m[1]), "!=");
        vh::transition();
        vh::state(vh::mix(vh::hashStr(m[0].value_or("~")), vh::hashStr(m[1].value_or("~"))));
    }
}

VH_MAIN
