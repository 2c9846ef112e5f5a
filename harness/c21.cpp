// C21: the catalogue of types, the pool of containers, sets of properties, and the views of a record - walks, pairs, paths - against references.
#include "dyn.h"
#include "domains.h"
#include <set>
#include <dots/ContainerPool.h>
#include <dots/type/DescriptorMap.h>
#include <VRec.dots.h>
#include <VAll.dots.h>
#include <VPair.dots.h>
#include <VNode.dots.h>
#include <VLeaf.dots.h>
#include <VOnlyKey.dots.h>
#include <VTransient.dots.h>
#include <VInternalT.dots.h>
#include <DotsHeader.dots.h>

using namespace dx;
using namespace dots;
using dots::types::VAll; using dots::types::VLeaf; using dots::types::VNode; using dots::types::VOnlyKey; using dots::types::VPair; using dots::types::VRec; using dots::types::VTransient; using dots::types::VInternalT;
using vh::Chooser;

namespace
{
    template <typename F>
    bool throws(F&& f) { try { f(); } catch (const std::exception&) { return true; } return false; }

    const std::vector<const StructDescriptor*>& worlds()
    {
        static std::vector<const StructDescriptor*> w = [] {
            std::vector<const StructDescriptor*> r{ &VPair::_Descriptor(), &VNode::_Descriptor(), &VRec::_Descriptor(), &VAll::_Descriptor(), &VOnlyKey::_Descriptor() };
            for (size_t i = 0, n = r.size(); i < n; ++i) r.push_back(&dynWorld().twin(*r[i]));
            return r;
        }();
        return w;
    }
    std::string label(const StructDescriptor& d) { return d.name() + (&d == dynWorld().reg.findStructType(d.name()) ? " (dynamic)" : ""); }

    // a record with the given properties, of the value-th value each
    MV record(const StructDescriptor& d, uint32_t mask, size_t value)
    {
        MV m = MV::St();
        for (const PropertyDescriptor& pd : d.propertyDescriptors())
        {
            if (!in(mask, pd.tag())) continue;
            auto f = dom::full(pd.valueDescriptor(), true);
            m.p[pd.tag()] = f[(value + pd.tag()) % f.size()];
        }
        return m;
    }
}

// sets of properties against sets of numbers
SCENARIO(sets)
{
    static const std::vector<uint32_t> at{ 0, 1, 2, 15, 16, 30, 31 };
    std::set<uint32_t> a, b;
    int x = ch.choose(128, "one set"), y = ch.choose(128, "another");
    for (int i = 0; i < 7; ++i) { if (x >> i & 1) a.insert(at[i]); if (y >> i & 1) b.insert(at[i]); }
    auto build = [](const std::set<uint32_t>& s) { PropertySet p; for (uint32_t i : s) p += PropertySet::FromIndex(i); return p; };
    auto take = [](PropertySet p) { std::set<uint32_t> s; for (uint32_t i = 0; i < 32; ++i) if (PropertySet::FromIndex(i) <= p) s.insert(i); return s; };
    PropertySet A = build(a), B = build(b);
    std::string where = "sets " + A.toString() + " and " + B.toString();
    auto same = [&](PropertySet p, const std::set<uint32_t>& s, const char* what) { vh::checkF(take(p) == s, [&] { return where + ": " + what + " is " + p.toString(); }); };
    std::set<uint32_t> u = a, i, d, sd;
    u.insert(b.begin(), b.end());
    for (uint32_t k : a) (b.count(k) ? i : d).insert(k);
    for (uint32_t k : u) if (a.count(k) != b.count(k)) sd.insert(k);
    same(A, a, "itself"); same(A + B, u, "union"); same(A ^ B, i, "intersection"); same(A.intersection(B), i, "intersection()"); same(A - B, d, "difference"); same(A.symmetricDifference(B), sd, "symmetric difference");
    PropertySet c = A; c += B; same(c, u, "+="); c = A; c ^= B; same(c, i, "^="); c = A; c -= B; same(c, d, "-="); c = A; c.intersect(B); same(c, i, "intersect"); c = A; c.symmetricSubtract(B); same(c, sd, "symmetricSubtract");
    std::set<uint32_t> no; for (uint32_t k = 0; k < 32; ++k) if (!a.count(k)) no.insert(k);
    same(~A, no, "complement");
    bool sub = i == a, sup = i == b;
    vh::check((A == B) == (a == b) && (A != B) == (a != b) && (A <= B) == sub && (A >= B) == sup && (A < B) == (sub && a != b) && (A > B) == (sup && a != b), where + ": comparison");
    vh::check(A.empty() == a.empty() && static_cast<bool>(A) == !a.empty() && A.count() == a.size() && PropertySet{ A.toValue() } == A, where + ": emptiness, count or value");
    std::string bits = A.toString('.', '#');
    for (uint32_t k = 0; k < 32; ++k) vh::check((bits[31 - k] == '#') == (a.count(k) == 1), where + ": as text " + bits);
    for (uint32_t s = 0; s < 32; ++s)
    {
        auto lo = a.lower_bound(s); auto hi = a.upper_bound(s);
        if (lo != a.end()) vh::checkF(A.firstValid(s) == *lo, [&] { return where + ": first from " + std::to_string(s) + " is " + std::to_string(A.firstValid(s)); });
        if (hi != a.begin()) vh::checkF(A.lastValid(s) == *std::prev(hi), [&] { return where + ": last up to " + std::to_string(s) + " is " + std::to_string(A.lastValid(s)); });
        vh::transition();
    }
    vh::state(vh::mix(x, y)); vh::outcome(A.toValue() * 31ull + B.toValue());
}

namespace
{
    // ---- walks: two iterators with filters of their own over two records
    template <typename It>
    struct Walker
    {
        It it;
        const MV* rec; std::vector<uint32_t> tags; size_t pos; int home; // home: which (record, filter) it walks
    };

    template <typename It, typename Rec, typename Begin, typename End>
    void walk(Chooser& ch, const std::string& what, const StructDescriptor& d, bool reverse, Rec& r1, Rec& r2, const MV& m1, const MV& m2, uint32_t f1, uint32_t f2, Begin begin, End end, int depth)
    {
        auto order = [&](uint32_t f) { std::vector<uint32_t> t; for (const PropertyDescriptor& pd : d.propertyDescriptors()) if (in(f, pd.tag())) t.push_back(pd.tag()); if (reverse) std::reverse(t.begin(), t.end()); return t; };
        using W = Walker<It>;
        W a{ begin(r1, f1), &m1, order(f1), 0, 0 }, b{ begin(r2, f2), &m2, order(f2), 0, 1 };
        std::string where = what;
        auto look = [&](W& w, const char* name)
        {
            It& last = w.it;
            bool atEnd = last == (w.home == 0 ? end(r1, f1) : end(r2, f2));
            vh::checkF(atEnd == (w.pos == w.tags.size()), [&] { return where + ": " + name + (atEnd ? " is at the end" : " is not at the end") + " after " + std::to_string(w.pos) + " of " + std::to_string(w.tags.size()); });
            if (w.pos == w.tags.size()) return;
            auto& p = *w.it;
            uint32_t tag = w.tags[w.pos];
            vh::checkF(p.descriptor().tag() == tag, [&] { return where + ": " + name + " shows property " + std::to_string(p.descriptor().tag()) + ", expected " + std::to_string(tag); });
            auto v = w.rec->p.find(tag);
            vh::checkF(p.isValid() == (v != w.rec->p.end()), [&] { return where + ": " + name + " shows property " + std::to_string(tag) + (p.isValid() ? " as set" : " as not set"); });
            if (v != w.rec->p.end()) { MV got = readValue(p.value(), p.descriptor().valueDescriptor()); vh::checkF(eq(got, v->second), [&] { return where + ": " + name + " shows " + str(got) + ", expected " + str(v->second); }); }
            vh::check(w.it->descriptor().tag() == tag, where + ": -> and * differ");
        };
        for (int k = 0; k < depth; ++k)
        {
            int op = ch.choose(11, "step");
            uint64_t before = vh::mix(a.pos, b.pos);
            switch (op)
            {
                case 0: if (a.pos == a.tags.size()) throw vh::Prune{}; ++a.it; ++a.pos; where += " ++a"; break;
                case 1: { if (a.pos == a.tags.size()) throw vh::Prune{}; W old{ a.it++, a.rec, a.tags, a.pos++, a.home }; where += " a++"; look(old, "what a++ returned"); break; }
                case 2: if (a.pos == 0) throw vh::Prune{}; --a.it; --a.pos; where += " --a"; break;
                case 3: { if (a.pos == 0) throw vh::Prune{}; W old{ a.it--, a.rec, a.tags, a.pos--, a.home }; where += " a--"; look(old, "what a-- returned"); break; }
                case 4: if (b.pos == b.tags.size()) throw vh::Prune{}; ++b.it; ++b.pos; where += " ++b"; break;
                case 5: a = b; where += " a=b"; break;
                case 6: { W c = b; a = std::move(c); where += " a=move(copy of b)"; break; }
                case 7: a.it.swap(b.it); std::swap(a.rec, b.rec); std::swap(a.tags, b.tags); std::swap(a.pos, b.pos); std::swap(a.home, b.home); where += " a.swap(b)"; break;
                case 8: std::swap(a.it, b.it); std::swap(a.rec, b.rec); std::swap(a.tags, b.tags); std::swap(a.pos, b.pos); std::swap(a.home, b.home); where += " swap(a,b)"; break;
                case 9: b = W{ end(r2, f2), &m2, order(f2), order(f2).size(), 1 }; where += " b=end"; break;
                case 10: a.it.swap(W{ b }.it); { W c = b; a.rec = c.rec; a.tags = c.tags; a.pos = c.pos; a.home = c.home; } where += " a.swap(copy of b)"; break;
            }
            look(a, "a"); look(b, "b");
            if (a.home == b.home) vh::check((a.it == b.it) == (a.pos == b.pos) && (a.it != b.it) == (a.pos != b.pos), where + ": comparison of a and b");
            vh::transition();
            vh::state(vh::mix(vh::mix(vh::hashStr(what), before), vh::mix(op, a.home * 2 + b.home)));
        }
        for (auto [r, m] : { std::make_pair(&r1, &m1), std::make_pair(&r2, &m2) }) { MV now = readStruct(*r); vh::checkF(eq(now, *m), [&] { return where + ": walking changed " + str(*m) + " to " + str(now); }); }
        // what a mutable iterator shows can be changed
        if constexpr (!std::is_const_v<std::remove_reference_t<decltype(*a.it)>>)
            if (a.pos < a.tags.size())
            {
                (*a.it).reset();
                MV now = readStruct(a.rec == &m1 ? r1 : r2), want = *a.rec;
                want.p.erase(a.tags[a.pos]);
                vh::checkF(eq(now, want), [&] { return where + ": resetting property " + std::to_string(a.tags[a.pos]) + " left " + str(now); });
            }
        vh::outcome(vh::mix(vh::hashStr(what), vh::mix(a.pos, b.pos)));
    }

    PropertySet S(uint32_t m) { return PropertySet{ m }; }
    uint32_t subset(const StructDescriptor& d, int x) { uint32_t m = 0; int i = 0; for (const PropertyDescriptor& pd : d.propertyDescriptors()) { if (x >> i % 8 & 1) m |= 1u << pd.tag(); ++i; } return m; }
}
SCENARIO(walks)
{
    int n = ch.choose(vh::bound(3, 4), "type");
    static const std::vector<int> which{ 0, 2, 6, 5 };
    const StructDescriptor& d = *worlds()[which[n]];
    int kind = ch.choose(4, "kind of iterator");
    static const std::vector<int> few{ 0xff, 0, 0x5, 0x2, 0x7 };
    int v1 = few[ch.choose(2, "valid")] , f1 = few[ch.choose(3, "filter")], f2 = few[3 * ch.choose(2, "other filter")];
    AnyStruct a = make(d, record(d, subset(d, v1), 0)), b = make(d, record(d, subset(d, 0x6), 1));
    MV m1 = readStruct(*a), m2 = readStruct(*b);
    uint32_t s1 = subset(d, f1), s2 = subset(d, f2);
    std::string what = label(d) + " filters " + std::to_string(s1) + ", " + std::to_string(s2) + ":";
    int depth = vh::bound(3, 4);
    Struct& ra = *a; Struct& rb = *b;
    const Struct& ca = ra; const Struct& cb = rb;
    if (kind == 0) walk<property_iterator>(ch, "iterator " + what, d, false, ra, rb, m1, m2, s1, s2, [](Struct& s, uint32_t f) { return s._begin(S(f)); }, [](Struct& s, uint32_t f) { return s._end(S(f)); }, depth);
    if (kind == 1) walk<const_property_iterator>(ch, "const iterator " + what, d, false, ca, cb, m1, m2, s1, s2, [](const Struct& s, uint32_t f) { return s._begin(S(f)); }, [](const Struct& s, uint32_t f) { return s._end(S(f)); }, depth);
    if (kind == 2) walk<reverse_property_iterator>(ch, "reverse iterator " + what, d, true, ra, rb, m1, m2, s1, s2, [](Struct& s, uint32_t f) { return s._rbegin(S(f)); }, [](Struct& s, uint32_t f) { return s._rend(S(f)); }, depth);
    if (kind == 3) walk<const_reverse_property_iterator>(ch, "const reverse iterator " + what, d, true, ca, cb, m1, m2, s1, s2, [](const Struct& s, uint32_t f) { return s._rbegin(S(f)); }, [](const Struct& s, uint32_t f) { return s._rend(S(f)); }, depth);
}

// every range over one or two records, for every choice of what is set and asked for
SCENARIO(ranges)
{
    const StructDescriptor& d = *ch.of(worlds(), "type");
    int bits = std::min<int>(static_cast<int>(d.propertyDescriptors().size()), vh::bound(4, 6));
    int v1 = ch.choose(1 << bits, "set in one"), v2 = ch.choose(1 << std::min(bits, 3), "set in the other"), f = ch.choose(1 << bits, "asked for");
    AnyStruct a = make(d, record(d, subset(d, v1), 0)), b = make(d, record(d, subset(d, v2), 1));
    MV m1 = readStruct(*a), m2 = readStruct(*b);
    uint32_t inc = subset(d, f);
    Struct& ra = *a; Struct& rb = *b; const Struct& ca = ra; const Struct& cb = rb;
    std::string where = label(d) + " " + str(m1) + " and " + str(m2) + " asked for " + std::to_string(inc);
    auto order = [&](uint32_t mask, bool reverse) { std::vector<uint32_t> t; for (const PropertyDescriptor& pd : d.propertyDescriptors()) if (in(mask, pd.tag())) t.push_back(pd.tag()); if (reverse) std::reverse(t.begin(), t.end()); return t; };
    auto shows = [&](auto& p, const MV& m, uint32_t tag, const char* what)
    {
        auto v = m.p.find(tag);
        vh::checkF(p.descriptor().tag() == tag && p.isValid() == (v != m.p.end()) && (v == m.p.end() || eq(readValue(p.value(), p.descriptor().valueDescriptor()), v->second)), [&] { return where + ": " + what + " shows property " + std::to_string(p.descriptor().tag()) + ", expected " + std::to_string(tag); });
    };
    auto single = [&](auto&& range, const MV& m, uint32_t mask, bool reverse, const char* what)
    {
        auto want = order(mask, reverse);
        size_t i = 0;
        for (auto& p : range) { vh::checkF(i < want.size(), [&] { return where + ": " + what + " shows too much"; }); shows(p, m, want[i++], what); }
        vh::checkF(i == want.size(), [&] { return where + ": " + what + " shows " + std::to_string(i) + " of " + std::to_string(want.size()); });
        vh::transition();
    };
    auto both = [&](auto&& range, uint32_t mask, bool reverse, const char* what)
    {
        auto want = order(mask, reverse);
        size_t i = 0;
        for (auto& [p, q] : range) { vh::checkF(i < want.size(), [&] { return where + ": " + what + " shows too much"; }); shows(p, m1, want[i], what); shows(q, m2, want[i++], what); }
        vh::checkF(i == want.size(), [&] { return where + ": " + what + " shows " + std::to_string(i) + " of " + std::to_string(want.size()); });
        // forth, back, copied, assigned and exchanged
        auto it = range.begin();
        auto start = it;
        for (size_t k = 0; k < want.size(); ++k) { auto old = it++; shows((*old).first, m1, want[k], what); shows(old->second, m2, want[k], what); }
        vh::check(it == range.end(), where + ": " + what + " does not end");
        for (size_t k = want.size(); k-- > 0;) { if (k % 2) --it; else it--; shows((*it).first, m1, want[k], what); }
        vh::check(it == start && !(it != start), where + ": " + what + " does not return to the start");
        if (want.size() > 1)
        {
            auto other = start; ++other;
            shows(other->first, m1, want[1], what); shows(it->first, m1, want[0], what);
            it.swap(other);
            shows(it->first, m1, want[1], what); shows(it->second, m2, want[1], what); shows(other->first, m1, want[0], what);
            if constexpr (std::is_copy_assignable_v<decltype(it)>) { it = other; shows(it->first, m1, want[0], what); shows(it->second, m2, want[0], what); }
        }
        vh::transition();
    };
    uint32_t valid = maskOf(m1) & inc, common = maskOf(m1) & maskOf(m2) & inc;
    single(ra._propertyRange(S(inc)), m1, inc, false, "range"); single(ca._propertyRange(S(inc)), m1, inc, false, "const range");
    single(ra._propertyRangeReversed(S(inc)), m1, inc, true, "reverse range"); single(ca._propertyRangeReversed(S(inc)), m1, inc, true, "const reverse range");
    single(ra._validPropertyRange(S(inc)), m1, valid, false, "range of what is set"); single(ca._validPropertyRange(S(inc)), m1, valid, false, "const range of what is set");
    single(ra._validPropertyRangeReversed(S(inc)), m1, valid, true, "reverse range of what is set"); single(ca._validPropertyRangeReversed(S(inc)), m1, valid, true, "const reverse range of what is set");
    both(ra._propertyRange(rb, S(inc)), inc, false, "pairs"); both(ra._propertyRange(cb, S(inc)), inc, false, "half const pairs"); both(ca._propertyRange(cb, S(inc)), inc, false, "const pairs");
    both(ra._propertyRangeReversed(rb, S(inc)), inc, true, "reverse pairs"); both(ra._propertyRangeReversed(cb, S(inc)), inc, true, "half const reverse pairs"); both(ca._propertyRangeReversed(cb, S(inc)), inc, true, "const reverse pairs");
    both(ra._validPropertyRange(rb, S(inc)), common, false, "pairs of what is set"); both(ra._validPropertyRange(cb, S(inc)), common, false, "half const pairs of what is set"); both(ca._validPropertyRange(cb, S(inc)), common, false, "const pairs of what is set");
    both(ra._validPropertyRangeReversed(rb, S(inc)), common, true, "reverse pairs of what is set"); both(ra._validPropertyRangeReversed(cb, S(inc)), common, true, "half const reverse pairs of what is set"); both(ca._validPropertyRangeReversed(cb, S(inc)), common, true, "const reverse pairs of what is set");
    // single properties by tag and name
    for (const PropertyDescriptor& pd : d.propertyDescriptors())
    {
        auto it = ra[pd.tag()]; vh::check(it != ra._end(), where + ": no property of tag"); shows(*it, m1, pd.tag(), "by tag");
        auto jt = ca[pd.name()]; vh::check(jt != ca._end(), where + ": no property of name"); shows(*jt, m1, pd.tag(), "by name");
    }
    for (uint32_t t = 0; t < 33; ++t) if (t >= 32 || !in(allMask(d), t)) vh::check(ra[t] == ra._end(), where + ": a property of an unknown tag");
    for (const char* n : { "", "nothing", "id " }) vh::check(ca[std::string_view(n)] == ca._end(), where + ": a property of an unknown name");
    vh::check(eq(readStruct(ra), m1) && eq(readStruct(rb), m2), where + ": looking changed the records");
    vh::state(vh::mix(vh::hashStr(where), inc)); vh::outcome(vh::mix(valid, common));
}

namespace
{
    using steps_t = std::vector<const PropertyDescriptor*>;
    void steps(const StructDescriptor& d, steps_t prefix, std::vector<steps_t>& out)
    {
        for (const PropertyDescriptor& pd : d.propertyDescriptors())
        {
            steps_t s = prefix; s.push_back(&pd);
            out.push_back(s);
            if (pd.valueDescriptor().type() == Type::Struct) steps(static_cast<const StructDescriptor&>(pd.valueDescriptor()), s, out);
        }
    }
    std::string name(const steps_t& s) { std::string n; for (auto* p : s) n += (n.empty() ? "" : ".") + p->name(); return n; }
    MV* at(MV& m, const steps_t& s) { MV* x = &m; for (auto* p : s) { auto it = x->p.find(p->tag()); if (it == x->p.end()) return nullptr; x = &it->second; } return x; }
}
// composed names: every path of a type, whatever of it is there, read and changed
SCENARIO(paths)
{
    const StructDescriptor& d = *ch.of(worlds(), "type");
    static std::map<const StructDescriptor*, std::vector<steps_t>> all;
    auto& ps = all[&d];
    if (ps.empty()) steps(d, {}, ps);
    const steps_t& s = ps[ch.choose(static_cast<int>(ps.size()), "path")];
    const steps_t& other = ps[ch.choose(static_cast<int>(ps.size()), "another")];
    int there = ch.choose(static_cast<int>(s.size()) + 1, "levels there");
    int rest = ch.choose(3, "the rest");                      // nothing, everything set, everything at all levels
    int op = ch.choose(7, "operation");
    if (s.size() == 1 && other.size() > 1 && rest == 0 && op == 6) throw vh::Prune{};
    MV m = rest == 0 ? MV::St() : record(d, allMask(d) & (rest == 1 ? 0x55555555u : ~0u), 2);
    {
        MV* x = &m;
        for (size_t i = 0; i < s.size(); ++i)
        {
            uint32_t tag = s[i]->tag();
            if (static_cast<int>(i) >= there) { x->p.erase(tag); break; }
            if (i + 1 == s.size()) { auto f = dom::full(s[i]->valueDescriptor(), true); x->p[tag] = f[1 % f.size()]; }
            else if (!x->p.count(tag)) x->p[tag] = MV::St();
            x = &x->p[tag];
        }
    }
    AnyStruct a = make(d, m);
    std::string where = label(d) + " " + str(m) + " path " + name(s);
    if (ch.tracing()) ch.note(where);
    // the list of paths
    auto& paths = a->_propertyPaths();
    vh::check(paths.size() == ps.size(), where + ": " + std::to_string(paths.size()) + " paths, expected " + std::to_string(ps.size()));
    for (auto& path : paths) { steps_t e; for (const PropertyDescriptor& p : path.elements()) e.push_back(&p); vh::check(std::find(ps.begin(), ps.end(), e) != ps.end() && &path.destination() == e.back(), where + ": unexpected path " + name(e)); }
    auto found = [&](const steps_t& p, const PropertyPath& path) { steps_t e; for (const PropertyDescriptor& x : path.elements()) e.push_back(&x); vh::check(e == p, where + ": " + name(p) + " leads to " + name(e)); };
    found(s, a->_path(name(s)));
    if (op == 0) for (std::string bad : { name(s) + ".", "." + name(s), name(s) + ".nothing", name(s) + "x", std::string(), name(s) + "." + s.back()->name() })
    {
        bool known = std::any_of(ps.begin(), ps.end(), [&](auto& p) { return name(p) == bad; });
        vh::check(throws([&] { (void)a->_path(bad); }) != known, where + ": a path called '" + bad + "'");
    }
    auto shows = [&](const steps_t& p)
    {
        auto prop = a->_get(name(p));
        MV now = m; MV* v = at(now, p);
        vh::checkF(prop.isValid() == (v != nullptr), [&] { return where + ": " + name(p) + (v ? " is not set" : " is set"); });
        vh::check(&prop.descriptor() == p.back(), where + ": descriptor of " + name(p));
        if (v) { MV got = readValue(prop.value(), p.back()->valueDescriptor()); vh::checkF(eq(got, *v), [&] { return where + ": " + name(p) + " is " + str(got) + ", expected " + str(*v); }); }
        else vh::check(throws([&] { (void)prop.value(); }), where + ": the value of " + name(p) + " that is not set");
    };
    shows(s); shows(other);
    vh::checkF(eq(readStruct(*a), m), [&] { return where + ": looking made it " + str(readStruct(*a)); });
    // changes
    auto prop = a->_get(name(s));
    const Descriptor<>& vd = s.back()->valueDescriptor();
    auto make_there = [&](MV v) { MV* x = &m; for (size_t i = 0; i + 1 < s.size(); ++i) { if (!x->p.count(s[i]->tag())) x->p[s[i]->tag()] = MV::St(); x = &x->p[s[i]->tag()]; } x->p[s.back()->tag()] = std::move(v); };
    if (op == 1) { prop.reset(); if (MV* v = at(m, s)) { (void)v; MV* x = &m; for (size_t i = 0; i + 1 < s.size(); ++i) x = &x->p[s[i]->tag()]; x->p.erase(s.back()->tag()); } where += " reset"; }
    if (op == 2) { prop = dots::invalid; if (at(m, s)) { MV* x = &m; for (size_t i = 0; i + 1 < s.size(); ++i) x = &x->p[s[i]->tag()]; x->p.erase(s.back()->tag()); } where += " = invalid"; }
    if (op == 3 || op == 4)
    {
        auto f = dom::full(vd, true);
        MV v = f[(op == 3 ? 0 : 3) % f.size()];
        // the value is taken from a record of its own, through a path too
        MV src = MV::St(); MV* x = &src; for (auto* p : s) { x->p[p->tag()] = p == s.back() ? v : MV::St(); x = &x->p[p->tag()]; }
        AnyStruct b = make(d, src);
        if (op == 3) { auto from = b->_get(name(s)); prop.assign(std::as_const(from)); } else prop.emplace(b->_get(name(s)).storage());
        make_there(v);
        vh::checkF(eq(readStruct(*b), src), [&] { return where + ": assigning changed the source to " + str(readStruct(*b)); });
        where += " assign " + str(v);
    }
    if (op == 5) { bool had = at(m, s) != nullptr; auto& v = prop.valueOrEmplace(); MV got = readValue(v, vd); if (!had) { if (vd.type() == Type::Struct) got = MV::St(); make_there(got); } where += " valueOrEmplace"; }
    if (op == 6)
    {
        // both records exchange the value
        MV m2 = record(d, allMask(d), 4), want2 = m2;
        AnyStruct b = make(d, m2);
        auto q = b->_get(name(s));
        prop.swap(q);
        MV* x = at(m, s); MV* y = at(want2, s);
        std::optional<MV> vx, vy; if (x) vx = *x; if (y) vy = *y;
        auto set = [&](MV& root, const std::optional<MV>& v) { MV* z = &root; for (size_t i = 0; i + 1 < s.size(); ++i) { auto it = z->p.find(s[i]->tag()); if (it == z->p.end()) { if (!v) return; z->p[s[i]->tag()] = MV::St(); } z = &z->p[s[i]->tag()]; } if (v) z->p[s.back()->tag()] = *v; else z->p.erase(s.back()->tag()); };
        set(m, vy); set(want2, vx);
        where += " swap";
        vh::checkF(eq(readStruct(*b), want2), [&] { return where + ": the other is " + str(readStruct(*b)) + ", expected " + str(want2); });
    }
    vh::checkF(eq(readStruct(*a), m), [&] { return where + ": became " + str(readStruct(*a)) + ", expected " + str(m); });
    shows(s); shows(other);
    vh::state(vh::mix(vh::hashStr(where), op)); vh::transition(2); vh::outcome(vh::mix(hash(m), op));
}

namespace
{
    // ---- the catalogue
    struct Twin { DynWorld w; std::vector<Descriptor<>*> d; };
    struct Cast
    {
        DynWorld w[2];
        std::vector<Descriptor<>*> d; // enum, leaf, node, record of the one world and of the other, then vectors of leaves
        Cast()
        {
            for (auto& x : w)
            {
                x.twin(VRec::_Descriptor());
                for (const char* n : { "VEnum", "VLeaf", "VNode", "VRec", "vector<VLeaf>" }) d.push_back(x.reg.findType(n, true));
            }
        }
    };
    Cast& cast() { static Cast c; return c; }

    void dependencies(Descriptor<>& d, std::vector<Descriptor<>*>& out)
    {
        if (d.type() == Type::Struct) for (PropertyDescriptor& pd : static_cast<StructDescriptor&>(d).propertyDescriptors()) out.push_back(&pd.valueDescriptor());
        if (d.type() == Type::Vector) out.push_back(&static_cast<VectorDescriptor&>(d).valueDescriptor());
        if (d.type() == Type::Enum) out.push_back(&static_cast<EnumDescriptor&>(d).underlyingDescriptor());
    }
    struct RefReg
    {
        std::map<std::string, const Descriptor<>*> types;
        std::vector<const Descriptor<>*> log;
        std::function<void(const Descriptor<>&)> told;
        const Descriptor<>* add(Descriptor<>& d)
        {
            auto [it, isNew] = types.emplace(d.name(), &d);
            if (!isNew) return it->second;
            std::vector<Descriptor<>*> deps;
            dependencies(d, deps);
            for (auto* x : deps) add(*x);
            log.push_back(&d);
            if (told) told(d);
            return &d;
        }
    };
}
SCENARIO(registry)
{
    auto& c = cast();
    int policy = ch.choose(2, "policy");
    int reaction = ch.choose(3, "what the handler does");     // nothing, registers, deregisters
    int reactTo = reaction ? ch.choose(3, "at") : 0, reactWith = reaction ? ch.choose(3, "with") : 0;
    std::vector<const Descriptor<>*> log;
    Registry* self = nullptr;
    RefReg ref;
    static const std::vector<int> whom{ 1, 2, 5 };
    auto handler = [&](const Descriptor<>& d)
    {
        log.push_back(&d);
        if (reaction && d.name() == c.d[reactTo]->name()) { if (reaction == 1) self->registerType(*c.d[whom[reactWith]], false); else self->deregisterType(c.d[whom[reactWith]]->name(), false); }
    };
    ref.told = [&](const Descriptor<>& d) { if (reaction && d.name() == c.d[reactTo]->name()) { if (reaction == 1) ref.add(*c.d[whom[reactWith]]); else ref.types.erase(c.d[whom[reactWith]]->name()); } };
    Registry r{ Registry::new_type_handler_t{ handler }, policy ? Registry::StaticTypePolicy::InternalOnly : Registry::StaticTypePolicy::FundamentalOnly };
    self = &r;
    vh::check(log.empty(), "the types a registry starts with are announced");
    for (auto& [n, d] : r) ref.types.emplace(std::string(n), d.get());
    std::string where = policy ? "internal types:" : "fundamental types:";
    int depth = vh::bound(3, 4) - (reaction ? 1 : 0), n = static_cast<int>(c.d.size()), offered = vh::bound(6, n);
    static const std::vector<int> order{ 0, 1, 3, 4, 5, 8, 2, 6, 7, 9 };
    for (int k = 0; k < depth; ++k)
    {
        int op = ch.choose(reaction ? 2 : 4, "operation"), who = order[ch.choose(offered, "type")];
        Descriptor<>& d = *c.d[who];
        bool had = ref.types.count(d.name());
        if (op < 2)
        {
            where += (op ? " ensure " : " register ") + d.name() + (who >= n / 2 ? "'" : "");
            if (op == 0 && had) vh::checkF(throws([&] { r.registerType(d); }), [&] { return where + ": a known name was accepted"; });
            else
            {
                const Descriptor<>* got = &r.registerType(d, op == 0);
                const Descriptor<>* want = ref.add(d);
                vh::checkF(got == want, [&] { return where + ": returned another type"; });
            }
        }
        else
        {
            bool byName = op == 2;
            where += " drop " + d.name() + (byName ? "" : "'");
            if (!had)
            {
                vh::checkF(throws([&] { if (byName) r.deregisterType(d.name()); else r.deregisterType(d); }), [&] { return where + ": an unknown name was accepted"; });
                if (byName) r.deregisterType(d.name(), false); else r.deregisterType(d, false);
            }
            else if (byName) r.deregisterType(d.name()); else r.deregisterType(d, false);
            ref.types.erase(d.name());
        }
        // what it holds
        vh::checkF(r.size() == ref.types.size(), [&] { return where + ": " + std::to_string(r.size()) + " types, expected " + std::to_string(ref.types.size()); });
        auto it = r.begin();
        for (auto& [nm, p] : ref.types) { vh::checkF(it != r.end() && it->first == nm && it->second.get() == p, [&] { return where + ": " + nm + " is not listed or another"; }); ++it; }
        vh::check(it == r.end(), where + ": listed too much");
        for (auto* x : c.d)
        {
            auto f = ref.types.find(x->name());
            const Descriptor<>* want = f == ref.types.end() ? nullptr : f->second;
            const Registry& cr = r;
            vh::checkF(r.findType(x->name()) == want && cr.findType(x->name()) == want && r.hasType(x->name()) == (want != nullptr), [&] { return where + ": " + x->name() + " found wrongly"; });
            bool e = want && want->type() == Type::Enum, s = want && want->type() == Type::Struct;
            vh::checkF((r.findEnumType(x->name()) == want) == (e || !want) && (r.findStructType(x->name()) == want) == (s || !want), [&] { return where + ": " + x->name() + " found as something else"; });
            vh::checkF(throws([&] { (void)cr.getType(x->name()); }) == !want && throws([&] { (void)cr.getEnumType(x->name()); }) == !e && throws([&] { (void)r.getStructType(x->name()); }) == !s && throws([&] { (void)r.findType(x->name(), true); }) == !want, [&] { return where + ": " + x->name() + " got wrongly"; });
        }
        vh::checkF(log == ref.log, [&] { std::string s; for (auto* x : log) s += " " + x->name(); std::string t; for (auto* x : ref.log) t += " " + x->name(); return where + ": announced" + s + ", expected" + t; });
        vh::transition();
        uint64_t h = policy; for (auto& [nm, p] : ref.types) for (size_t i = 0; i < c.d.size(); ++i) if (c.d[i] == p) h = vh::mix(h, i);
        vh::state(h);
    }
    std::vector<const Descriptor<>*> es, ss, all, both;
    r.forEach([&](const Descriptor<>& d) { all.push_back(&d); });
    r.forEach<EnumDescriptor>([&](const EnumDescriptor& d) { es.push_back(&d); });
    r.forEach<StructDescriptor>([&](const StructDescriptor& d) { ss.push_back(&d); });
    r.forEach<EnumDescriptor, StructDescriptor>([&](const auto& d) { both.push_back(&d); });
    r.forEach([&](const Descriptor<>& d) { (void)d; all.push_back(nullptr); }, [](const Descriptor<>& d) { return d.name() == "VLeaf"; });
    std::vector<const Descriptor<>*> we, ws, wa, wb;
    for (auto& [nm, p] : ref.types) { wa.push_back(p); if (p->type() == Type::Enum) { we.push_back(p); wb.push_back(p); } if (p->type() == Type::Struct) { ws.push_back(p); wb.push_back(p); } }
    if (ref.types.count("VLeaf")) wa.push_back(nullptr);
    vh::check(es == we && ss == ws && all == wa && both == wb, where + ": forEach");
    vh::outcome(vh::mix(log.size(), ref.types.size()));
}
// what a registry starts with
SCENARIO(policies)
{
    int policy = ch.choose(3, "policy");
    (void)VPair::_Descriptor(); (void)VInternalT::_Descriptor(); (void)types::DotsHeader::_Descriptor(); (void)Descriptor<vector_t<VPair>>::Instance(); (void)Descriptor<vector_t<VInternalT>>::Instance();
    Registry r{ std::nullopt, policy == 0 ? Registry::StaticTypePolicy::FundamentalOnly : policy == 1 ? Registry::StaticTypePolicy::InternalOnly : Registry::StaticTypePolicy::All };
    size_t n = 0;
    for (const char* t : { "bool", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "float32", "float64", "property_set", "timepoint", "steady_timepoint", "duration", "uuid", "string" })
    {
        vh::check(r.hasType(t) && r.hasType("vector<" + std::string(t) + ">"), std::string(t) + " or vectors of it are unknown");
        n += 2;
    }
    for (const char* t : { "DotsHeader", "VInternalT", "vector<VInternalT>" }) vh::check(r.hasType(t) == (policy >= 1), std::string(t) + " under policy " + std::to_string(policy));
    for (const char* t : { "VPair", "vector<VPair>", "VAll", "VRec" }) vh::check(r.hasType(t) == (policy == 2), std::string(t) + " under policy " + std::to_string(policy));
    if (policy == 0) vh::check(r.size() == n, "a registry of fundamental types holds " + std::to_string(r.size()));
    if (policy == 2) vh::check(r.size() == static_descriptors().size(), "a registry of all types holds " + std::to_string(r.size()));
    vh::state(policy); vh::transition(); vh::outcome(r.size());
}
SCENARIO(descriptor_map)
{
    auto& c = cast();
    DescriptorMap m;
    std::map<std::string, Descriptor<>*> ref;
    std::string where = "map:";
    static const std::vector<int> who{ 0, 1, 5, 6 };
    for (int k = 0, depth = vh::bound(3, 5); k < depth; ++k)
    {
        int op = ch.choose(6, "operation");
        Descriptor<>& d = *c.d[who[op == 5 ? 0 : ch.choose(4, "type")]];
        bool had = ref.count(d.name());
        where += " " + std::to_string(op) + d.name();
        if (op == 0) { auto [p, isNew] = m.tryEmplace(d); vh::check(isNew == !had && p == (had ? ref[d.name()] : &d), where + ": tryEmplace"); ref.emplace(d.name(), &d); }
        if (op == 1) { bool t = throws([&] { vh::check(&m.emplace(d) == &d, where + ": emplace returned another"); }); vh::check(t == had, where + ": emplace"); ref.emplace(d.name(), &d); }
        if (op == 2) { vh::check(throws([&] { m.erase(d.name()); }) == !had, where + ": erase"); ref.erase(d.name()); }
        if (op == 3) { m.erase(d, false); ref.erase(d.name()); }
        if (op == 4) { DescriptorMap copy = m; m.clear(); vh::check(copy.size() == ref.size(), where + ": copy"); m = copy; }
        if (op == 5) { m.clear(); ref.clear(); }
        vh::check(m.size() == ref.size(), where + ": size");
        for (auto* x : c.d)
        {
            auto f = ref.find(x->name());
            Descriptor<>* want = f == ref.end() ? nullptr : f->second;
            vh::check(m.find(x->name()) == want && m.contains(x->name()) == (want != nullptr) && throws([&] { (void)m.get(x->name()); }) == !want && throws([&] { (void)std::as_const(m).find(x->name(), true); }) == !want, where + ": " + x->name() + " found wrongly");
        }
        auto it = m.begin();
        for (auto& [n, p] : ref) { vh::check(it != m.end() && it->first == n && it->second.get() == p, where + ": listing"); ++it; }
        vh::check(it == m.end() && m.cend() == m.end() && m.data().size() == ref.size(), where + ": listed too much");
        vh::transition();
        uint64_t h = 0; for (auto& [n, p] : ref) for (size_t i = 0; i < c.d.size(); ++i) if (c.d[i] == p) h = vh::mix(h, i);
        vh::state(h);
    }
    vh::outcome(ref.size());
}

// the pool: containers by type and by name, with types of the same name, removed, copied and moved
SCENARIO(pool)
{
    auto& c = cast();
    std::vector<const StructDescriptor*> d{ static_cast<StructDescriptor*>(c.d[3]), static_cast<StructDescriptor*>(c.d[8]), &VRec::_Descriptor(), &VPair::_Descriptor() };
    struct Ref { const StructDescriptor* d; int64_t n; };
    std::vector<Ref> ref; // in the order of creation
    auto p = std::make_unique<ContainerPool>();
    std::vector<ContainerPool::node_t> nodes;
    std::string where = "pool:";
    auto find = [&](const StructDescriptor* x) { return std::find_if(ref.begin(), ref.end(), [&](auto& r) { return r.d == x; }); };
    for (int k = 0, depth = vh::bound(4, 5); k < depth; ++k)
    {
        int op = ch.choose(7, "operation");
        const StructDescriptor* x = d[op < 5 ? ch.choose(4, "type") : 0];
        auto it = find(x);
        where += " " + std::to_string(op) + (op < 5 ? x->name() + "#" + std::to_string(std::find(d.begin(), d.end(), x) - d.begin()) : "");
        switch (op)
        {
            case 0: { Container<>& k2 = p->get(*x); vh::check(&k2.descriptor() == x, where + ": the container is of another type"); if (it == ref.end()) ref.push_back({ x, 0 }); break; }
            case 1: vh::check(throws([&] { (void)p->get(*x, false); }) == (it == ref.end()), where + ": get without inserting"); break;
            case 2:
            {
                // an instance, so that containers can be told apart
                AnyStruct a = make(*x, x->name() == "VRec" ? MV::St({ { 2, MV::Int(Type::int32, k) }, { 30, MV::S("k") } }) : MV::St({ { 1, MV::Int(Type::int32, k) } }));
                types::DotsHeader h{ .typeName = x->name(), .sentTime = timepoint_t::Now(), .attributes = a->_validProperties(), .sender = 1u, .removeObj = false };
                p->get(*x).insert(h, *a);
                if (it == ref.end()) ref.push_back({ x, 1 }); else ++it->n;
                break;
            }
            case 3: case 4:
            {
                bool threw = throws([&] { auto node = p->remove(*x); vh::check(!node.empty() && node.key() == x, where + ": what was removed"); if (op == 4) nodes.push_back(std::move(node)); });
                vh::check(threw == (it == ref.end()), where + ": remove");
                if (it != ref.end()) ref.erase(it);
                break;
            }
            case 5: { auto q = std::make_unique<ContainerPool>(*p); p = std::move(q); break; }
            case 6: { auto q = std::make_unique<ContainerPool>(std::move(*p)); p = std::move(q); break; }
        }
        const ContainerPool& cp = *p;
        vh::check(p->size() == ref.size() && p->empty() == ref.empty() && static_cast<size_t>(std::distance(cp.begin(), cp.end())) == ref.size(), where + ": " + std::to_string(p->size()) + " containers");
        for (auto* y : d)
        {
            auto f = find(y);
            Container<>* got = p->find(*y);
            vh::check((got != nullptr) == (f != ref.end()) && cp.find(*y) == got, where + ": container of " + y->name());
            if (got) vh::check(&got->descriptor() == y && static_cast<int64_t>(got->size()) == f->n, where + ": contents of the container of " + y->name());
            // by name: one of the containers of that name
            Container<>* named = p->find(y->name());
            bool any = std::any_of(ref.begin(), ref.end(), [&](auto& r) { return r.d->name() == y->name(); });
            vh::check((named != nullptr) == any && cp.find(y->name()) == named, where + ": container called " + y->name() + (named ? " is found" : " is not found"));
            vh::check(throws([&] { (void)p->get(y->name()); }) == !any, where + ": getting the container called " + y->name());
            if (named)
            {
                bool mine = false;
                for (auto& [dd, k2] : cp) mine |= &k2 == named;
                vh::check(mine && named->descriptor().name() == y->name(), where + ": what is called " + y->name() + " is not in the pool");
            }
        }
        vh::check(p->find<VRec>() == p->find(VRec::_Descriptor()) && cp.find<VPair>() == p->find(VPair::_Descriptor()), where + ": find by class");
        size_t seen = 0, mem = 0;
        p->forEach([&](const Container<>& k2) { ++seen; mem += k2.totalMemoryUsage(); });
        vh::check(seen == ref.size() && mem == p->totalMemoryUsage(), where + ": forEach or memory");
        vh::transition();
        uint64_t h = 0; for (auto& r : ref) h = vh::mix(h, vh::mix(std::find(d.begin(), d.end(), r.d) - d.begin(), r.n));
        vh::state(h);
    }
    vh::outcome(ref.size());
}
VH_MAIN
