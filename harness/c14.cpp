// C14: who is let in.
#include "sim.h"
#include <dots/GuestTransceiver.h>
#include <dots/HostTransceiver.h>
#include <dots/io/auth/LegacyAuthManager.h>
#include <dots/io/auth/Digest.h>
#include <dots/tools/IpNetwork.h>
#include <PicoSHA2/picosha2.h>
#include <VPair.dots.h>
#include <VUncached.dots.h>
#include <DotsMember.dots.h>
#include <DotsMsgHello.dots.h>
#include <DotsMsgConnect.dots.h>
#include <DotsMsgConnectResponse.dots.h>
#include <DotsMsgError.dots.h>

using namespace dx;
using namespace dots;
using vh::Chooser;

namespace
{
    // ---- reference
    struct Addr { bool v6; std::array<uint8_t, 16> b; };
    struct AddrText { const char* text; Addr a; };
    Addr v4(uint8_t a, uint8_t b, uint8_t c, uint8_t d) { Addr r{ false, {} }; r.b = { a, b, c, d }; return r; }
    Addr v6(std::initializer_list<uint16_t> w) { Addr r{ true, {} }; int i = 0; for (auto x : w) { r.b[i++] = x >> 8; r.b[i++] = x & 255; } return r; }
    bool inNetwork(const Addr& a, const Addr& n, int prefix)
    {
        if (a.v6 != n.v6 || prefix > (a.v6 ? 128 : 32)) return false;
        for (int i = 0; i < prefix; ++i) if (((a.b[i / 8] ^ n.b[i / 8]) >> (7 - i % 8)) & 1) return false;
        return true;
    }
    std::string sha(const std::string& s) { std::string r(32, '\0'); picosha2::hash256_one_by_one h; h.process(s.begin(), s.end()); h.finish(); h.get_hash_bytes(r.begin(), r.end()); return r; }
    std::string hex(const std::string& s) { std::string r; for (unsigned char c : s) { r += "0123456789abcdef"[c >> 4]; r += "0123456789abcdef"[c & 15]; } return r; }
    std::string response(uint64_t nonce, const std::string& cnonce, const std::string& user, const std::string& secret)
    {
        std::string n(8, '\0');
        for (int i = 0; i < 8; ++i) n[i] = static_cast<char>(nonce >> (8 * i));
        return hex(sha(sha(user + "::" + secret) + ":" + n + ":" + cnonce));
    }

    struct Net { const char* text; int prefix; std::optional<Addr> a; };
    const std::vector<Net>& nets()
    {
        static const std::vector<Net> v{ { "0.0.0.0", 0, v4(0, 0, 0, 0) }, { "10.1.2.3", 32, v4(10, 1, 2, 3) }, { "10.1.2.0", 23, v4(10, 1, 2, 0) }, { "fd00::", 8, v6({ 0xfd00, 0, 0, 0, 0, 0, 0, 0 }) }, { "10.1.2.3", 33, std::nullopt }, { "junk", 8, std::nullopt } };
        return v;
    }
    struct Rule
    {
        int net, priority; std::string client; std::optional<std::string> secret; std::optional<bool> accept;
        std::string show() const { return std::string(nets()[net].text) + "/" + std::to_string(nets()[net].prefix) + (client.empty() ? "" : " for " + client) + " priority " + std::to_string(priority) + (secret ? " secret " + *secret : "") + (accept ? *accept ? " accept" : " deny" : ""); }
        bool sameKey(const Rule& o) const { return net == o.net && priority == o.priority && client == o.client; }
        DotsAuthentication make() const
        {
            DotsAuthentication a{ .nameSpace = "", .network = DotsNetwork{ .network = nets()[net].text, .prefix = static_cast<uint8_t>(nets()[net].prefix) }, .clientName = client, .priority = static_cast<uint16_t>(priority) };
            if (secret) a.secret = *secret;
            if (accept) a.accept = *accept;
            return a;
        }
    };
    struct Model
    {
        std::vector<Rule> rules; // in order of creation
        std::optional<bool> policy;
        std::vector<const Rule*> matching(const Addr& a, const std::string& client) const
        {
            std::vector<const Rule*> r;
            for (auto& x : rules) if ((x.client.empty() || x.client == client) && nets()[x.net].a && inNetwork(a, *nets()[x.net].a, nets()[x.net].prefix)) r.push_back(&x);
            std::stable_sort(r.begin(), r.end(), [](auto* p, auto* q) { return p->priority < q->priority; });
            return r;
        }
        bool challenges(const Addr& a) const
        {
            for (auto* r : matching(a, "")) if (r->accept == true) return r->secret.has_value();
            return false;
        }
        // knows: the secrets the response proves
        bool admits(const Addr& a, const std::string& client, const std::optional<std::string>& proves) const
        {
            for (auto* r : matching(a, client)) if (r->accept && (!r->secret || r->secret == proves)) return *r->accept;
            return policy.value_or(true);
        }
    };
    std::vector<Rule> alphabet(bool full)
    {
        std::vector<Rule> v;
        for (int net = 0; net < static_cast<int>(nets().size()); ++net)
            for (std::string client : { "", "alice" })
                for (int prio : { 5, 0 })
                    for (auto secret : { std::optional<std::string>{}, std::optional<std::string>{ "s1" }, std::optional<std::string>{ "s2" } })
                        for (auto accept : { std::optional<bool>{ true }, std::optional<bool>{ false }, std::optional<bool>{} })
                        {
                            if (!full && (net > 3 || (net == 2 && prio) || (secret == "s2" && accept == false))) continue;
                            if (!full && !accept && secret != "s1") continue;
                            v.push_back({ net, prio, client, secret, accept });
                        }
        return v;
    }
    const AddrText addresses[] = { { "10.1.2.3", v4(10, 1, 2, 3) }, { "10.1.3.255", v4(10, 1, 3, 255) }, { "10.1.4.0", v4(10, 1, 4, 0) }, { "fd00::1", v6({ 0xfd00, 0, 0, 0, 0, 0, 0, 1 }) }, { "fe00::1", v6({ 0xfe00, 0, 0, 0, 0, 0, 0, 1 }) }, { "::ffff:10.1.2.3", v4(10, 1, 2, 3) } };
    io::Endpoint endpoint(const std::string& address, const char* scheme = "tcp") { return io::Endpoint{ std::string(scheme) + "://" + (address.find(':') == std::string::npos ? address : "[" + address + "]") + ":1234" }; }

    // every verdict of the manager against the model
    void judge(io::LegacyAuthManager& m, const Model& model, const std::string& where, bool thoroughly = true, bool few = false)
    {
        constexpr uint64_t nonce = 0x8102030405060788ull;
        for (auto& ad : addresses)
        {
            if (few && ad.text != addresses[0].text && ad.text != addresses[2].text && ad.text != addresses[3].text) continue;
            auto ep = endpoint(ad.text);
            bool challenged = m.requiresAuthentication(ep, {}).has_value();
            vh::checkF(challenged == model.challenges(ad.a), [&] { return where + ": " + ad.text + (challenged ? " was challenged" : " was not challenged"); });
            vh::transition();
            for (std::string client : { "alice", "bob" })
            {
                struct R { const char* what; std::optional<std::string> proves; std::string text; };
                static std::map<std::string, std::string> known;
                if (known.empty()) for (std::string c : { "alice", "bob" }) for (std::string s : { "s1", "s2" }) known[c + s] = response(nonce, "c", c, s);
                std::vector<R> rs{ { "no response", std::nullopt, "" }, { "s1", "s1", known[client + "s1"] } };
                if (!few || client == "bob") rs.push_back({ "s2", "s2", known[client + "s2"] });
                if (thoroughly)
                {
                    rs.push_back({ "s1 for another nonce", std::nullopt, response(nonce + 1, "c", client, "s1") });
                    rs.push_back({ "s1 for a nonce with another first byte", std::nullopt, response(nonce ^ (1ull << 63), "c", client, "s1") });
                    rs.push_back({ "s1 for another client nonce", std::nullopt, response(nonce, "C", client, "s1") });
                    rs.push_back({ "s1 of another client", std::nullopt, response(nonce, "c", client + "x", "s1") });
                    rs.push_back({ "a prefix of s1", std::nullopt, response(nonce, "c", client, "s1").substr(0, 62) });
                    rs.push_back({ "zeros", std::nullopt, std::string(64, '0') });
                    auto last = response(nonce, "c", client, "s1"); last[63] = last[63] == '0' ? '1' : '0';
                    rs.push_back({ "s1 but for the last digit", std::nullopt, last });
                }
                for (auto& r : rs)
                {
                    bool want = model.admits(ad.a, client, r.proves);
                    bool got = m.verifyAuthentication(ep, client, nonce, std::string_view{ "c" }, io::Digest{ r.text });
                    vh::transition();
                    vh::checkF(got == want, [&] { return where + ": " + client + " at " + ad.text + " with " + r.what + (got ? " was let in" : " was refused"); });
                }
            }
        }
    }
    void publish(HostTransceiver& h, const Struct& s, bool remove = false) { if (remove) h.remove(s); else h.publish(s); }
    std::string showPolicy(std::optional<bool> p) { return p ? *p ? "default accept" : "default deny" : "no default"; }
}

// every set of rules and policy, every client
SCENARIO(verdicts)
{
    auto full = alphabet(true), some = alphabet(vh::thorough());
    Model m;
    std::string where;
    int n = ch.choose(3, "rules");
    for (int i = 0; i < n; ++i)
    {
        Rule r = ch.of(n == 1 ? full : some, "rule");
        for (auto& x : m.rules) if (x.sameKey(r)) throw vh::Prune{};
        m.rules.push_back(r);
        where += r.show() + "; ";
    }
    m.policy = std::vector<std::optional<bool>>{ std::nullopt, true, false }[ch.choose(3, "policy")];
    where += showPolicy(m.policy);
    ch.note(where);
    HostTransceiver host{ "host", sim::ioc() };
    io::LegacyAuthManager manager{ host };
    for (auto& r : m.rules) host.publish(r.make());
    if (m.policy) host.publish(DotsAuthenticationPolicy{ .nameSpace = "", .accept = *m.policy });
    judge(manager, m, where, n < 2);
    for (auto& p : { "uds", "local" })
    {
        io::Endpoint ep{ std::string(p) + ":///tmp/x" };
        bool uds = p == std::string("uds"), challenged = manager.requiresAuthentication(ep, {}).has_value(), in = manager.verifyAuthentication(ep, "alice", 1, std::string_view{ "c" }, io::Digest{ "" });
        vh::check(uds ? !challenged && in : challenged == (m.policy != true) && in == (m.policy == true), where + ": the verdict on " + p + " is wrong");
    }
    vh::state(vh::hashStr(where));
    uint64_t o = 0;
    for (auto& a : addresses) for (auto s : { std::optional<std::string>{}, std::optional<std::string>{ "s1" } }) o = o * 2 + m.admits(a.a, "alice", s);
    vh::outcome(o);
}

// rules that come, change and go, with a manager that appears at any point
SCENARIO(histories)
{
    HostTransceiver host{ "host", sim::ioc() };
    std::unique_ptr<io::LegacyAuthManager> manager;
    Model m;
    int depth = vh::bound(4, 5), appears = ch.choose(depth + 1, "manager at");
    std::string where;
    static const std::vector<Rule> keys{ { 0, 5, "", {}, {} }, { 1, 0, "alice", {}, {} }, { 2, 7, "", {}, {} } };
    static const std::vector<std::pair<std::optional<std::string>, std::optional<bool>>> values{ { {}, true }, { {}, false }, { "s1", true }, { "s2", {} } };
    for (int i = 0; i <= depth; ++i)
    {
        if (i == appears) { manager = std::make_unique<io::LegacyAuthManager>(host); where += " manager;"; }
        if (i == depth) break;
        int op = ch.choose(vh::bound(19, 20), "operation");
        if (op < 12)
        {
            Rule r = keys[op / 4];
            std::tie(r.secret, r.accept) = values[op % 4];
            host.publish(r.make());
            auto it = std::find_if(m.rules.begin(), m.rules.end(), [&](auto& x) { return x.sameKey(r); });
            if (it == m.rules.end()) m.rules.push_back(r);
            else { if (r.secret) it->secret = r.secret; if (r.accept) it->accept = r.accept; }
            where += " " + r.show() + ";";
        }
        else if (op < 15)
        {
            Rule r = keys[op - 12];
            host.remove(r.make());
            m.rules.erase(std::remove_if(m.rules.begin(), m.rules.end(), [&](auto& x) { return x.sameKey(r); }), m.rules.end());
            where += " without " + r.show() + ";";
        }
        else if (op < 17) { m.policy = op == 15; host.publish(DotsAuthenticationPolicy{ .nameSpace = "", .accept = *m.policy }); where += " " + showPolicy(m.policy) + ";"; }
        else if (op > 17)
        {
            // takes the secret, or the decision, away from a rule
            Rule r = keys[0];
            host.publish(r.make(), op == 18 ? DotsAuthentication::secret_p : DotsAuthentication::accept_p);
            auto it = std::find_if(m.rules.begin(), m.rules.end(), [&](auto& x) { return x.sameKey(r); });
            if (it == m.rules.end()) m.rules.push_back(r);
            else if (op == 18) it->secret.reset();
            else it->accept.reset();
            where += " " + r.show() + (op == 18 ? " without secret;" : " without decision;");
        }
        else { m.policy.reset(); host.remove(DotsAuthenticationPolicy{ .nameSpace = "" }); where += " no default;"; }
        vh::transition();
    }
    ch.note(where);
    vh::setNote(where);
    uint64_t h = m.policy ? 1 + *m.policy : 0;
    for (auto& r : m.rules) h = vh::mix(h, vh::hashStr(r.show()));
    vh::state(h);
    judge(*manager, m, where, false, true);
    vh::check(manager->rules().size() == m.rules.size(), where + ": " + std::to_string(manager->rules().size()) + " rules are left of " + std::to_string(m.rules.size()));
    vh::outcome(m.rules.size() * 3 + (m.policy ? 1 + *m.policy : 0));
}

namespace
{
    struct Peer
    {
        sim::link_t link = std::make_shared<sim::Link>();
        uint32_t id = 0;
        std::optional<uint64_t> nonce;
        bool challenged = false;
        int closed = 0;
    };
    struct Host
    {
        std::unique_ptr<HostTransceiver> host = nullptr;
        sim::SimListener* listener = nullptr;
        uint32_t last = 0;
        std::map<uint32_t, std::vector<int>> states;
        std::vector<std::string> events;
        std::vector<Subscription> subs;
        Host()
        {
            (void)VPair::_Descriptor(); (void)VUncached::_Descriptor();
            host = std::make_unique<HostTransceiver>("host", sim::ioc(), Registry::StaticTypePolicy::All, Transceiver::transition_handler_t{ [this](const Connection& c, std::exception_ptr) { last = c.peerId(); states[last].push_back(static_cast<int>(c.state())); } });
            host->setAuthManager<io::LegacyAuthManager>();
            listener = static_cast<sim::SimListener*>(&host->listen(std::make_unique<sim::SimListener>()));
            subs.push_back(host->subscribe<VPair>([this](const Event<VPair>& e) { events.push_back(*e().value); }));
        }
        ~Host() { subs.clear(); host.reset(); }
        void accept(Peer& p, const std::string& address)
        {
            listener->accept(io::make_channel<sim::SimChannel>(p.link, 0, std::string(endpoint(address).uriStr())));
            p.id = last;
            if (p.link->sent[1].size() != 1 || !p.link->sent[1][0].is("DotsMsgHello")) vh::check(false, "no greeting");
            p.challenged = p.link->sent[1][0].b(3) && p.link->sent[1][0].b(3)->i;
            p.nonce = p.link->sent[1][0].b(2)->u;
        }
        void drain(Peer& p) { while (p.link->end[0] && p.link->end[0]->armed() && !p.link->q[0].empty()) { vh::transition(); p.link->end[0]->deliver(); } }
    };
}

// what a refused peer can do: nothing
SCENARIO(handshake)
{
    Host h;
    Model m;
    std::string where;
    static const std::vector<std::vector<Rule>> sets{ {}, { { 0, 5, "", "s1", true } }, { { 1, 0, "", {}, false }, { 0, 5, "", {}, true } }, { { 2, 0, "alice", "s1", true }, { 0, 5, "", "s2", true } }, { { 0, 0, "", "s1", false } } };
    m.rules = sets[ch.choose(5, "rules")];
    m.policy = std::vector<std::optional<bool>>{ std::nullopt, true, false }[ch.choose(3, "policy")];
    for (auto& r : m.rules) { h.host->publish(r.make()); where += r.show() + "; "; }
    if (m.policy) h.host->publish(DotsAuthenticationPolicy{ .nameSpace = "", .accept = *m.policy });
    where += showPolicy(m.policy);
    auto& ad = addresses[ch.choose(2, "address")];
    std::string recorded; // what an eavesdropper saw
    std::string recordedCnonce;
    int peers = vh::bound(2, 3);
    for (int i = 0; i < peers; ++i)
    {
        auto p = std::make_unique<Peer>();
        h.accept(*p, ad.text);
        vh::check(p->challenged == m.challenges(ad.a), where + ": challenged wrongly");
        vh::check(p->challenged || *p->nonce == 0, where + ": a nonce without a challenge");
        std::string client = ch.flag("name") ? "bob" : "alice", cnonce = "cn" + std::to_string(i);
        int how = ch.choose(i == 0 ? 6 : 7, "response");
        std::optional<std::string> proves;
        DotsMsgConnect c{ .clientName = client, .preloadCache = true };
        uint64_t nonce = *p->nonce;
        if (how == 1) { proves = "s1"; c.authChallengeResponse = response(nonce, cnonce, client, "s1"); c.cnonce = cnonce; recorded = *c.authChallengeResponse; recordedCnonce = cnonce; }
        if (how == 2) { proves = "s2"; c.authChallengeResponse = response(nonce, cnonce, client, "s2"); c.cnonce = cnonce; }
        if (how == 3) { c.authChallengeResponse = response(nonce, cnonce, client, "s1"); c.cnonce = cnonce + "x"; }
        if (how == 4) { c.authChallengeResponse = response(nonce, "", client, "s1"); proves = "s1"; }
        if (how == 5) { c.authChallengeResponse = std::string(64, 'f'); c.cnonce = cnonce; }
        if (how == 6)
        {
            if (recorded.empty()) throw vh::Prune{};
            c.authChallengeResponse = recorded; c.cnonce = recordedCnonce;
            if (nonce == 0) throw vh::Prune{}; // nothing to replay without a challenge
        }
        static const char* hows[] = { "no response", "s1", "s2", "s1 with another client nonce", "s1 without client nonce", "nonsense", "a replayed response" };
        where += "; " + client + " at " + ad.text + " with " + hows[how];
        bool admitted = m.admits(ad.a, client, proves);
        // and goes on as if all was well, or started early
        int early = ch.choose(2, "early");
        auto doThings = [&] {
            p->link->push(1, sim::encode(DotsMember{ .groupName = "VUncached", .event = DotsMemberEvent::join }));
            p->link->push(1, sim::encode(VPair{ .id = 100 + i, .value = "x" }));
        };
        if (early) { doThings(); admitted = false; where += ", early"; }
        p->link->push(1, sim::encode(c));
        doThings();
        p->link->push(1, sim::encode(DotsMsgConnect{ .preloadClientFinished = true }));
        p->link->push(1, sim::encode(c)); // once more
        size_t events = h.events.size();
        ch.note(where);
        vh::setNote(where);
        h.drain(*p);
        auto& st = h.states[p->id];
        bool was = std::count(st.begin(), st.end(), static_cast<int>(DotsConnectionState::early_subscribe)) > 0;
        vh::check(was == admitted, where + (was ? " was let in" : " was refused"));
        vh::check(st.back() == static_cast<int>(DotsConnectionState::closed) && std::count(st.begin(), st.end(), st.back()) == 1, where + ": it was not ended");
        int accepted = 0, refused = 0;
        for (auto& x : p->link->sent[1]) if (x.is("DotsMsgConnectResponse") && x.b(2)) ++(x.b(2)->i ? accepted : refused);
        vh::check(accepted == (admitted ? 1 : 0) && refused == (admitted || early ? 0 : 1), where + ": it was told " + std::to_string(accepted) + " times it was accepted and " + std::to_string(refused) + " times it was not");
        vh::check(h.events.size() == events + (admitted ? 1 : 0), where + ": what it published was " + (admitted ? "lost" : "taken"));
        h.host->publish(VUncached{ .id = 1 });
        if (!admitted) for (auto& x : p->link->sent[1]) vh::check(!x.is("VUncached") && !x.is("VPair"), where + ": it was sent instances");
        vh::state(vh::hashStr(where));
        vh::outcome(vh::mix(admitted, p->challenged));
    }
}

// a real guest with or without the secret
SCENARIO(guests)
{
    Host h;
    Model m;
    static const std::vector<std::vector<Rule>> sets{ {}, { { 0, 5, "", "s1", true } }, { { 2, 5, "", "s2", true } }, { { 1, 0, "", {}, true }, { 0, 5, "", "s1", true } } };
    m.rules = sets[ch.choose(4, "rules")];
    m.policy = std::vector<std::optional<bool>>{ std::nullopt, true, false }[ch.choose(3, "policy")];
    std::string where;
    for (auto& r : m.rules) { h.host->publish(r.make()); where += r.show() + "; "; }
    if (m.policy) h.host->publish(DotsAuthenticationPolicy{ .nameSpace = "", .accept = *m.policy });
    where += showPolicy(m.policy);
    auto ad = ch.of(std::vector<AddrText>{ addresses[0], addresses[1], addresses[2], addresses[3] });
    std::string name = ch.of(std::vector<std::string>{ "alice", "", "an\xc3\xa4me with spaces : and ::colons" }, "name");
    auto secret = ch.of(std::vector<std::optional<std::string>>{ std::nullopt, "s1", "s2", "" }, "secret");
    where += "; " + name + " at " + ad.text + (secret ? " knows " + *secret : "");
    ch.note(where);
    auto link = std::make_shared<sim::Link>();
    std::vector<int> states;
    GuestTransceiver g{ name, sim::ioc(), Registry::StaticTypePolicy::All, Transceiver::transition_handler_t{ [&](const Connection& c, std::exception_ptr) { states.push_back(static_cast<int>(c.state())); } } };
    g.open({}, {}, secret, io::make_channel<sim::SimChannel>(link, 1));
    h.listener->accept(io::make_channel<sim::SimChannel>(link, 0, std::string(endpoint(ad.text).uriStr())));
    bool challenged = link->sent[1][0].b(3) && link->sent[1][0].b(3)->i;
    for (bool more = true; more;)
    {
        more = false;
        for (int s : { 0, 1 }) if (link->end[s] && link->end[s]->armed() && !link->q[s].empty()) { vh::transition(); link->end[s]->deliver(); more = true; }
    }
    bool want = challenged && !secret ? false : m.admits(ad.a, name, challenged ? secret : std::nullopt);
    vh::check(g.connected() == want, where + (want ? " was refused" : " was let in"));
    vh::check(std::count(states.begin(), states.end(), static_cast<int>(DotsConnectionState::closed)) == (want ? 0 : 1), where + ": the end was not reported once");
    if (want) { g.publish(VPair{ .id = 1, .value = "y" }); while (link->end[0] && !link->q[0].empty()) link->end[0]->deliver(); vh::check(h.events.size() == 1, where + ": nothing got through"); }
    vh::state(vh::hashStr(where));
    vh::outcome(vh::mix(want, challenged));
}

// a response is what was computed, whatever else was sent is harmless
SCENARIO(responses)
{
    int kind = ch.choose(4, "kind");
    if (kind == 0)
    {
        int len = ch.choose(200, "length"), what = ch.choose(5, "digit");
        std::string s(len, "0fFg\xff"[what]);
        std::string where = "a response of " + std::to_string(len) + " times '" + (what < 4 ? s.substr(0, 1) : "\\xff") + "'";
        vh::setNote(where);
        bool ok = true;
        io::Digest::value_t v{};
        try { v = io::Digest{ s }.value(); } catch (const std::exception&) { ok = false; }
        if (len == 64 && what < 3) { vh::check(ok, where + " was refused"); for (auto b : v) vh::check(b == (what ? 0xff : 0), where + " was misread"); }
        if (len > 64 || (what > 2 && len > 0) || len % 2) vh::check(!ok, where + " was accepted");
        // and through the door
        Host h;
        h.host->publish(Rule{ 0, 5, "", "s1", true }.make());
        h.host->publish(DotsAuthenticationPolicy{ .nameSpace = "", .accept = false });
        Peer p;
        h.accept(p, "10.0.0.1");
        p.link->push(1, sim::encode(DotsMsgConnect{ .clientName = "x", .preloadCache = true, .authChallengeResponse = s, .cnonce = "c" }));
        h.drain(p);
        vh::check(h.states[p.id].back() == static_cast<int>(DotsConnectionState::closed) && p.link->end[0] == nullptr, where + " was let in");
        vh::state(vh::hashStr(where));
    }
    else if (kind == 1)
    {
        static const std::vector<uint64_t> ns{ 0, 1, 0xff, 0x100, 0x0123456789abcdefull, 0x8000000000000000ull, UINT64_MAX };
        static const std::vector<std::string> ss{ "", "a", ":", "::", std::string("\0x", 2), std::string(55, 'q'), std::string(56, 'q'), std::string(64, 'q'), std::string(200, 'q'), "\xc3\xa4" };
        auto n = ch.of(ns, "nonce");
        auto c = ch.of(ss, "client nonce"), u = ch.of(ss, "user"), s = ch.of(ss, "secret");
        std::string got = io::Digest{ io::Nonce{ n }, c, u, s }.toString();
        vh::check(got == response(n, c, u, s), "the digest of " + std::to_string(n) + ", " + c + ", " + u + ", " + s + " is wrong");
        vh::check(io::Digest{ got }.value() == io::Digest{ io::Nonce{ n }, c, u, s }.value(), "the digest " + got + " was misread");
        vh::check(io::Digest{ io::Nonce{ n }, io::Nonce{ n }, u, s }.toString() == response(n, io::Nonce{ n }.toString(), u, s), "the digest of a client nonce is wrong");
        vh::check(io::Nonce{ io::Nonce{ n }.toString() }.value() == n && io::Nonce{ n }.toString().size() == 16, "the nonce " + std::to_string(n) + " was misread");
        vh::state(vh::hashStr(got));
    }
    else if (kind == 2)
    {
        std::set<uint64_t> seen;
        for (int i = 0; i < 1000; ++i) vh::check(seen.insert(io::Nonce{}.value()).second, "a nonce came twice");
    }
    else
    {
        // networks against bitwise comparison
        static const std::vector<std::pair<const char*, Addr>> as{ { "0.0.0.0", v4(0, 0, 0, 0) }, { "128.0.0.0", v4(128, 0, 0, 0) }, { "10.1.2.3", v4(10, 1, 2, 3) }, { "10.1.2.2", v4(10, 1, 2, 2) }, { "255.255.255.255", v4(255, 255, 255, 255) },
            { "::", v6({ 0, 0, 0, 0, 0, 0, 0, 0 }) }, { "::1", v6({ 0, 0, 0, 0, 0, 0, 0, 1 }) }, { "fd00::8000:0", v6({ 0xfd00, 0, 0, 0, 0, 0, 0x8000, 0 }) }, { "8000::", v6({ 0x8000, 0, 0, 0, 0, 0, 0, 0 }) } };
        auto& [ta, a] = ch.of(as, "address");
        auto& [tb, b] = ch.of(as, "network");
        for (int pa = 0; pa <= (a.v6 ? 128 : 32); ++pa) for (int pb = 0; pb <= (b.v6 ? 128 : 32); ++pb)
        {
            if (a.v6 && pa > 3 && pa < 126 && pa % 31) continue;
            if (pa == pb && pa < (a.v6 ? 128 : 32)) continue; // whether networks of the same length but other host bits are the same is left open
            tools::IpNetwork x{ ta, static_cast<unsigned short>(pa) }, y{ tb, static_cast<unsigned short>(pb) };
            bool want = pa >= pb && inNetwork(a, b, pb);
            auto where = [&, ta = ta, tb = tb] { return std::string(ta) + "/" + std::to_string(pa) + " in " + tb + "/" + std::to_string(pb); };
            vh::checkF(x.isSubnetOf(y) == want, where);
            vh::checkF(tools::IpNetwork{ std::string(ta) + "/" + std::to_string(pa) }.isSubnetOf(y) == want, where);
            vh::checkF(x.isIpv6() == a.v6 && x.isIpv4() == !a.v6, where);
            vh::transition();
        }
        vh::state(vh::hashStr(std::string(ta) + tb));
    }
    vh::outcome(kind);
}

VH_MAIN
