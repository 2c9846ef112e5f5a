// C17: texts of addresses, durations, points in time and identifiers denote what they say.
#include "vh.h"
#include <cmath>
#include <dots/io/Endpoint.h>
#include <dots/type/Chrono.h>
#include <dots/type/Uuid.h>
#include <dots/asio.h>
#include <boost/asio/ip/tcp.hpp>

using dots::tools::Uri;
using dots::io::Endpoint;
using namespace dots::type;

namespace
{
    using S = std::string;

    // the reference: an address is its parts
    struct Parts
    {
        S scheme, user, password, host, port, path;
        bool authority() const { return !user.empty() || !host.empty() || !port.empty(); }
        S authorityText() const
        {
            S s;
            if (!user.empty()) s += user + (password.empty() ? "" : ":" + password) + "@";
            s += host.find(':') == S::npos ? host : "[" + host + "]";
            if (!port.empty()) s += ":" + port;
            return s;
        }
        S text(bool slashes) const { return scheme + (slashes || authority() ? "://" : ":") + authorityText() + path; }
        bool operator==(const Parts&) const = default;
    };

    S str(const Parts& p) { return "'" + p.scheme + "' '" + p.user + "' '" + p.password + "' '" + p.host + "' '" + p.port + "' '" + p.path + "'"; }

    const std::vector<S> users{ "", "u", "user" }, passwords{ "", "p", "p:q" }, hosts{ "h", "1.2.3.4", "::1", "fe80::a:1" }, ports{ "", "1", "65535" }, paths{ "", "/", "/a/b", "/a:1@c", "/x://y", "/[z]" };

    void inside(const Uri& u, std::string_view v, const S& where)
    {
        std::string_view t = u.uriStr();
        vh::checkF(v.empty() || (std::less_equal<>{}(t.data(), v.data()) && std::less_equal<>{}(v.data() + v.size(), t.data() + t.size())), [&] { return where + ": a part that does not belong to the address"; });
        volatile char c = 0;
        for (char x : v) c = x; // must be readable
        (void)c;
    }

    void parts(const Uri& u, const S& where)
    {
        for (auto v : { u.scheme(), u.authority(), u.userName(), u.userPassword(), u.host(), u.port(), u.path() }) inside(u, v, where);
    }

    void compare(const Uri& u, const Parts& p, const S& where)
    {
        parts(u, where);
        Parts r{ S{ u.scheme() }, S{ u.userName() }, S{ u.userPassword() }, S{ u.host() }, S{ u.port() }, S{ u.path() } };
        vh::checkF(r == p, [&] { return where + ": is " + str(r) + " of '" + S{ u.uriStr() } + "' and should be " + str(p); });
        vh::checkF(u.uriStr() == p.text(false) || u.uriStr() == p.text(true), [&] { return where + ": the text is '" + S{ u.uriStr() } + "' and should be '" + p.text(false) + "'"; });
        vh::checkF(u.authority() == p.authorityText(), [&] { return where + ": the authority is '" + S{ u.authority() } + "' and should be '" + p.authorityText() + "'"; });
    }

    Parts choose(vh::Chooser& ch, bool few)
    {
        Parts p;
        p.scheme = ch.of(std::vector<S>{ "tcp", "uds-v1", "x" }, "scheme");
        if (few && p.scheme == "x") throw vh::Prune{};
        if (ch.flag("authority"))
        {
            p.host = ch.of(hosts, "host");
            p.user = ch.of(users, "user");
            if (!p.user.empty()) p.password = ch.of(passwords, "password");
            p.port = ch.of(ports, "port");
        }
        p.path = ch.of(paths, "path");
        if (few && (p.user == "user" || p.port == "65535" || p.host == "1.2.3.4" || p.path == "/" || p.path == "/[z]" || p.path == "/a:1@c")) throw vh::Prune{};
        return p;
    }
}

// every address from its parts, by every constructor, copied, moved and assigned
SCENARIO(addresses)
{
    Parts p = choose(ch, false);
    bool slashes = !p.authority() && ch.flag("slashes");
    S text = p.text(slashes);
    vh::state(vh::hashStr(text));
    vh::outcome(vh::hashStr(str(p)));
    Uri u{ text };
    vh::check(u.uriStr() == text, "the text of '" + text + "' is changed");
    compare(u, p, "'" + text + "'");
    Endpoint e{ text };
    compare(e, p, "'" + text + "' as endpoint");
    Uri copy{ u };
    compare(copy, p, "a copy of '" + text + "'");
    Uri moved{ std::move(copy) };
    compare(moved, p, "'" + text + "' moved");
    for (const S& other : { S{ "tcp://u:p@[::2]:7/a/long/path/that/needs/memory" }, S{ "a:/b" }, S{ "a:" }, S{ "ws://h" } })
    {
        Uri a{ other };
        a = u;
        compare(a, p, "'" + text + "' assigned to '" + other + "'");
        Uri b{ other };
        b = Uri{ text };
        compare(b, p, "'" + text + "' moved to '" + other + "'");
        Uri c{ text };
        c = Uri{ other };
        c = c;
        parts(c, "'" + other + "' assigned to '" + text + "'");
        vh::check(c.uriStr() == other, "'" + other + "' is not '" + text + "' after assignment");
        c = u;
        compare(c, p, "'" + text + "' assigned back");
        vh::transition(4);
    }
    compare(u, p, "'" + text + "' afterwards");
    if (p.user.empty() && p.path.empty() && !p.port.empty() && p.authority())
    {
        compare(Uri(p.scheme, p.host, p.port), p, "'" + p.host + "' and '" + p.port + "'");
        compare(Uri(p.scheme, p.host, static_cast<uint16_t>(std::stoi(p.port))), p, "'" + p.host + "' and number '" + p.port + "'");
        boost::system::error_code ec;
        auto address = boost::asio::ip::make_address(p.host, ec);
        if (!ec)
        {
            boost::asio::ip::tcp::endpoint ep{ address, static_cast<uint16_t>(std::stoi(p.port)) };
            Parts q = p;
            q.scheme = "tcp";
            compare(Endpoint{ ep }, q, "the network address '" + p.host + "' and '" + p.port + "'");
            compare(Endpoint{ p.scheme, ep }, p, "the network address '" + p.host + "' and '" + p.port + "' with a scheme");
        }
    }
    if (!p.authority()) compare(Uri(p.scheme, p.path), p, "'" + p.scheme + "' and '" + p.path + "'");
}

// every sequence of changes
SCENARIO(changes)
{
    Parts p = choose(ch, true);
    int n = vh::bound(2, 3);
    S text = p.text(false), where = "'" + text + "'";
    Uri u{ text };
    for (int i = 0; i < n; ++i)
    {
        Parts before = p;
        bool refused = false;
        std::function<void()> f;
        switch (ch.choose(8, "change"))
        {
            case 0: { S v = ch.of(std::vector<S>{ "", "y", "longer" }, "scheme"); where += " scheme '" + v + "'"; refused = v.empty(); p.scheme = v; f = [&u, v] { u.setScheme(v); }; break; }
            case 1:
            {
                Parts q{ .scheme = p.scheme, .path = p.path };
                q.host = ch.of(std::vector<S>{ "", "g", "::2" }, "host");
                if (!q.host.empty()) { q.user = ch.of(std::vector<S>{ "", "w" }, "user"); if (!q.user.empty() && ch.flag("password")) q.password = "s"; if (ch.flag("port")) q.port = "9"; }
                p = q;
                S v = q.authorityText();
                where += " authority '" + v + "'"; f = [&u, v] { u.setAuthority(v); };
                break;
            }
            case 2: { S v = ch.of(std::vector<S>{ "", "w" }, "user"); where += " user '" + v + "'"; refused = p.host.empty(); p.user = v; if (v.empty()) p.password.clear(); f = [&u, v] { u.setUserName(v); }; break; }
            case 3: { S v = ch.of(std::vector<S>{ "", "s", "s:t" }, "password"); where += " password '" + v + "'"; refused = p.user.empty(); p.password = v; f = [&u, v] { u.setUserPassword(v); }; break; }
            case 4: { S v = ch.of(std::vector<S>{ "g", "::2" }, "host"); where += " host '" + v + "'"; p.host = v; f = [&u, v] { u.setHost(v); }; break; }
            case 5: { S v = ch.of(std::vector<S>{ "", "9" }, "port"); where += " port '" + v + "'"; refused = p.host.empty(); p.port = v; f = [&u, v] { u.setPort(v); }; break; }
            case 6: { S v = ch.of(std::vector<S>{ "", "/", "/n/m", "rel" }, "path"); where += " path '" + v + "'"; refused = v == "rel"; p.path = v; f = [&u, v] { u.setPath(v); }; break; }
            case 7:
            {
                if (i + 1 == n && n > 1) throw vh::Prune{};
                where += " assigned"; Uri c{ "uds:/z" }; c = u; u = std::move(c); f = [] {};
                break;
            }
        }
        vh::transition();
        bool threw = false;
        try { f(); } catch (const std::exception&) { threw = true; }
        vh::checkF(threw == refused, [&] { return where + (threw ? ": refused" : ": not refused") + ", the text is '" + S{ u.uriStr() } + "'"; });
        if (refused) p = before;
        vh::state(vh::hashStr(str(p)));
        compare(u, p, where);
    }
    vh::outcome(vh::hashStr(str(p)));
}

// every text, sensible or not
SCENARIO(texts)
{
    static const std::string alphabet{ ":/@[]a" };
    int n = ch.choose(vh::bound(7, 8), "length");
    S text;
    for (int i = 0; i < n; ++i) text += alphabet[ch.choose(6, "letter")];
    S where = "'" + text + "'";
    vh::state(vh::hashStr(text));
    std::optional<Uri> u;
    try { u.emplace(text); } catch (const std::exception&) { vh::outcome(0); return; }
    vh::check(u->uriStr() == text, where + " is changed");
    parts(*u, where);
    vh::outcome(vh::hashStr(S{ u->scheme() } + " " + S{ u->userName() } + " " + S{ u->userPassword() } + " " + S{ u->host() } + " " + S{ u->port() } + " " + S{ u->path() }));
    // what may be taken for granted of any text
    if (size_t colon = text.find(':'); colon != S::npos && colon > 0 && text.find_first_of("/@[]") > colon) vh::check(u->scheme() == text.substr(0, colon), where + ": the scheme is '" + S{ u->scheme() } + "'");
    for (int i = 0; i < 7; ++i)
    {
        Uri v{ *u };
        S before{ v.uriStr() };
        bool threw = false;
        static const S bad{ "[::1" };
        try
        {
            switch (i)
            {
                case 0: v.setScheme("y"); break;
                case 1: v.setAuthority(bad); break;
                case 2: v.setUserName("w"); break;
                case 3: v.setUserPassword("s"); break;
                case 4: v.setHost("g"); break;
                case 5: v.setPort("9"); break;
                case 6: v.setPath("/n"); break;
            }
        }
        catch (const std::exception&) { threw = true; }
        parts(v, where + " changed");
        if (threw) vh::checkF(v.uriStr() == before, [&] { return where + ": a refused change had an effect: '" + S{ v.uriStr() } + "'"; });
        vh::transition();
    }
}

// every list of addresses
SCENARIO(lists)
{
    int n = ch.choose(vh::bound(4, 5), "number");
    S text;
    std::vector<S> want;
    auto gap = [&](bool may) { int k = ch.choose(may ? 3 : 2, "gap") + (may ? 0 : 1); text += S(static_cast<size_t>(k), ' '); };
    gap(true);
    for (int i = 0; i < n; ++i)
    {
        if (i) gap(false);
        want.push_back(ch.of(std::vector<S>{ "tcp://h", "uds:/a/b", "ws://u:p@[::1]:7/x" }, "address"));
        text += want.back();
    }
    if (n) gap(true);
    auto uris = Uri::FromStrings(text);
    auto endpoints = Endpoint::FromStrings(text);
    vh::state(vh::hashStr(text));
    vh::outcome(static_cast<uint64_t>(n));
    vh::check(uris.size() == want.size() && endpoints.size() == want.size(), "'" + text + "' is a list of " + std::to_string(uris.size()));
    for (size_t i = 0; i < want.size(); ++i)
    {
        parts(uris[i], text); parts(endpoints[i], text);
        vh::check(uris[i].uriStr() == want[i] && endpoints[i].uriStr() == want[i], "'" + text + "': one is '" + S{ uris[i].uriStr() } + "'");
        vh::check(S{ uris[i].scheme() } == want[i].substr(0, want[i].find(':')), "'" + text + "': the scheme of one is '" + S{ uris[i].scheme() } + "'");
    }
}

namespace
{
    // the reference writes what a duration is from its units
    S fraction(int64_t nanos)
    {
        char b[32];
        std::snprintf(b, sizeof b, "%lld.%09lld", static_cast<long long>(nanos / 1000000000), static_cast<long long>(nanos % 1000000000));
        S s = b;
        while (s.back() == '0') s.pop_back();
        if (s.back() == '.') s.pop_back();
        return s;
    }

    bool close(double a, double b, double eps) { return std::fabs(a - b) <= eps; }
}

// every duration is written so that it can be read, as what it is
SCENARIO(durations)
{
    static const std::vector<int64_t> days{ 0, 1, 2, 42, 400 }, hours{ 0, 1, 23 }, minutes{ 0, 1, 59 }, nanos{ 0, 1000, 1000000, 999000, 10000, 100000, 123456000, 123456789, 500000000, 1000000000, 1000001000, 59123457000, 59999000000, 59999999000, 30000000000 };
    int64_t d = ch.of(days, "days"), h = ch.of(hours, "hours"), m = ch.of(minutes, "minutes"), n = ch.of(nanos, "nanoseconds");
    bool negative = ch.flag("negative");
    double seconds = static_cast<double>(d * 86400 + h * 3600 + m * 60) + static_cast<double>(n) / 1e9;
    if (negative) seconds = -seconds;
    Duration x{ seconds };
    S text = x.toString();
    vh::state(vh::hashStr(text));
    vh::outcome((d > 0) * 8u + (h > 0) * 4u + (m > 0) * 2u + (n > 0));
    S what = "a duration of " + std::to_string(seconds) + " s, '" + text + "'";
    Duration back{ 0. };
    try { back = Duration::FromString(text); } catch (const std::exception& e) { vh::fail("", what + " cannot be read: " + e.what()); }
    vh::checkF(close(back.count(), seconds, 2e-9 + std::fabs(seconds) * 5e-15), [&] { return what + " is read as " + std::to_string(back.count()); });
    SteadyTimePoint t{ SteadyTimePoint::base_t{ x } };
    vh::check(t.toString() == text, what + " as a point in time is '" + t.toString() + "'");
    vh::check(close(SteadyTimePoint::FromString(t.toString()).duration().count(), seconds, 2e-9 + std::fabs(seconds) * 5e-15), what + " as a point in time is not read");
    // digits in the usual place
    if (!negative && seconds > 0 && d < 400)
    {
        S want = "P" + (d ? std::to_string(d) + "D" : S{});
        if (h || m || n) want += "T" + (h ? std::to_string(h) + "H" : S{}) + (m ? std::to_string(m) + "M" : S{});
        vh::check(text.compare(0, want.size(), want) == 0 || (n && n % 1000000000 > 999990000), what + " should begin with '" + want + "'");
    }
}

// every composition of units is read as their sum, everything else is refused
SCENARIO(durationTexts)
{
    struct Unit { char c; double s; bool time; };
    static const Unit units[]{ { 'Y', 31556952, false }, { 'M', 2629746, false }, { 'W', 604800, false }, { 'D', 86400, false }, { 'H', 3600, true }, { 'M', 60, true }, { 'S', 1, true } };
    static const std::vector<S> numbers{ "", "0", "1", "12", "1.5", "0.25", ".", "1.2.3" };
    S text = "P";
    double want = 0;
    bool good = true, timeDesignator = false, any = false;
    int designator = ch.choose(3, "T"); // where needed, always, left out
    int used = 0;
    for (auto& u : units)
    {
        if (u.time && !timeDesignator && designator == 1) { text += "T"; timeDesignator = true; }
        const S& s = numbers[ch.choose(vh::thorough() || used < 2 ? static_cast<int>(numbers.size()) : 1, "number")];
        if (s.empty()) continue;
        if (++used > vh::bound(3, 4)) throw vh::Prune{};
        any = true;
        if (u.time && !timeDesignator) { if (designator == 0) text += "T"; else good = false; timeDesignator = true; }
        text += s;
        text += u.c;
        if (s == "." || s == "1.2.3") good = false; else want += std::stod(s) * u.s;
    }
    if (designator == 2 && good) throw vh::Prune{}; // the same as the first
    if (!any) throw vh::Prune{};
    // without T a minute is a month: what it then means is not asked
    if (designator == 2) for (char c : { 'M' }) if (text.find(c) != S::npos) throw vh::Prune{};
    vh::state(vh::hashStr(text));
    bool refused = false;
    Duration d{ 0. };
    try { d = Duration::FromString(text); } catch (const std::exception&) { refused = true; }
    vh::outcome(refused);
    vh::check(refused == !good, "'" + text + "' is " + (refused ? "refused" : "read as " + std::to_string(d.count())));
    if (good) vh::check(close(d.count(), want, 2e-9 + want * 1e-14), "'" + text + "' is read as " + std::to_string(d.count()) + " instead of " + std::to_string(want));
    for (const S& garbage : { text + "x", "x" + text, text + " ", text.substr(1), "P" + text, text + "T" })
    {
        if (garbage.empty() || (garbage == text + "T" && !timeDesignator)) continue;
        bool ok = false;
        try { Duration::FromString(garbage); ok = true; } catch (const std::exception&) {}
        vh::check(!ok, "'" + garbage + "' is accepted");
    }
}

namespace
{
    // days since the epoch from the calendar, independently of the library
    int64_t daysOf(int y, int m, int d)
    {
        static const int len[]{ 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
        auto leap = [](int x) { return (x % 4 == 0 && x % 100 != 0) || x % 400 == 0; };
        int64_t n = 0;
        for (int i = 1970; i < y; ++i) n += leap(i) ? 366 : 365;
        for (int i = y; i < 1970; ++i) n -= leap(i) ? 366 : 365;
        for (int i = 1; i < m; ++i) n += len[i - 1] + (i == 2 && leap(y));
        return n + d - 1;
    }
}

// every point in time, written and read in every zone
SCENARIO(times)
{
    static const std::vector<std::array<int, 3>> dates{ { 1970, 1, 1 }, { 2020, 2, 29 }, { 2019, 12, 31 }, { 2021, 3, 28 }, { 2038, 1, 19 }, { 1969, 12, 31 }, { 2100, 3, 1 } };
    static const std::vector<const char*> zones{ "UTC", "Europe/Berlin", "Asia/Kolkata", "America/St_Johns", "Pacific/Auckland", "America/Los_Angeles" };
    auto [y, mo, d] = ch.of(dates, "date");
    int second = ch.of(std::vector<int>{ 0, 1, 3599, 43200, 86399 }, "second");
    const char* zone = ch.of(zones, "zone");
    bool override_ = ch.flag("by override"), utc = ch.flag("utc");
    if (override_) chrono::experimental::set_time_zone_override(zone); else chrono::experimental::clear_time_zone_override();
    int step = vh::bound(7, 1);
    for (int ms = 0; ms < 1000; ms += step)
    {
        int64_t total = (daysOf(y, mo, d) * 86400 + second) * 1000 + ms;
        TimePoint t{ Duration{ static_cast<double>(total) / 1000. } };
        S text = t.toString(TimePoint::ISO8601DateTime, utc);
        vh::transition();
        TimePoint back;
        try { back = TimePoint::FromString(text); } catch (const std::exception& e) { vh::fail("", "'" + text + "' cannot be read: " + e.what()); }
        vh::checkF(std::llround(back.duration().count() * 1000) == total, [&] { return "the point in time " + std::to_string(total) + " ms, '" + text + "', is read as " + std::to_string(std::llround(back.duration().count() * 1000)); });
        // by the second, by hand
        if (utc)
        {
            char b[64];
            std::snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02d.%03d+00:00", y, mo, d, second / 3600, second / 60 % 60, second % 60, ms);
            vh::checkF(text == b, [&] { return "'" + S{ b } + "' is written as '" + text + "'"; });
            S z{ b };
            z.replace(23, 6, "Z");
            vh::checkF(std::llround(TimePoint::FromString(z).duration().count() * 1000) == total, [&] { return "'" + z + "' is not read as what it says"; });
            // the same instant in other zones
            if (ms % 70 == 0)
            for (int offset : { 60, -210, 330, 765, -720 })
            {
                int64_t local = daysOf(y, mo, d) * 86400 + second + offset * 60, ld = local / 86400 - (local % 86400 < 0);
                int ls = static_cast<int>(local - ld * 86400), ly = y, lm = mo, ldd = d;
                for (int dy = -1; dy <= 1; ++dy) for (int mm = 1; mm <= 12; ++mm) for (int dd = 1; dd <= 31; ++dd)
                    if (daysOf(y + dy, mm, 1) <= ld && ld < daysOf(y + dy + (mm == 12), mm % 12 + 1, 1) && daysOf(y + dy, mm, dd) == ld) { ly = y + dy; lm = mm; ldd = dd; }
                std::snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02d.%03d%c%02d:%02d", ly, lm, ldd, ls / 3600, ls / 60 % 60, ls % 60, ms, offset < 0 ? '-' : '+', std::abs(offset) / 60, std::abs(offset) % 60);
                vh::checkF(std::llround(TimePoint::FromString(b).duration().count() * 1000) == total, [&] { return S{ "'" } + b + "' is not read as what it says"; });
            }
        }
        S number = t.toString({});
        vh::checkF(std::llround(TimePoint::FromString(number, {}).duration().count() * 1000) == total, [&] { return "'" + number + "' is not read as what it says"; });
        vh::state(vh::hashStr(text));
    }
    vh::outcome(vh::hashStr(zone));
    chrono::experimental::clear_time_zone_override();
}

// every identifier by its digits
SCENARIO(identifiers)
{
    Uuid::value_t data{};
    int kind = ch.choose(5, "pattern");
    for (size_t i = 0; i < 16; ++i) data[i] = static_cast<uint8_t>(kind == 0 ? 0 : kind == 1 ? 0xff : kind == 2 ? i : kind == 3 ? 0x10 * i + 0xf : 0);
    if (kind == 4) data[ch.choose(16, "position")] = ch.of(std::vector<uint8_t>{ 1, 0x0a, 0xa0, 0x80, 0x7f }, "byte");
    Uuid u{ data };
    S want;
    for (size_t i = 0; i < 16; ++i)
    {
        char b[4];
        std::snprintf(b, sizeof b, "%02x", data[i]);
        if (i == 4 || i == 6 || i == 8 || i == 10) want += '-';
        want += b;
    }
    vh::state(vh::hashStr(want));
    vh::check(u.toString() == want, "'" + want + "' is written as '" + u.toString() + "'");
    vh::check(Uuid::FromString(want) == u && !(Uuid::FromString(want) != u), "'" + want + "' is not read as what it says");
    S upper = want;
    for (char& c : upper) c = static_cast<char>(std::toupper(c));
    vh::check(Uuid::FromString(upper) == u, "'" + upper + "' is not read as what it says");
    vh::check(Uuid::FromData(std::string_view{ reinterpret_cast<const char*>(data.data()), 16 }) == u && Uuid{ data.data() } == u && u.data() == data, "the bytes are not kept");
    for (size_t i = 0; i < 40; ++i)
    {
        bool ok = false;
        S raw(i, 'a');
        std::unique_ptr<char[]> exact{ new char[i] };
        std::memcpy(exact.get(), raw.data(), i);
        try { Uuid::FromData({ exact.get(), i }); ok = true; } catch (const std::exception&) {}
        vh::check(ok == (i == 16), "an identifier of " + std::to_string(i) + " bytes");
    }
    for (size_t i = 0; i < want.size(); ++i)
    {
        std::unique_ptr<char[]> exact{ new char[i] };
        std::memcpy(exact.get(), want.data(), i);
        bool ok = false;
        try { Uuid::FromString({ exact.get(), i }); ok = true; } catch (const std::exception&) {}
        vh::check(!ok, "'" + want.substr(0, i) + "' is taken for an identifier");
        if (want[i] != '-')
        {
            S bad = want;
            bad[i] = 'g';
            try { Uuid::FromString(bad); ok = true; } catch (const std::exception&) {}
            vh::check(!ok, "'" + bad + "' is taken for an identifier");
        }
    }
    for (size_t i = 0; i < 16; ++i)
    {
        Uuid::value_t other = data;
        ++other[i];
        Uuid v{ other };
        vh::check(u != v && !(u == v), "identifiers that differ are equal");
        vh::check((u < v) == (data < other) && (v < u) == (other < data), "identifiers are not ordered by their bytes");
    }
    vh::outcome(static_cast<uint64_t>(kind));
}

VH_MAIN
