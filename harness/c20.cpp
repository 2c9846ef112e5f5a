// C20: an application connects or fails cleanly, ends as it was told and leaves nothing behind.
#include "vh.h"
#include "domains.h"
#include <dots/Application.h>
#include <dots/io/Io.h>
#include <dots/io/auth/AuthManager.h>
#include <dots/io/channels/UdsChannel.h>
#include <VPair.dots.h>
#include <VUncached.dots.h>
#include <DotsClient.dots.h>
#include <csignal>
#include <sys/stat.h>
#include <unistd.h>

using namespace dots;
using namespace dots::types;
using boost::asio::local::stream_protocol;

namespace
{
    using S = std::string;
    asio::io_context& gio() { return io::global_io_context(); }

    struct Scratch
    {
        S dir;
        Scratch() { const char* base = ::getenv("TMPDIR"); S t = S(base ? base : "/tmp") + "/vt.XXXXXX"; dir = ::mkdtemp(t.data()); }
        ~Scratch() { clear(); ::rmdir(dir.c_str()); }
        void clear() { for (auto* f : { "a", "b", "c" }) ::unlink((dir + "/" + f).c_str()); }
    };
    struct Watch { Watch() { ::alarm(60); } ~Watch() { ::alarm(0); } };

    struct Auth : io::AuthManager
    {
        using AuthManager::AuthManager;
        std::optional<io::Nonce> requiresAuthentication(const io::Endpoint&, std::string_view) override { return io::Nonce{ 77 }; }
        bool verifyAuthentication(const io::Endpoint&, std::string_view guest, io::Nonce nonce, io::Nonce cnonce, const io::Digest& response) override { return response.value() == io::Digest{ nonce, cnonce, guest, "sesame" }.value(); }
        bool verifyAuthentication(const io::Endpoint&, std::string_view guest, io::Nonce nonce, std::string_view cnonce, const io::Digest& response) override { return response.value() == io::Digest{ nonce, cnonce, guest, "sesame" }.value(); }
    };

    enum Fate { Good, Absent, GoneConnecting, GoneEarly, GoneConnected, WrongSecret, NoSecret, RightSecret, RawClose, RawNonsense, Fates };
    enum Mode { GlobalArg, GlobalArgs, GlobalEnv, GlobalUser, Own, Modes };
    enum End { Exit7, Term, Int, HostGone, AtOnce, ExitZero, Ends };

    // what the applications connect to, in the same event loop
    struct Other
    {
        Scratch& s;
        std::unique_ptr<HostTransceiver> host;
        std::unique_ptr<stream_protocol::acceptor> raw;
        std::vector<std::unique_ptr<stream_protocol::socket>> sockets;
        std::vector<std::pair<S, DotsConnectionState>> seen;
        Fate fate;

        Other(Scratch& s_, Fate f) : s(s_), fate(f)
        {
            s.clear();
            S path = s.dir + "/a";
            if (f == Absent) return;
            if (f == RawClose || f == RawNonsense)
            {
                raw = std::make_unique<stream_protocol::acceptor>(gio(), stream_protocol::endpoint{ path });
                accept();
                return;
            }
            host = std::make_unique<HostTransceiver>("host", gio(), type::Registry::StaticTypePolicy::All, HostTransceiver::transition_handler_t{ [this](const Connection& c, std::exception_ptr)
            {
                seen.emplace_back(c.peerName(), c.state());
                if ((fate == GoneConnecting && c.state() == DotsConnectionState::connecting) || (fate == GoneEarly && c.state() == DotsConnectionState::early_subscribe) || (fate == GoneConnected && c.state() == DotsConnectionState::connected))
                    asio::post(gio(), [this] { host.reset(); });
            } });
            host->listen(std::vector<io::Endpoint>{ io::Endpoint{ "uds:" + path } });
            if (f == WrongSecret || f == NoSecret || f == RightSecret) host->setAuthManager<Auth>();
            host->publish(VPair{ .id = 3, .value = "before" });
        }
        ~Other()
        {
            host.reset();
            raw.reset();
            sockets.clear();
            gio().restart();
            gio().poll();
            s.clear();
        }
        void accept()
        {
            sockets.push_back(std::make_unique<stream_protocol::socket>(gio()));
            raw->async_accept(*sockets.back(), [this](boost::system::error_code e)
            {
                if (e) return;
                if (fate == RawNonsense) { boost::system::error_code i; asio::write(*sockets.back(), asio::buffer(S(64, '\xff')), i); }
                else sockets.back()->close();
                accept();
            });
        }
        bool connects() const { return fate == Good || fate == RightSecret; }
    };

    void settle() { for (int i = 0; i < 3; ++i) { gio().restart(); gio().poll(); } }

    std::vector<char*> pointers(std::vector<S>& a) { std::vector<char*> r; for (S& s : a) r.push_back(s.data()); r.push_back(nullptr); return r; }

    void guest(Scratch& scratch, Mode mode, Fate fate, End end, bool signals, const S& where)
    {
        Other o{ scratch, fate };
        ::unsetenv("DOTS_ENDPOINT");
        ::unsetenv("DOTS_AUTH_SECRET");
        S uri = "uds:" + scratch.dir + "/a", name = "app";
        std::vector<S> args{ "app", "--other=1" };
        S secret = fate == WrongSecret ? "mellon" : fate == RightSecret ? "sesame" : "";
        if (mode == GlobalUser) { name = "user"; uri = "uds://user@" + scratch.dir + "/a"; }
        if (mode == GlobalUser && !secret.empty()) { uri = "uds://user:" + secret + "@" + scratch.dir + "/a"; secret.clear(); }
        if (mode == GlobalEnv) { ::setenv("DOTS_ENDPOINT", uri.c_str(), 1); if (!secret.empty()) ::setenv("DOTS_AUTH_SECRET", secret.c_str(), 1); }
        else
        {
            if (mode == GlobalArgs) { args.push_back("--dots-endpoint"); args.push_back(uri); }
            else args.push_back("--dots-endpoint=" + uri);
            if (!secret.empty()) args.push_back("--dots-auth-secret=" + secret);
        }
        auto argv = pointers(args);
        std::optional<GuestTransceiver> own;
        if (mode == Own) { own.emplace("app", gio()); }
        std::unique_ptr<Application> app;
        S error;
        try { app = std::make_unique<Application>("app", int(args.size()), argv.data(), std::move(own), signals); }
        catch (const std::exception& e) { error = e.what(); if (error.empty()) error = "?"; }
        bool early = fate == GoneConnected; // may be seen before or after the constructor returned
        if (early ? false : o.connects() != (app != nullptr)) throw vh::Violation{ "", where + (app ? ": the application was set up without a connection" : ": the application could not be set up: " + error) };
        vh::check(app != nullptr || !global_transceiver_is_set(), where + ": an application that could not be set up leaves the global transceiver behind");
        if (!app) { settle(); return; }
        Transceiver& t = app->transceiver();
        vh::check((mode == Own) == !global_transceiver_is_set() && (mode == Own || &t == &global_transceiver()), where + ": the application uses the wrong transceiver");
        settle();
        if (early)
        {
            vh::check(o.host == nullptr, where + ": the host is not gone");
            app.reset();
            settle();
            vh::check(!global_transceiver_is_set(), where + ": the application leaves the global transceiver behind");
            return;
        }
        uint32_t id = static_cast<GuestTransceiver&>(t).connection().selfId();
        {
            vh::check(t.selfName() == name, where + ": the application's name is " + t.selfName());
            auto* c = o.host->pool().get<DotsClient>().find(DotsClient{ .id = id });
            vh::check(c && c->running == true, where + ": the application does not say that it runs");
            vh::check(!o.seen.empty() && o.seen.back() == std::make_pair(name, DotsConnectionState{ DotsConnectionState::connected }), where + ": the host knows the application as " + (o.seen.empty() ? "nothing" : o.seen.back().first));
            if (mode != Own)
            {
                auto* p = dots::container<VPair>().find(VPair{ .id = 3 });
                vh::check(p && p->value == "before", where + ": what is subscribed to was not there from the start");
            }
        }
        int events = 0;
        std::optional<Subscription> sub;
        if (mode != Own) sub.emplace(dots::subscribe<VUncached>([&](const Event<VUncached>&) { ++events; }));
        else sub.emplace(t.subscribe<VUncached>([&](const Event<VUncached>&) { ++events; }));
        settle();
        if (end != AtOnce)
        {
            int code = 0;
            asio::post(gio(), [&] { o.host->publish(VUncached{ .id = 1, .value = "x" }); });
            int waited = 0;
            Timer timer{ gio(), std::chrono::milliseconds{ 1 }, Timer::handler_t{ [&]
            {
                if (events == 0 && ++waited < 5000) return;
                if (waited >= 100000) return;
                waited = 100000;
                switch (end)
                {
                    case Exit7: app->exit(7); break;
                    case ExitZero: app->exit(); break;
                    case Term: ::raise(SIGTERM); break;
                    case Int: ::raise(SIGINT); break;
                    case HostGone: o.host.reset(); if (mode == Own) app->exit(9); break;
                    default: break;
                }
            } }, true };
            gio().restart();
            code = app->exec();
            int should = end == Exit7 ? 7 : end == HostGone && mode == Own ? 9 : 0;
            vh::check(code == should, where + ": the application ended with " + std::to_string(code) + " instead of " + std::to_string(should));
            vh::check(events == 1, where + ": " + std::to_string(events) + " events while the application ran");
        }
        sub.reset();
        app.reset();
        vh::check(!global_transceiver_is_set(), where + ": the application leaves the global transceiver behind");
        settle();
        if (o.host) vh::check(o.seen.back().second == DotsConnectionState::closed, where + ": the host does not know that the application is gone");
        vh::outcome(vh::hashStr(std::to_string(o.seen.size()) + std::to_string(events)));
    }

    void host(Scratch& scratch, int how, End end, bool signals, const S& where)
    {
        scratch.clear();
        ::unsetenv("DOTS_ENDPOINT");
        S a = "uds:" + scratch.dir + "/a", b = how == 3 ? "uds:" + scratch.dir + "/none/b" : "uds:" + scratch.dir + "/b";
        std::vector<S> args{ "app" };
        if (how == 0 || how == 3) { args.push_back("--dots-endpoint=" + a); args.push_back("--dots-endpoint=" + b); }
        if (how == 1) ::setenv("DOTS_ENDPOINT", (a + " " + b).c_str(), 1);
        if (how == 2) { args.push_back("--dots-endpoint"); args.push_back(a); args.push_back("--dots-endpoint"); args.push_back(b); }
        auto argv = pointers(args);
        std::unique_ptr<Application> app;
        S error;
        if (gio().stopped()) gio().restart();
        try { app = std::make_unique<Application>(int(args.size()), argv.data(), HostTransceiver{ "the host", gio() }, signals); }
        catch (const std::exception& e) { error = e.what(); }
        vh::check((how != 3) == (app != nullptr), where + (app ? ": the host application was set up without being able to listen" : ": the host application could not be set up: " + error));
        if (!app) { settle(); scratch.clear(); return; }
        vh::check(!global_transceiver_is_set(), where + ": a host application sets the global transceiver");
        {
            asio::io_context other;
            GuestTransceiver g[2]{ GuestTransceiver{ "g", other }, GuestTransceiver{ "h", other } };
            for (int i : { 0, 1 })
            {
                g[i].open(io::Endpoint{ i ? b : a });
                for (int k = 0; k < 200 && !g[i].connected(); ++k) { other.restart(); other.poll(); gio().restart(); gio().poll(); }
                vh::check(g[i].connected(), where + ": a guest cannot connect to the host application");
            }
            app->transceiver().publish(VPair{ .id = 1, .value = "v" });
            for (int k = 0; k < 3; ++k) { other.restart(); other.poll(); gio().restart(); gio().poll(); }
            if (end != AtOnce)
            {
                Timer timer{ gio(), std::chrono::milliseconds{ 1 }, Timer::handler_t{ [&]
                {
                    if (end == Exit7) app->exit(7);
                    else if (end == Term) ::raise(SIGTERM);
                    else if (end == Int) ::raise(SIGINT);
                    else app->exit();
                } } };
                gio().restart();
                int code = app->exec();
                vh::check(code == (end == Exit7 ? 7 : 0), where + ": the host application ended with " + std::to_string(code));
            }
            app.reset();
            for (int k = 0; k < 20; ++k) { other.restart(); other.poll(); }
            vh::check(g[0].closed() && g[1].closed(), where + ": the host application ended and a guest does not know");
        }
        settle();
        scratch.clear();
    }
}

// every sequence of applications in a process
SCENARIO(applications)
{
    struct Run { int mode, fate, end; bool signals; };
    std::vector<Run> runs;
    int n = vh::bound(2, 3);
    for (int i = 0; i < n; ++i)
    {
        Run r{};
        r.mode = ch.choose(Modes + 5, "mode"); // the last ones are hosts, and none
        if (r.mode == Modes + 4) break;
        r.fate = r.mode < Modes ? ch.choose(Fates, "fate") : 0;
        bool runs_ = r.mode < Modes ? r.fate == Good || r.fate == RightSecret : r.mode != Modes + 3;
        r.end = runs_ ? ch.choose(Ends, "end") : 0;
        r.signals = !runs_ || r.end == Term || r.end == Int || ch.flag("signals");
        if (r.mode >= Modes && (r.end == HostGone || r.end == ExitZero)) throw vh::Prune{};
        if (i == 2 && (r.end != Exit7 || !r.signals)) throw vh::Prune{};
        runs.push_back(r);
    }
    Watch watch;
    static Scratch scratch;
    S where;
    for (const Run& r : runs)
    {
        where += " " + std::to_string(r.mode) + "." + std::to_string(r.fate) + "." + std::to_string(r.end) + (r.signals ? "s" : "");
        vh::transition();
        if (r.mode < Modes) guest(scratch, Mode(r.mode), Fate(r.fate), End(r.end), r.signals, where);
        else host(scratch, r.mode - Modes, End(r.end), r.signals, where);
        vh::state(vh::hashStr(where));
    }
}

VH_MAIN
