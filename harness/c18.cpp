// C18: timers and observations call back exactly when they should, and never after they were given up.
#include "vh.h"
#include <dots/Timer.h>
#include <dots/dots.h>
#include <dots/asio.h>
#include <dots/io/FdObserver.h>
#include <dots/io/Io.h>
#include <sys/ioctl.h>
#include <sys/syscall.h>
#include <fcntl.h>
#include <memory>
#include <optional>

// the clock of the exploration: time passes when the exploration says so
static int64_t g_now = 0; // ns
static bool g_virtual = false;
extern "C" int clock_gettime(clockid_t id, timespec* t)
{
    if (g_virtual && id == CLOCK_MONOTONIC) { int64_t n = 1000000000000ll + g_now; t->tv_sec = n / 1000000000; t->tv_nsec = n % 1000000000; return 0; }
    return syscall(SYS_clock_gettime, id, t);
}
extern "C" int timerfd_create(int, int) { errno = ENOSYS; return -1; } // the event loop asks the clock itself

namespace
{
    using S = std::string;
    constexpr int64_t Unit = 250000000; // exact in binary
    struct Thrown {};

    dots::type::Duration units(int64_t n) { return std::chrono::nanoseconds{ n * Unit }; }

    enum Reaction { Nothing, EndSelf, DiscardSelf, EndOther, ReplaceSelf, ReplaceOther, MoveSelf, Throw, Nested, TakeTime, Reactions };
    const char* reactionName[]{ "nothing", "end itself", "discard itself", "end the other", "replace itself", "replace the other", "move itself", "throw", "poll", "take time" };

    struct World
    {
        struct T { int64_t start, interval, due; bool periodic, handle = true, discarded = false, fired = false, threw = false; int reaction; int calls = 0; std::weak_ptr<int> token;
                   bool active() const { return (handle || discarded) && !(fired && !periodic) && !threw; } };
        dots::asio::io_context ioc;
        std::vector<T> ts;
        std::optional<dots::Timer> slots[2];
        int in[2]{ -1, -1 };       // which timer a slot holds
        S log, bad;
        int depth = 0;

        World() { g_virtual = true; g_now = 0; }
        ~World() { slots[0].reset(); slots[1].reset(); }

        void fail(const S& s) { if (bad.empty()) bad = s; }

        void release(int slot) { if (in[slot] >= 0) ts[in[slot]].handle = false; in[slot] = -1; }

        void make(int slot, int64_t interval, bool periodic, int reaction)
        {
            int i = int(ts.size());
            auto token = std::make_shared<int>(i);
            ts.push_back({ g_now, interval * Unit, g_now + interval * Unit, periodic, true, false, false, false, reaction, 0, token });
            dots::Timer t{ ioc, units(interval), dots::Timer::handler_t{ [this, i, token{ std::move(token) }] { call(i, *token); } }, periodic };
            release(slot);
            if (slots[slot]) *slots[slot] = std::move(t); else slots[slot].emplace(std::move(t));
            in[slot] = i;
        }
        void end(int slot) { slots[slot].reset(); release(slot); }
        void discard(int slot)
        {
            if (!slots[slot]) return;
            slots[slot]->discard();
            if (in[slot] >= 0) { ts[in[slot]].discarded = true; release(slot); }
        }
        void move(int from, int to)
        {
            if (!slots[from]) return;
            release(to);
            if (slots[to]) *slots[to] = std::move(*slots[from]); else slots[to].emplace(std::move(*slots[from]));
            in[to] = in[from];
            in[from] = -1;
            slots[from].reset();
        }

        void call(int i, int token)
        {
            log += std::to_string(i) + "@" + std::to_string(g_now / Unit) + " ";
            T t = ts[i];
            if (token != i) fail("a handler's data is damaged");
            if (!t.handle && !t.discarded) fail("a timer was called after it was given up");
            if (t.fired && !t.periodic) fail("a timer that is not periodic was called twice");
            if (g_now < t.due) fail("a timer was called too early");
            for (const T& o : ts)
                if (depth == 1 && &o != &ts[i] && o.active() && o.due < ts[i].due && o.calls == 0 && o.start <= before && ts[i].calls == 0 && ts[i].start <= before) fail("timers were called out of order");
            ts[i].fired = true;
            ++ts[i].calls;
            if (t.periodic) ts[i].due += t.interval;
            int self = in[0] == i ? 0 : in[1] == i ? 1 : -1;
            if (ts[i].calls > 1 && t.reaction != Throw && t.reaction != TakeTime) return;
            switch (t.reaction)
            {
                case EndSelf: if (self >= 0) end(self); break;
                case DiscardSelf: if (self >= 0) discard(self); break;
                case EndOther: end(self == 0 ? 1 : 0); break;
                case ReplaceSelf: if (self >= 0) make(self, 2, false, Nothing); break;
                case ReplaceOther: make(self == 0 ? 1 : 0, 3, true, Nothing); break;
                case MoveSelf: if (self >= 0) move(self, 1 - self); break;
                case Throw: ts[i].threw = true; throw Thrown{};
                case Nested: if (depth < 2) { try { poll(); } catch (const Thrown&) { ts[i].threw = true; throw; } } break;
                case TakeTime: g_now += Unit / 2; break;
                default: break;
            }
            if (token != i) fail("a handler's data is damaged");
        }

        int64_t before = 0;
        void poll()
        {
            ++depth;
            if (depth == 1) before = g_now;
            try
            {
                ioc.restart();
                ioc.poll();
            }
            catch (const Thrown&) { --depth; if (depth > 0) throw; poll(); return; }
            --depth;
            if (depth > 0) return;
            for (size_t i = 0; i < ts.size(); ++i)
                if (ts[i].active() && ts[i].due + Unit / 1000 <= g_now) fail("a timer that ran out was not called");
            // nothing holds the handlers of timers that are over
            for (T& t : ts)
                if (!t.handle && !t.active() && !t.token.expired()) fail(t.threw ? "the handler of a timer that threw is kept after the timer's end" : "the handler of a timer that is over is kept");
        }
        void verify() { S b; std::swap(b, bad); vh::checkF(b.empty(), [&] { return b + "\n" + log; }); }
        void finish()
        {
            end(0);
            end(1);
            poll();
            verify();
            bool left = false;
            for (T& t : ts) left |= t.active();
            ioc.restart();
            ioc.poll();
            verify();
            vh::check(left || ioc.stopped(), "the event loop is kept from ending by timers that were given up\n" + log);
            // discarded timers go on
            for (int k = 0; left && k < 8; ++k) { g_now += Unit; poll(); verify(); }
            uint64_t h = vh::hashStr(log);
            vh::outcome(h);
        }
    };

    struct Kind { int64_t interval; bool periodic; };
    const std::vector<Kind> kinds{ { 2, false }, { 2, true }, { 3, true }, { 0, false } };
}

// all programs of two timers whose handlers react, and of steps between them
SCENARIO(timers)
{
    int r[2], k[2];
    for (int i : { 0, 1 })
    {
        k[i] = ch.choose(int(kinds.size()), "kind");
        r[i] = ch.choose(Reactions, "reaction");
    }
    int depth = vh::bound(3, 4), n = 0;
    int steps[8];
    for (int i = 0; i < depth; ++i)
    {
        int s = ch.choose(12, "step");
        if (s == 11) break;
        steps[n++] = s;
    }
    World w;
    w.make(0, kinds[k[0]].interval, kinds[k[0]].periodic, r[0]);
    w.make(1, kinds[k[1]].interval, kinds[k[1]].periodic, r[1]);
    for (int i = 0; i < n; ++i)
    {
        switch (steps[i])
        {
            case 0: g_now += Unit; w.poll(); break;
            case 1: g_now += 2 * Unit; w.poll(); break;
            case 2: g_now += 7 * Unit; w.poll(); break;
            case 3: g_now += 3 * Unit; break; // runs out, but nobody is told yet
            case 4: case 5: w.end(steps[i] - 4); break;
            case 6: case 7: w.discard(steps[i] - 6); break;
            case 8: w.move(0, 1); break;
            case 9: w.make(0, 2, false, Nothing); break;
            case 10: w.make(1, 1, true, Nothing); break;
        }
        w.verify();
        uint64_t h = g_now;
        for (auto& t : w.ts) h = vh::mix(h, vh::mix(t.due, t.calls * 8 + t.handle * 4 + t.discarded * 2 + t.threw));
        vh::state(h);
    }
    g_now += Unit;
    w.poll();
    w.verify();
    w.finish();
}

// periodic timers keep to their grid, whatever their period, and however long their handlers take
SCENARIO(periods)
{
    const std::vector<double> periods{ 1e-6, 0.001, 0.01, 1.0 / 3, 0.1, 0.7, 1, 60, 86400, 1e7 };
    double period = ch.of(periods, "period");
    int takes = ch.choose(4, "takes");       // quarters of the period
    int look = ch.choose(4, "look");         // how often the loop runs
    int calls = vh::bound(300, 5000);
    g_virtual = true;
    g_now = 0;
    dots::asio::io_context ioc;
    int n = 0;
    S bad;
    const int64_t p = int64_t(period * 1e9);
    const int64_t step = look == 0 ? p : look == 1 ? p / 3 + 1 : look == 2 ? p * 2 + p / 2 : p / 2 + 1;
    dots::Timer t{ ioc, dots::type::Duration{ std::chrono::duration<double>{ period } }, dots::Timer::handler_t{ [&]
    {
        ++n;
        double due = period * n * 1e9;
        if (double(g_now) < due - 1000 - due * 1e-12) bad = "call " + std::to_string(n) + " came early";
        g_now += p / 4 * takes;
    } }, true };
    while (n < calls && bad.empty())
    {
        g_now += step;
        ioc.restart();
        ioc.poll();
        vh::transition();
        double should = double(g_now) / (period * 1e9);
        if (n < std::floor(should - 1e-6 - 2000.0 / p)) bad = "only " + std::to_string(n) + " calls after " + std::to_string(should) + " periods";
    }
    vh::state(vh::mix(vh::mix(takes, look), vh::hashStr(std::to_string(period))));
    vh::outcome(n);
    vh::check(bad.empty(), bad);
}

// durations of every size
SCENARIO(durations)
{
    const std::vector<double> ds{ -1e300, -1e10, -1, -1e-9, 0, 1e-12, 1e-9, 1e-3, 1, 3600, 1e6, 1e9, 9.2e9, 9.3e9, 1e12, 1e300, std::numeric_limits<double>::infinity() };
    double d = ch.of(ds, "duration");
    bool periodic = d > 0 && ch.flag("periodic");
    int step = ch.choose(3, "step");
    g_virtual = true;
    g_now = 0;
    dots::asio::io_context ioc;
    int n = 0;
    dots::Timer t{ ioc, dots::type::Duration{ std::chrono::duration<double>{ d } }, dots::Timer::handler_t{ [&] { if (++n > 3) ioc.stop(); } }, periodic };
    const int64_t steps[]{ 0, 1000, 3600ll * 1000000000 * 24 * 365 * 100 };
    if (d > 0 && d * 1000 < steps[step]) throw vh::Prune{};
    g_now += steps[step];
    ioc.poll();
    double now = double(g_now) / 1e9;
    vh::state(vh::mix(vh::hashStr(std::to_string(d)), periodic * 4 + step));
    vh::outcome(n);
    if (now < d * (1 - 1e-9) - 1e-8) vh::check(n == 0, "a timer of " + std::to_string(d) + " s was called after " + std::to_string(now) + " s");
    if (now > d * (1 + 1e-9) + 1e-8) vh::check(n > 0, "a timer of " + std::to_string(d) + " s was not called after " + std::to_string(now) + " s");
}

// timers named by numbers
SCENARIO(service)
{
    int n = ch.choose(4, "timers");
    struct P { bool periodic; int64_t interval; int reaction; };
    std::vector<P> ps;
    for (int i = 0; i < n; ++i) ps.push_back({ ch.flag("periodic"), int64_t(ch.choose(2, "interval")) + 1, ch.choose(5, "reaction") });
    std::vector<int> steps;
    for (int i = 0; i < vh::bound(2, 3); ++i) steps.push_back(ch.choose(n + 4, "step"));
    g_virtual = true;
    g_now = 0;
    auto& ioc = dots::io::global_io_context();
    ioc.restart();
    ioc.poll();
    struct T { uint32_t id; bool alive; bool periodic; int64_t due, interval; int calls; int reaction; };
    static std::vector<T> ts;
    ts.clear();
    static S bad;
    bad.clear();
    auto remove = [](size_t i) { dots::remove_timer(ts[i].id); ts[i].alive = false; };
    auto add = [&](bool periodic, int64_t interval, int reaction)
    {
        size_t i = ts.size();
        ts.push_back({ 0, true, periodic, g_now + interval * Unit, interval * Unit, 0, reaction });
        uint32_t id = dots::add_timer(units(interval), dots::tools::Handler<void()>{ [i, remove]
        {
            T& t = ts[i];
            if (!t.alive) bad = "a removed timer was called";
            if (g_now < t.due) bad = "a timer was called too early";
            if (t.calls++ > 0 && !t.periodic) bad = "a timer was called again";
            if (t.periodic) t.due += t.interval; else t.alive = false;
            if (t.reaction == 1) remove(i);
            if (t.reaction == 2) remove((i + 1) % ts.size());
            if (t.reaction == 3) dots::remove_timer(t.id + 1000);
            if (t.reaction == 4 && t.calls == 1)
            {
                uint32_t other = dots::add_timer(units(1), dots::tools::Handler<void()>{ [] { bad = "a timer that was removed at once was called"; } });
                dots::remove_timer(other);
            }
        } }, periodic);
        for (const T& o : ts) if (&o != &ts[i] && o.id == id) bad = "a number is used twice";
        ts[i].id = id;
    };
    for (const P& p : ps) add(p.periodic, p.interval, p.reaction);
    auto poll = [&]
    {
        ioc.restart();
        ioc.poll();
        vh::check(bad.empty(), bad);
        for (const T& t : ts) vh::check(!t.alive || t.due > g_now, "a timer that ran out was not called");
    };
    for (int s : steps)
    {
        if (s < n) remove(s);
        else if (s == n) { g_now += Unit; poll(); }
        else if (s == n + 1) { g_now += 2 * Unit; poll(); }
        else if (s == n + 2) g_now += Unit;
        else dots::remove_timer(12345678);
        uint64_t h = g_now;
        for (const T& t : ts) h = vh::mix(h, vh::mix(t.due, t.calls * 2 + t.alive));
        vh::state(h);
    }
    poll();
    for (size_t i = 0; i < ts.size(); ++i) remove(i);
    g_now += 5 * Unit;
    poll();
    ioc.restart();
    ioc.poll();
    vh::check(ioc.stopped(), "removed timers keep the event loop from ending");
    for (const T& t : ts) vh::outcome(vh::mix(t.calls, t.reaction));
}

namespace
{
    using dots::io::posix::FdObserver;
    using C = FdObserver::Condition;

    enum OReaction { ReadAll, ReadOne, OEndSelf, ODiscardSelf, OEndOther, OReplaceSelf, OMoveSelf, OThrow, ODrainOther, OReactions };

    struct Fds
    {
        struct O { C condition; int fd; bool handle = true, discarded = false, threw = false; int reaction; int calls = 0; std::weak_ptr<int> token; bool active() const { return (handle || discarded) && !threw; } };
        dots::asio::io_context ioc;
        int mine[2], theirs[2];
        std::vector<O> os;
        std::optional<FdObserver> slots[2];
        int in[2]{ -1, -1 };
        std::vector<char> could; // conditions that held during this round
        S bad, log;

        Fds()
        {
            g_virtual = false;
            for (int i : { 0, 1 })
            {
                int sv[2];
                if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, sv)) throw std::runtime_error{ "socketpair" };
                mine[i] = sv[0];
                theirs[i] = sv[1];
            }
        }
        ~Fds()
        {
            slots[0].reset();
            slots[1].reset();
            for (int i : { 0, 1 }) { close(mine[i]); if (theirs[i] >= 0) close(theirs[i]); }
        }
        void fail(const S& s) { if (bad.empty()) bad = s; }
        bool holds(const O& o) const
        {
            pollfd p{ mine[o.fd], short(o.condition == C::ReadyForRead ? POLLIN : o.condition == C::ReadyForWrite ? POLLOUT : 0), 0 };
            ::poll(&p, 1, 0);
            return p.revents & (o.condition == C::ReadyForRead ? POLLIN | POLLHUP | POLLERR : o.condition == C::ReadyForWrite ? POLLOUT | POLLHUP | POLLERR : POLLERR | POLLHUP);
        }
        void release(int slot) { if (in[slot] >= 0) os[in[slot]].handle = false; in[slot] = -1; }
        void make(int slot, int fd, C condition, int reaction)
        {
            int i = int(os.size());
            auto token = std::make_shared<int>(i);
            os.push_back({ condition, fd, true, false, false, reaction, 0, token });
            could.push_back(holds(os.back()));
            int own = fcntl(mine[fd], F_DUPFD_CLOEXEC, 0); // the observer owns its descriptor
            FdObserver o{ ioc, own, FdObserver::handler_t{ [this, i, token{ std::move(token) }](std::exception_ptr e) { call(i, *token, e); } }, condition };
            release(slot);
            if (slots[slot]) *slots[slot] = std::move(o); else slots[slot].emplace(std::move(o));
            in[slot] = i;
        }
        void end(int slot) { slots[slot].reset(); release(slot); }
        void discard(int slot)
        {
            if (!slots[slot]) return;
            slots[slot]->discard();
            if (in[slot] >= 0) { os[in[slot]].discarded = true; release(slot); }
        }
        void move(int from, int to)
        {
            if (!slots[from]) return;
            release(to);
            if (slots[to]) *slots[to] = std::move(*slots[from]); else slots[to].emplace(std::move(*slots[from]));
            in[to] = in[from];
            in[from] = -1;
            slots[from].reset();
        }
        void drain(int fd, size_t n) { char c[256]; while (n > 0) { ssize_t r = ::read(mine[fd], c, std::min(n, sizeof(c))); if (r <= 0) break; n -= r; } }

        void call(int i, int token, std::exception_ptr e)
        {
            log += std::to_string(i) + " ";
            O o = os[i];
            if (token != i) fail("a handler's data is damaged");
            if (!o.handle && !o.discarded) fail("an observer was called after it was given up");
            if (e) fail("an observation failed");
            if (!could[i] && !holds(o)) fail("an observer was called without its condition");
            ++os[i].calls;
            int self = in[0] == i ? 0 : in[1] == i ? 1 : -1;
            switch (o.reaction)
            {
                case ReadAll: drain(o.fd, 1000); break;
                case ReadOne: drain(o.fd, 1); break;
                case OEndSelf: if (self >= 0) end(self); break;
                case ODiscardSelf: if (self >= 0) discard(self); drain(o.fd, 1); break;
                case OEndOther: end(self == 0 ? 1 : 0); break;
                case OReplaceSelf: if (self >= 0) make(self, o.fd, o.condition, ReadAll); break;
                case OMoveSelf: if (self >= 0) move(self, 1 - self); drain(o.fd, 1); break;
                case OThrow: os[i].threw = true; throw Thrown{};
                case ODrainOther: drain(1 - o.fd, 1000); break;
            }
            if (token != i) fail("a handler's data is damaged");
        }
        void round()
        {
            std::vector<int> calls;
            std::vector<char> start;
            for (size_t i = 0; i < os.size(); ++i) { could[i] = holds(os[i]); start.push_back(could[i] && os[i].active()); calls.push_back(os[i].calls); }
            for (int k = 0; k < 12; ++k)
            {
                ioc.restart();
                try { if (!ioc.poll_one() && ioc.stopped()) break; } catch (const Thrown&) {}
                vh::transition();
            }
            for (size_t i = 0; i < start.size(); ++i)
                if (start[i] && os[i].active() && holds(os[i]) && os[i].calls == calls[i]) fail("an observer was not called although its condition holds");
        }
        void verify() { S b; std::swap(b, bad); vh::checkF(b.empty(), [&] { return b + "\n" + log; }); }
    };
}

// all programs of two observers whose handlers react
SCENARIO(observers)
{
    int fd[2], cond[2], r[2];
    for (int i : { 0, 1 })
    {
        cond[i] = ch.choose(3, "condition");
        r[i] = ch.choose(OReactions, "reaction");
    }
    fd[0] = 0;
    fd[1] = ch.flag("same") ? 0 : 1;
    std::vector<int> steps;
    for (int i = 0; i < vh::bound(2, 4); ++i)
    {
        int s = ch.choose(12, "step");
        if (s == 11) break;
        steps.push_back(s);
    }
    Fds w;
    w.make(0, fd[0], C(cond[0]), r[0]);
    w.make(1, fd[1], C(cond[1]), r[1]);
    for (int s : steps)
    {
        switch (s)
        {
            case 0: case 1: if (w.theirs[s] >= 0) (void)!::write(w.theirs[s], "ab", 2); w.round(); break;
            case 2: if (w.theirs[0] >= 0) (void)!::write(w.theirs[0], "a", 1); break;
            case 3: if (w.theirs[0] >= 0) close(w.theirs[0]); w.theirs[0] = -1; w.round(); break;
            case 4: case 5: w.end(s - 4); break;
            case 6: case 7: w.discard(s - 6); break;
            case 8: w.move(0, 1); break;
            case 9: w.make(0, 1, C::ReadyForRead, ReadAll); break;
            case 10: w.round(); break;
        }
        w.verify();
        uint64_t h = 0;
        for (auto& o : w.os) h = vh::mix(h, o.calls * 16 + o.handle * 8 + o.discarded * 4 + o.threw * 2 + w.holds(o));
        vh::state(h);
    }
    w.round();
    w.verify();
    w.end(0);
    w.end(1);
    bool left = false;
    for (auto& o : w.os) left |= o.active();
    w.round();
    w.verify();
    w.ioc.restart();
    if (!left)
    {
        try { w.ioc.poll(); } catch (const Thrown&) {}
        w.verify();
        vh::check(w.ioc.stopped(), "observers that were given up keep the event loop from ending\n" + w.log);
        for (auto& o : w.os) vh::check(o.token.expired(), "the handler of an observer that was given up is kept\n" + w.log);
    }
    vh::outcome(vh::hashStr(w.log));
}

// results promised by the event loop
SCENARIO(promises)
{
    int n = 1 + ch.choose(3, "posts");
    std::vector<int> kinds;
    for (int i = 0; i < n; ++i) kinds.push_back(ch.choose(4, "kind"));
    g_virtual = false;
    dots::asio::io_context ioc;
    std::vector<std::future<int>> futures;
    std::vector<std::future<void>> voids;
    S order;
    for (int i = 0; i < n; ++i)
    {
        if (kinds[i] == 0) futures.push_back(dots::io::post_and_promise_result(ioc, [&order, i] { order += char('0' + i); return i; }));
        if (kinds[i] == 1) voids.push_back(dots::io::post_and_promise_result(ioc, [&order, i] { order += char('0' + i); }));
        if (kinds[i] == 2) futures.push_back(dots::io::post_and_promise_result(ioc, [&order, i, &ioc, p = std::make_unique<int>(i)] { order += char('0' + i); return *p; }));
        if (kinds[i] == 3) { int v = i; futures.push_back(dots::io::post_and_promise_result(ioc, [&order, v]() mutable { order += char('0' + v); return v; })); }
    }
    for (auto& f : futures) vh::check(f.wait_for(std::chrono::seconds{ 0 }) == std::future_status::timeout, "a promise was kept before the event loop ran");
    ioc.poll();
    S should;
    size_t f = 0;
    for (int i = 0; i < n; ++i)
    {
        should += char('0' + i);
        if (kinds[i] != 1) { vh::check(futures[f].wait_for(std::chrono::seconds{ 0 }) == std::future_status::ready && futures[f].get() == i, "a promise was not kept"); ++f; }
    }
    for (auto& v : voids) vh::check(v.wait_for(std::chrono::seconds{ 0 }) == std::future_status::ready, "a promise was not kept");
    vh::check(order == should, "posted functions were called in the order " + order);
    vh::state(vh::hashStr(order));
    vh::outcome(vh::hashStr(order + std::to_string(kinds[0])));
}

VH_MAIN
