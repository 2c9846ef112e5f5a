// Bounded exhaustive exploration: a scenario is a function of a Chooser; every sequence of choices is executed.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>
#include <stdexcept>
#include <csignal>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <fcntl.h>

namespace vh
{
    struct Violation
    {
        std::string sig; // identifies the failing input or history
        std::string msg;
    };
    struct Prune {};
    struct Abort { std::string msg; };

    inline uint64_t mix(uint64_t h, uint64_t v)
    {
        h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
        h *= 0xff51afd7ed558ccdull;
        return h ^ (h >> 33);
    }
    inline uint64_t hashStr(std::string_view s)
    {
        uint64_t h = 1469598103934665603ull;
        for (char c : s) { h ^= static_cast<uint8_t>(c); h *= 1099511628211ull; }
        return mix(h, s.size());
    }

    struct Shared // survives a crash: what was being executed
    {
        char scenario[64];
        uint32_t n;
        uint32_t choices[400];
        char note[2048];
    };

    struct Global
    {
        bool thorough = false;
        bool replay = false;
        unsigned shard = 0, nshards = 1;
        long seed = 1;
        Shared* shared = nullptr;
        volatile uint64_t executions = 0;
        uint64_t evaluations = 0, transitions = 0, traces = 0;
        std::unordered_set<uint64_t> states, outcomes;
        std::vector<std::string> samples;
        std::vector<std::string> trace;
        bool wantTrace = false;
        std::map<std::string, uint64_t> scen;
        std::map<std::string, uint64_t> capped;
        struct V { std::string scenario, sig, msg; std::vector<uint32_t> choices; std::vector<std::string> trace; };
        std::vector<V> violations;
        std::set<std::string> sigs;
    };
    inline Global& G() { static Global g; return g; }

    inline void setNote(const std::string& s)
    {
        Shared* sh = G().shared;
        if (sh == nullptr) return;
        size_t n = std::min(s.size(), sizeof(sh->note) - 1);
        std::memcpy(sh->note, s.data(), n);
        sh->note[n] = 0;
    }

    class Chooser
    {
    public:
        // returns 0..n-1
        int choose(int n, const char* what = "")
        {
            if (n <= 0) throw Abort{ std::string("empty choice ") + what };
            if (n == 1) return 0;
            size_t i = m_pos++;
            if (i < m_forced.size())
            {
                uint32_t c = m_forced[i];
                if (c >= static_cast<uint32_t>(n) || (i < m_arity.size() && !m_replayMode && m_arity[i] != static_cast<uint32_t>(n)))
                    throw Abort{ std::string("replay divergence at ") + what };
                if (i >= m_arity.size()) m_arity.push_back(n);
                record(i, c);
                shardPoint(i);
                return static_cast<int>(c);
            }
            m_forced.push_back(0);
            m_arity.push_back(n);
            record(i, 0);
            shardPoint(i);
            return 0;
        }
        template <typename T> const T& of(const std::vector<T>& v, const char* what = "") { return v[choose(static_cast<int>(v.size()), what)]; }
        bool flag(const char* what = "") { return choose(2, what) == 1; }
        bool tracing() const { return G().wantTrace; }
        void note(const std::string& s) { if (G().wantTrace) G().trace.push_back(s); }

        // internals
        void begin() { m_pos = 0; m_product = 1; m_decided = (m_replayMode || G().nshards == 1); if (G().shared) G().shared->n = 0; }
        bool next()
        {
            m_forced.resize(std::min(m_forced.size(), m_pos));
            m_arity.resize(m_forced.size());
            while (!m_forced.empty())
            {
                if (m_forced.back() + 1 < m_arity.back()) { ++m_forced.back(); return true; }
                m_forced.pop_back();
                m_arity.pop_back();
            }
            return false;
        }
        void force(std::vector<uint32_t> c) { m_forced = std::move(c); m_replayMode = true; }
        std::vector<uint32_t> choices() const { return std::vector<uint32_t>(m_forced.begin(), m_forced.begin() + std::min(m_pos, m_forced.size())); }
        bool decided() const { return m_decided; }
        uint64_t m_ordinal = 0, m_lastSubtree = ~0ull;
        std::vector<uint32_t> m_lastPrefix;

        // Executions that end before the shard point belong to the shard of their ordinal.
        bool mineAtEnd()
        {
            if (m_decided) return true;
            return subtree(m_pos);
        }
    private:
        void record(size_t i, uint32_t c)
        {
            Shared* s = G().shared;
            if (s != nullptr && i < 400) { s->choices[i] = c; s->n = static_cast<uint32_t>(i + 1); }
        }
        bool subtree(size_t len)
        {
            std::vector<uint32_t> p(m_forced.begin(), m_forced.begin() + len);
            if (m_lastSubtree == ~0ull || p != m_lastPrefix) { m_lastPrefix = p; m_lastSubtree = m_ordinal++; }
            return m_lastSubtree % G().nshards == G().shard;
        }
        void shardPoint(size_t i)
        {
            if (m_decided) return;
            m_product *= m_arity[i];
            if (m_product >= 16ull * G().nshards)
            {
                m_decided = true;
                if (!subtree(i + 1)) throw Prune{};
            }
        }
        std::vector<uint32_t> m_forced, m_arity;
        size_t m_pos = 0;
        uint64_t m_product = 1;
        bool m_decided = false, m_replayMode = false;
    };

    using ScenarioFn = std::function<void(Chooser&)>;
    struct Scenario { std::string name; ScenarioFn fn; bool thoroughOnly; };
    inline std::vector<Scenario>& scenarios() { static std::vector<Scenario> s; return s; }
    struct Register { Register(const char* n, ScenarioFn f, bool t = false) { scenarios().push_back({ n, std::move(f), t }); } };
#define VH_CAT2(a, b) a##b
#define VH_CAT(a, b) VH_CAT2(a, b)
#define SCENARIO(name) static void name(vh::Chooser& ch); static vh::Register VH_CAT(reg_, name){ #name, name }; static void name([[maybe_unused]] vh::Chooser& ch)
#define SCENARIO_THOROUGH(name) static void name(vh::Chooser& ch); static vh::Register VH_CAT(reg_, name){ #name, name, true }; static void name([[maybe_unused]] vh::Chooser& ch)

    [[noreturn]] inline void fail(const std::string& sig, const std::string& msg) { throw Violation{ sig, msg }; }
    inline void check(bool c, const std::string& msg) { ++G().evaluations; if (!c) throw Violation{ "", msg }; }
    template <typename F> inline void checkF(bool c, F&& msg) { ++G().evaluations; if (!c) throw Violation{ "", msg() }; }
    inline void state(uint64_t h) { G().states.insert(h); }
    inline void outcome(uint64_t h) { G().outcomes.insert(h); }
    inline void transition(uint64_t n = 1) { G().transitions += n; }
    inline void sample(const std::string& s) { if (G().samples.size() < 6) G().samples.push_back(s); }
    inline bool thorough() { return G().thorough; }
    inline int bound(int quick, int thorough_) { return G().thorough ? thorough_ : quick; }

    inline std::string jsonStr(const std::string& s)
    {
        std::string r = "\"";
        for (char c : s)
        {
            unsigned char u = static_cast<unsigned char>(c);
            if (c == '"' || c == '\\') { r += '\\'; r += c; }
            else if (u < 0x20 || u >= 0x7f) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", u); r += b; }
            else r += c;
        }
        return r + "\"";
    }
    inline std::string hex(const void* p, size_t n)
    {
        static const char* d = "0123456789abcdef";
        std::string r;
        for (size_t i = 0; i < n; ++i) { uint8_t b = static_cast<const uint8_t*>(p)[i]; r += d[b >> 4]; r += d[b & 15]; }
        return r;
    }
    template <typename V> inline std::string hexv(const V& v) { return hex(v.data(), v.size()); }

    namespace detail
    {
        inline volatile uint64_t lastExec = 0;
        inline volatile int stuck = 0;
        inline void onProf(int)
        {
            if (G().executions == lastExec) { if (++stuck >= 25) { const char m[] = "VH-HANG\n"; (void)!write(2, m, sizeof m - 1); _exit(97); } }
            else { lastExec = G().executions; stuck = 0; }
        }
    }

    inline bool runOnce(const Scenario& s, Chooser& ch, uint64_t& n)
    {
        Global& g = G();
        g.executions = g.executions + 1;
        ch.begin();
        g.trace.clear();
        bool counted = true;
        std::string sig, msg;
        bool bad = false;
        try { s.fn(ch); }
        catch (const Prune&) { counted = false; }
        catch (const Violation& v) { bad = true; sig = v.sig; msg = v.msg; }
        catch (const Abort& a) { std::fprintf(stderr, "VH-ABORT %s: %s\n", s.name.c_str(), a.msg.c_str()); std::_Exit(98); }
        catch (const std::exception& e) { bad = true; msg = std::string("unexpected exception: ") + e.what(); }
        if (counted && !ch.decided() && !ch.mineAtEnd()) counted = false;
        if (counted) { ++n; ++g.traces; }
        if (bad && counted)
        {
            if (sig.empty()) sig = s.name + ": " + msg;
            if (g.sigs.insert(sig).second) g.violations.push_back({ s.name, sig, msg, ch.choices(), g.trace });
            return false;
        }
        return true;
    }

    inline int run(int argc, char** argv)
    {
        Global& g = G();
        std::string out, cur, replay, only;
        for (int i = 1; i < argc; ++i)
        {
            std::string a = argv[i];
            auto val = [&] { return std::string(argv[++i]); };
            if (a == "--thorough") g.thorough = true;
            else if (a == "--shard") { std::string v = val(); g.shard = std::stoi(v); g.nshards = std::stoi(v.substr(v.find('/') + 1)); }
            else if (a == "--out") out = val();
            else if (a == "--cur") cur = val();
            else if (a == "--seed") g.seed = std::stol(val());
            else if (a == "--replay") replay = val();
            else if (a == "--only") only = val();
            else if (a == "--list") { for (auto& s : scenarios()) std::puts(s.name.c_str()); return 0; }
        }
        if (!cur.empty())
        {
            int fd = open(cur.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
            if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) return 98;
            g.shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
        }
        struct sigaction sa {};
        sa.sa_handler = detail::onProf;
        sa.sa_flags = SA_RESTART;
        sigaction(SIGPROF, &sa, nullptr);
        itimerval tv{ { 1, 0 }, { 1, 0 } };
        setitimer(ITIMER_PROF, &tv, nullptr);

        if (!replay.empty())
        {
            g.replay = true;
            g.wantTrace = true;
            FILE* f = fopen(replay.c_str(), "r");
            if (!f) return 98;
            char name[128]; char tier[32];
            if (fscanf(f, "%127s %31s", name, tier) != 2) return 98;
            g.thorough = std::string(tier) == "thorough";
            std::vector<uint32_t> c; unsigned v;
            while (fscanf(f, "%u", &v) == 1) c.push_back(v);
            fclose(f);
            for (auto& s : scenarios()) if (s.name == name)
            {
                Chooser ch; ch.force(c); uint64_t n = 0;
                bool ok = runOnce(s, ch, n);
                for (auto& t : g.trace) std::printf("  %s\n", t.c_str());
                if (!ok) std::printf("REPRODUCED sig=%s\n  %s\n", g.violations.back().sig.c_str(), g.violations.back().msg.c_str());
                else std::printf("NOT-REPRODUCED\n");
                return ok ? 0 : 1;
            }
            return 98;
        }

        int maxViol = 12;
        for (auto& s : scenarios())
        {
            if (s.thoroughOnly && !g.thorough) continue;
            if (!only.empty() && s.name != only) continue;
            if (g.shared) { std::snprintf(g.shared->scenario, sizeof g.shared->scenario, "%s", s.name.c_str()); g.shared->note[0] = 0; }
            Chooser ch;
            uint64_t n = 0;
            int bad = 0;
            do
            {
                if (!runOnce(s, ch, n) && ++bad >= 2000) break;
            } while (static_cast<int>(g.violations.size()) < maxViol && ch.next());
            g.scen[s.name] += n;
            if (static_cast<int>(g.violations.size()) >= maxViol) break;
        }

        if (!out.empty())
        {
            FILE* f = fopen(out.c_str(), "w");
            std::fprintf(f, "{\"evaluations\":%llu,\"transitions\":%llu,\"traces\":%llu,\"scenarios\":{", (unsigned long long)g.evaluations, (unsigned long long)g.transitions, (unsigned long long)g.traces);
            bool first = true;
            for (auto& [k, v] : g.scen) { std::fprintf(f, "%s%s:%llu", first ? "" : ",", jsonStr(k).c_str(), (unsigned long long)v); first = false; }
            std::fprintf(f, "},\"samples\":[");
            first = true;
            for (auto& s : g.samples) { std::fprintf(f, "%s%s", first ? "" : ",", jsonStr(s).c_str()); first = false; }
            std::fprintf(f, "],\"violations\":[");
            first = true;
            for (auto& v : g.violations)
            {
                std::fprintf(f, "%s{\"scenario\":%s,\"sig\":%s,\"msg\":%s,\"choices\":[", first ? "" : ",", jsonStr(v.scenario).c_str(), jsonStr(v.sig).c_str(), jsonStr(v.msg).c_str());
                for (size_t i = 0; i < v.choices.size(); ++i) std::fprintf(f, "%s%u", i ? "," : "", v.choices[i]);
                std::fprintf(f, "]}");
                first = false;
            }
            std::fprintf(f, "]}\n");
            fclose(f);
            auto dump = [&](const std::string& p, const std::unordered_set<uint64_t>& s) { FILE* h = fopen(p.c_str(), "wb"); for (uint64_t x : s) fwrite(&x, 8, 1, h); fclose(h); };
            dump(out + ".states", g.states);
            dump(out + ".outcomes", g.outcomes);
        }
        return g.violations.empty() ? 0 : 1;
    }
}
// Records live in raw storage of their descriptor's size and are deleted through their base: the size mismatch is not looked at.
#define VH_OPTIONS extern "C" const char* __asan_default_options() { return "detect_leaks=0:new_delete_type_mismatch=0:allocator_may_return_null=0:max_allocation_size_mb=512:exitcode=99:abort_on_error=0:detect_stack_use_after_return=0:quarantine_size_mb=32"; } \
    extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=99"; }
#define VH_MAIN VH_OPTIONS int main(int argc, char** argv) { int rc = vh::run(argc, argv); std::fflush(nullptr); std::_Exit(rc); }
