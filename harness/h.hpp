// Search/replay harness support.  Each harness drives the real code (compiled from /repo/src) and
// compares it with an executable oracle written from the property statement.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <string>
#include <vector>
#include <set>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <chrono>
#include <unistd.h>

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

namespace h {
    typedef unsigned long long u64;
    struct State {
        std::string prop, cur, only, replay_only;
        u64 seed, cases, rng;
        double secs;
        std::chrono::steady_clock::time_point t0;
        std::unordered_set<u64> seen;
        std::vector<std::string> samples, known;
        u64 trivial;
        bool thorough;
        volatile u64 tick, last_tick;
    };
    inline State& S() { static State* s = new State(); return *s; }

    inline std::string show(char const* p, size_t n)
    {
        std::string r;
        char b[8];
        for (size_t i = 0; i < n; ++i) {
            unsigned char c = (unsigned char)p[i];
            if (c == '\\') r += "\\\\";
            else if (c == '"') r += "\\\"";
            else if (c == '\n') r += "\\n";
            else if (c < 32 || c >= 127) { std::sprintf(b, "\\x%02x", c); r += b; }
            else r += (char)c;
        }
        return r;
    }
    inline std::string show(std::string const& s) { return "\"" + show(s.data(), s.size()) + "\""; }
    inline std::string show(bool b) { return b ? "true" : "false"; }
    inline std::string show(long long x) { return std::to_string(x); }
    inline std::string show(u64 x) { return std::to_string(x); }
    inline std::string show(int x) { return std::to_string(x); }
    inline std::string show(unsigned x) { return std::to_string(x); }
    inline std::string show(long x) { return std::to_string(x); }
    inline std::string show(unsigned long x) { return std::to_string(x); }

    inline void report()
    {
        State& s = S();
        std::printf("CASES %llu DISTINCT %llu\n", s.cases, (u64)s.seen.size());
        for (size_t i = 0; i < s.samples.size(); ++i) std::printf("SAMPLE %s\n", s.samples[i].c_str());
        std::fflush(stdout);
    }
    inline void die_note(char const* what)
    {
        std::printf("FAIL %s | case: %s\n", what, S().cur.c_str());
        std::printf("CASES %llu DISTINCT %llu\n", S().cases, (u64)S().seen.size());
        std::fflush(stdout);
    }
    inline void on_death() { die_note("the code crashed (sanitizer report on stderr)"); }
    inline void on_signal(int sig)
    {
        if (sig == SIGALRM) {
            if (S().tick == S().last_tick) { die_note("the code did not terminate within 30 s"); _exit(1); }
            S().last_tick = S().tick;
            alarm(30);
            return;
        }
        die_note(sig == SIGABRT ? "the code aborted (assertion or uncaught exception, see stderr)" : "the code crashed with a signal");
        _exit(1);
    }

    // start one case; "text" describes the input completely
    inline void begin(std::string const& text, bool trivial = false)
    {
        State& s = S();
        s.cur = text;
        ++s.cases;
        s.tick = s.tick + 1;
        if (!trivial && s.seen.size() < 2000000) s.seen.insert(std::hash<std::string>()(text));
        if (s.cases == 1 || s.cases == 20 || s.cases == 300 || s.cases == 5000 || s.cases == 70000) s.samples.push_back(text);
    }
    inline void fail(std::string const& what)
    {
        State& s = S();
        for (size_t i = 0; i < s.known.size(); ++i)
            if (!s.known[i].empty() && s.cur.find(s.known[i]) != std::string::npos) { std::printf("KNOWN %s\n", s.known[i].c_str()); return; }
        std::printf("FAIL %s | case: %s\n", what.c_str(), s.cur.c_str());
        report();
        std::exit(1);
    }
    template <class A, class B> inline void eq(A const& got, B const& want, char const* what)
    {
        if (!(got == want)) fail(std::string(what) + ": got " + show(got) + ", expected " + show(want));
    }
    inline void ok(bool b, char const* what)
    {
        if (!b) fail(what);
    }

    inline u64 rnd()
    {
        u64 z = (S().rng += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    inline unsigned below(unsigned n) { return n ? (unsigned)(rnd() % n) : 0; }
    inline bool chance(unsigned pct) { return below(100) < pct; }
    // the clock of the random phase starts at its first call
    inline bool time_left()
    {
        static bool started = false;
        if (!started) { started = true; S().t0 = std::chrono::steady_clock::now(); }
        return std::chrono::duration<double>(std::chrono::steady_clock::now() - S().t0).count() < S().secs;
    }
    inline double elapsed_fraction()
    {
        return std::chrono::duration<double>(std::chrono::steady_clock::now() - S().t0).count() / S().secs;
    }
    inline std::string rstr(std::string const& alphabet, unsigned maxlen)
    {
        std::string r;
        unsigned n = below(maxlen + 1);
        for (unsigned i = 0; i < n; ++i) r += alphabet[below(alphabet.size())];
        return r;
    }
    // concatenation of random pieces
    inline std::string rpieces(std::vector<std::string> const& ps, unsigned maxn)
    {
        std::string r;
        unsigned n = below(maxn + 1);
        for (unsigned i = 0; i < n; ++i) r += ps[below(ps.size())];
        return r;
    }
    // all strings over the alphabet up to length n
    inline void all(std::string const& alphabet, unsigned n, std::function<void(std::string const&)> const& f)
    {
        std::string s;
        f(s);
        for (unsigned len = 1; len <= n; ++len) {
            std::vector<size_t> ix(len, 0);
            s.assign(len, alphabet[0]);
            for (;;) {
                f(s);
                int i = (int)len - 1;
                while (i >= 0 && ++ix[i] == alphabet.size()) { ix[i] = 0; s[i] = alphabet[0]; --i; }
                if (i < 0) break;
                s[i] = alphabet[ix[i]];
            }
        }
    }
    // an exactly sized heap copy: reading one character past the end is an ASan error
    struct Buf {
        char* p; size_t n;
        explicit Buf(std::string const& s) : p((char*)std::malloc(s.size() ? s.size() : 1)), n(s.size()) { if (n) std::memcpy(p, s.data(), n); if (!n) { std::free(p); p = (char*)std::malloc(0); } }
        ~Buf() { std::free(p); }
        char const* begin() const { return p; }
        char const* end() const { return p + n; }
    private: Buf(Buf const&); Buf& operator=(Buf const&);
    };

    inline void init(int argc, char** argv)
    {
        State& s = S();
        s.seed = 1; s.secs = 10; s.cases = 0; s.trivial = 0; s.thorough = false; s.tick = s.last_tick = 0;
        for (int i = 1; i + 1 < argc; i += 2) {
            std::string k = argv[i], v = argv[i + 1];
            if (k == "--seed") s.seed = std::strtoull(v.c_str(), 0, 10);
            else if (k == "--secs") s.secs = std::atof(v.c_str());
            else if (k == "--prop") s.prop = v;
            else if (k == "--thorough") s.thorough = v == "1";
            else if (k == "--known") s.known.push_back(v);
        }
        s.rng = s.seed * 0x1234567ull + 77;
        s.t0 = std::chrono::steady_clock::now();
        if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
        std::signal(SIGABRT, on_signal);
        std::signal(SIGALRM, on_signal);
        alarm(30);
    }
    inline bool is(char const* p) { return S().prop == p; }
}
