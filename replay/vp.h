// Common parts of the replay / bounded stand-in harnesses: they run the real library of /repo against executable specifications.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <chrono>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <algorithm>
#include <numeric>
#include <optional>
#include <complex>
#include <csignal>
#include <sys/time.h>
#include <unistd.h>

namespace vp {
    struct Rng {
        uint64_t s;
        explicit Rng(uint64_t seed) : s{seed * 0x9E3779B97F4A7C15ull + 0x1234567} { }
        uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
        /** uniform in [0, n) */
        uint64_t operator()(uint64_t n) { return n ? next() % n : 0; }
        /** uniform in [lo, hi] */
        int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t) (next() % (uint64_t) (hi - lo + 1)); }
        bool coin() { return next() & 1; }
    };

    inline bool thorough = false;
    inline uint64_t seed = 1;
    inline std::map<std::string, uint64_t> cases;
    inline std::map<std::string, int> failures;
    inline std::string current = "start";
    inline std::string current_input;
    inline std::string filter;

    template<class T> std::string str(const T& x) { std::ostringstream s; s << x; return s.str(); }
    template<class C> std::string list(const C& c) { std::ostringstream s; s << "["; bool f = false; for (const auto& x : c) { if (f) s << ","; f = true; s << +x; } s << "]"; return s.str(); }

    inline std::string oneline(std::string s) { for (auto& c : s) if (c == '\n' || c == '\r') c = ' '; return s; }

    /** record one executed case */
    inline void tick(const std::string& what) { ++cases[what]; current = what; }
    inline void input(const std::string& in) { current_input = in; }

    inline void fail(const std::string& what, const std::string& in, const std::string& detail) {
        if (++failures[what] <= 2) std::cout << "FAIL\t" << what << "\t" << oneline(in) << "\t" << oneline(detail) << std::endl;
    }

    inline bool check(bool ok, const std::string& what, const std::function<std::string()>& in, const std::function<std::string()>& detail) {
        ++cases[what];
        if (!ok) fail(what, in(), detail());
        return ok;
    }

    /** cpu seconds one marked case may take */
    inline int limit_s = 60;
    inline void watch() { itimerval t{{0, 0}, {limit_s, 0}}; setitimer(ITIMER_VIRTUAL, &t, nullptr); }
    inline void on_signal(int sig) {
        // report which input crashed; async-signal-unsafe output is acceptable: the process is lost anyway
        std::cout << "FAIL\t" << current << "\t" << oneline(current_input) << (sig == SIGVTALRM ? "\tdoes not end (stopped after " + str(limit_s) + " s)" : "\tcrash: signal " + str(sig)) << std::endl;
        std::cout.flush();
        _exit(3);
    }

    inline int finish() {
        for (auto& [k, v] : cases) std::cout << "CASES\t" << k << "\t" << v << "\n";
        int n = 0; for (auto& [k, v] : failures) n += v;
        std::cout << "DONE\t" << n << std::endl;
        return n ? 1 : 0;
    }

    /** run a group of cases; an escaping exception is a failure of that group */
    inline void group(const std::string& name, const std::function<void()>& f) {
        if (!filter.empty() && name.find(filter) == std::string::npos) return;
        current = name; current_input.clear();
        try { f(); }
        catch (const std::exception& e) { fail(current, current_input, std::string("unexpected exception: ") + e.what()); }
        catch (...) { fail(current, current_input, "unexpected exception"); }
    }

    inline void init(int argc, char** argv) {
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            if (a == "thorough") thorough = true;
            else if (a.rfind("seed=", 0) == 0) seed = std::strtoull(a.c_str() + 5, nullptr, 10);
            else if (a.rfind("only=", 0) == 0) filter = a.substr(5);
        }
        for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM, SIGVTALRM}) std::signal(s, on_signal);
    }
}

#define VP_IN(expr) [&]() -> std::string { std::ostringstream s_; s_ << expr; return s_.str(); }
#define VP_CHECK(cond, what, in, detail) vp::check((cond), (what), VP_IN(in), VP_IN(detail))
/** mark the input now being processed (reported if the code under test crashes or throws) */
#define VP_AT(what, in) do { vp::current = (what); std::ostringstream s_; s_ << in; vp::current_input = s_.str(); vp::watch(); } while (0)
