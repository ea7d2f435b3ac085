// Shared by the drivers: an event log (one JSON object per line) that survives a crash.
#pragma once
#include <atomic>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/time.h>
#include <unistd.h>
#include <vector>

namespace vk {

inline int     fd = -1;
inline char    intent[4096] = "";
inline char    buf[1 << 20];
inline size_t  used = 0;
inline bool    dead = false;
inline int     episode = 0;

inline void flush() {
    size_t o = 0;
    while (o < used) {
        ssize_t k = ::write(fd, buf + o, used - o);
        if (k <= 0) break;
        o += k;
    }
    used = 0;
}

inline void put(const char* s, size_t n) {
    if (used + n > sizeof(buf)) flush();
    if (n > sizeof(buf)) n = sizeof(buf);
    memcpy(buf + used, s, n);
    used += n;
}

inline void on_crash(int sig) {
    if (dead) _exit(3);
    dead = true;
    char m[5000];
    int n = snprintf(m, sizeof m, "{\"ep\":%d,\"op\":\"CRASH\",\"why\":\"signal %d during %s\"}\n", episode, sig, intent);
    put(m, n);
    flush();
    _exit(3);
}

/// what is about to be called; shown if the call does not come back. Quotes are not allowed.
inline void about(const std::string& s) {
    size_t n = s.size() < 4000 ? s.size() : 4000;
    memcpy(intent, s.data(), n);
    intent[n] = 0;
    for (size_t i = 0; i < n; ++i) if (intent[i] == '"') intent[i] = '\'';
    // a call that takes this long hangs
    itimerval tv{{0, 0}, {20, 0}};
    setitimer(ITIMER_REAL, &tv, nullptr);
}

inline void open() {
    const char* p = getenv("TRACE_OUT");
    fd = p ? ::open(p, O_CREAT | O_TRUNC | O_WRONLY, 0644) : 1;
    static char alt[1 << 16];
    stack_t ss{};
    ss.ss_sp = alt; ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM, SIGTERM}) {
        struct sigaction sa{};
        sa.sa_handler = on_crash;
        sa.sa_flags = SA_ONSTACK;
        sigaction(s, &sa, nullptr);
    }
}

inline void close() {
    const char* e = "{\"ep\":0,\"op\":\"END\"}\n";
    put(e, strlen(e));
    flush();
}

/// Numbers for TLC, which counts in 32-bit integers. A value that is not exactly a multiple of 1/scale,
/// not finite or beyond the limit marks the event as carrying a number its scenario cannot produce.
inline bool odd_number = false;
inline long long exact(double v, double scale = 1, double limit = 1e6) {
    double x = v * scale;
    if (!(std::abs(x) <= limit) || x != std::floor(x)) { odd_number = true; return 0; }
    return (long long)x;
}
/// fixed point, rounded
inline long long fixed(double v, double scale, double limit = 1e6) {
    double x = v * scale;
    if (!(std::abs(x) <= limit)) { odd_number = true; return 0; }
    return std::llround(x);
}

/// One JSON object.
struct Ev {
    std::string s;
    bool first = true;
    Ev(const char* op) {
        s = "{";
        kv("ep", (long long)episode);
        kv("op", op);
    }
    void key(const char* k) {
        if (!first) s += ",";
        first = false;
        s += "\""; s += k; s += "\":";
    }
    Ev& kv(const char* k, long long v) { key(k); s += std::to_string(v); return *this; }
    Ev& kv(const char* k, long v) { return kv(k, (long long)v); }
    Ev& kv(const char* k, int v) { return kv(k, (long long)v); }
    Ev& kv(const char* k, size_t v) { return kv(k, (long long)v); }
    Ev& kv(const char* k, bool v) { key(k); s += v ? "true" : "false"; return *this; }
    Ev& kv(const char* k, const char* v) { key(k); s += "\""; s += v; s += "\""; return *this; }
    Ev& kv(const char* k, const std::string& v) { return kv(k, v.c_str()); }
    static void emit(std::string& s, long long v) { s += std::to_string(v); }
    static void emit(std::string& s, long v) { s += std::to_string(v); }
    static void emit(std::string& s, int v) { s += std::to_string(v); }
    static void emit(std::string& s, bool v) { s += v ? "true" : "false"; }
    static void emit(std::string& s, const std::string& v) { s += "\"" + v + "\""; }
    template <typename X> static void emit(std::string& s, const std::vector<X>& v) {
        s += "[";
        for (size_t i = 0; i < v.size(); ++i) { if (i) s += ","; X x = v[i]; emit(s, x); }
        s += "]";
    }
    template <typename X> Ev& kv(const char* k, const std::vector<X>& v) { key(k); emit(s, v); return *this; }
    /// a value already in JSON
    Ev& raw(const char* k, const std::string& json) { key(k); s += json; return *this; }
    void done() {
        if (odd_number) kv("nan", 1);
        odd_number = false;
        s += "}\n";
        put(s.data(), s.size());
    }
};

/// small deterministic generator (independent of the library under test)
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int in(int lo, int hi) { return lo + (int)(next() % (uint64_t)(hi - lo + 1)); }
    bool chance(int pct) { return in(0, 99) < pct; }
};

} // namespace vk
