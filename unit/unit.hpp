// Shared by the component harnesses: protocol on stdout, seeded randomness.
//   <exe> <mode> --dir D (--from A --to B | --seed N) [--trace]
#pragma once
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <condition_variable>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <random>
#include <set>
#include <string>
#include <sys/stat.h>
#include <thread>
#include <unistd.h>
#include <vector>
namespace unit
{
__attribute__((format(printf, 1, 2))) static std::string S(const char* f, ...)
{
    char b[2048];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}
static bool g_trace = false;
static std::atomic<unsigned long long> g_seed{0};
static const char* g_mode = "";
static std::string g_dir = ".";
static std::mutex g_out_lock;
#define TR(...) do { if (unit::g_trace) { std::lock_guard<std::mutex> g_(unit::g_out_lock); printf("  %s\n", unit::S(__VA_ARGS__).c_str()); fflush(stdout); } } while (0)
static std::map<std::string, unsigned long> g_stat;
static std::mutex g_viol_lock;
static std::atomic<int> g_viols{0};
static void stat(const std::string& k, unsigned long n = 1) { std::lock_guard<std::mutex> g(g_viol_lock); g_stat[k] += n; }
static void violate(const char* key, const std::string& msg)
{
    std::lock_guard<std::mutex> g(g_out_lock);
    ++g_viols;
    std::string m = msg;
    for (auto& c : m) if (c == '\n') c = ' ';
    printf("VIOL seed=%llu mode=%s key=%s msg=%s\n", g_seed.load(), g_mode, key, m.c_str());
    fflush(stdout);
}
static uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
{
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}
static uint64_t fnvs(const std::string& s, uint64_t h = 1469598103934665603ull) { return fnv(s.data(), s.size(), h); }
template <typename T> static uint64_t fnvv(T v, uint64_t h) { return fnv(&v, sizeof v, h); }
struct Rng
{
    std::mt19937_64 e;
    explicit Rng(uint64_t s) : e(s * 0x9E3779B97F4A7C15ull + 12345) {}
    uint64_t below(uint64_t n) { return n ? e() % n : 0; }
    uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
    bool chance(double p) { return (e() >> 11) * (1.0 / 9007199254740992.0) < p; }
    std::string bytes(size_t n) { std::string s(n, 0); for (auto& c : s) c = (char)e(); return s; }
    uint64_t word() { switch (below(6)) { case 0: return below(4); case 1: return ~0ull - below(3); case 2: return 1ull << below(64); case 3: return (1ull << below(64)) - 1; case 4: return below(100000); default: return e(); } }
};
static double now()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
// ends the process with a violation unless it is destroyed in time
struct Watchdog
{
    std::mutex m;
    std::condition_variable cv;
    bool done = false;
    std::thread t;
    Watchdog(double secs, const char* key, std::string msg)
        : t([=] {
              std::unique_lock<std::mutex> l(m);
              auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds((long)(secs * 1000));
              while (!done) if (cv.wait_until(l, end) == std::cv_status::timeout && std::chrono::steady_clock::now() >= end) break;
              if (!done) { violate(key, msg); _exit(1); }
          })
    {
    }
    ~Watchdog() { { std::lock_guard<std::mutex> l(m); done = true; } cv.notify_all(); t.join(); }
};
#ifdef UNIT_JITTER
// delays after lock releases; linked with --wrap=pthread_mutex_unlock
static std::atomic<int> g_jitter{0}; // per cent
static uint64_t trand()
{
    static std::atomic<uint64_t> n{1};
    static thread_local uint64_t s = g_seed * 0x9E3779B97F4A7C15ull + n.fetch_add(1) * 7919;
    s ^= s << 13; s ^= s >> 7; s ^= s << 17;
    return s;
}
static void jitter()
{
    int d = g_jitter.load(std::memory_order_relaxed);
    if (!d) return;
    uint64_t x = trand() % 100;
    if ((int)x < d) { if (x % 4 == 0) std::this_thread::sleep_for(std::chrono::microseconds(20 + trand() % 300)); else sched_yield(); }
}
extern "C" int __real_pthread_mutex_unlock(pthread_mutex_t*);
extern "C" int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { int r = __real_pthread_mutex_unlock(m); jitter(); return r; }
#endif
// each mode runs one execution and returns a hash of what was observed; nontrivial=false when nothing of interest happened
struct Out { uint64_t hash = 0; bool nt = true; };
static int drive(int argc, char** argv, const std::map<std::string, std::function<Out(uint64_t)>>& modes)
{
    unsigned long long from = 1, to = 1;
    if (argc < 2) return 3;
    g_mode = argv[1];
    for (int i = 2; i < argc; ++i)
    {
        std::string a = argv[i];
        if (a == "--dir") g_dir = argv[++i];
        else if (a == "--from") from = strtoull(argv[++i], 0, 10);
        else if (a == "--to") to = strtoull(argv[++i], 0, 10);
        else if (a == "--seed") from = to = strtoull(argv[++i], 0, 10);
        else if (a == "--trace") g_trace = true;
    }
    auto it = modes.find(g_mode);
    if (it == modes.end()) return 3;
    for (unsigned long long s = from; s <= to; ++s)
    {
        g_seed = s;
        printf("BEGIN seed=%llu\n", s);
        fflush(stdout);
        int before = g_viols;
        Out o = it->second(s);
        if (g_viols > before) { fflush(stdout); _exit(1); }
        printf("DONE seed=%llu hash=%llx nt=%d\n", s, (unsigned long long)o.hash, o.nt ? 1 : 0);
    }
    std::string l = "STAT";
    {
        std::lock_guard<std::mutex> g(g_viol_lock);
        for (auto& kv : g_stat) l += " " + kv.first + "=" + std::to_string(kv.second);
    }
    printf("%s\n", l.c_str());
    fflush(stdout);
    // services leave detached worker threads behind: no static destructors
    _exit(0);
}
} // namespace unit
