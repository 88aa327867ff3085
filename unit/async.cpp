// Asynchronous results (C19): ledger of registrations, completions and waits.
//   ctl: interleavings chosen by the controlled runtime (built with -DCTL and sim/simrt.cpp); real: real threads
#include "unit.hpp"
#include <sys/wait.h>
#include "cornerstone.hxx"
#ifdef CTL
#include "../sim/simrt.hpp"
#endif
using namespace cornerstone;
using namespace unit;

struct Exec
{
    virtual ~Exec() {}
    virtual void spawn(std::function<void()> f) = 0;
    virtual bool finish() = 0;   // false: somebody is blocked for ever
    virtual void pause() = 0;
    virtual std::string blocked() { return ""; }
    virtual uint64_t hash() { return 0; }
};
template <typename T> struct Maker;
template <> struct Maker<bool> { static bool make(Rng& r) { return r.chance(0.6); } static std::string show(bool b) { return b ? "true" : "false"; } static bool none() { return false; } };
template <> struct Maker<std::string> { static std::string make(Rng& r) { return "value-" + std::to_string(r.below(1000)) + std::string(r.below(60), 'v'); } static std::string show(const std::string& s) { return s; } static std::string none() { return ""; } };
template <> struct Maker<ptr<int>> { static ptr<int> make(Rng& r) { return cs_new<int>((int)r.below(1000)); } static std::string show(const ptr<int>& s) { return s ? S("object %p", (void*)s.get()) : "none"; } static ptr<int> none() { return ptr<int>(); } };

struct Ledger
{
    std::mutex l;
    int sets = 0, registered = 0, waits = 0, returned = 0;
    std::vector<std::string> problems;
    std::string order;
    void note(char c) { std::lock_guard<std::mutex> g(l); order += c; }
    void problem(const std::string& s) { std::lock_guard<std::mutex> g(l); problems.push_back(s); }
};
template <typename T> static Out scenario(uint64_t seed, Exec& ex)
{
    typedef async_result<T> R;
    Rng r(seed);
    auto led = std::make_shared<Ledger>();
    T value = Maker<T>::make(r);
    ptr<std::exception> err;
    if (r.chance(0.35)) err = cs_new<std::runtime_error>("failed");
    const bool with_err = err != nullptr;
    if (with_err && r.chance(0.5)) value = Maker<T>::none();
    int nh = 1; // handlers that are to run
    auto runs = std::make_shared<std::vector<int>>(4, 0);
    int variant = (int)r.below(8); // 0: made with the value, 1: made with the handler, others: registered
    bool throws = variant != 0 && r.chance(0.15), nested = r.chance(0.2), wants_waiter = !throws && r.chance(0.15);
    int waiters = (int)r.below(4);
    if (wants_waiter && waiters == 0) waiters = 1;
    auto done_waits = std::make_shared<std::atomic<int>>(0);
    ptr<R> res;
    auto raw = std::make_shared<R*>(nullptr);
    auto same_err = [err](const ptr<std::exception>& e) { return e == err; };
    auto mk = [=, &ex](int id, bool first) {
        return typename R::handler_type([=, &ex](T& v, const ptr<std::exception>& e) {
            { std::lock_guard<std::mutex> g(led->l); (*runs)[id]++; led->order += 'h'; if (led->sets == 0) led->problems.push_back("a handler ran before a result was set"); }
            if (!(v == value)) led->problem("a handler was given " + Maker<T>::show(v) + " instead of " + Maker<T>::show(value));
            if (!same_err(e)) led->problem(e ? "a handler was given an error that was not set" : "a handler was not given the error");
            if (first && nested)
            {
                try { T& g = (*raw)->get(); if (!(g == value) || with_err) led->problem("get() inside the handler returned something else than what was set"); }
                catch (const ptr<std::exception>& x) { if (!with_err || x != err) led->problem("get() inside the handler threw something else than what was set"); }
            }
            if (first && wants_waiter) while (done_waits->load() < waiters) ex.pause();
            if (first && throws) throw std::logic_error("handler");
        });
    };
    std::shared_ptr<typename R::handler_type> h0 = std::make_shared<typename R::handler_type>(mk(0, true));
    bool preset = variant == 0;
    if (preset)
    {
        err.reset();
        T v2 = value;
        res = cs_new<R>(v2);
        led->sets = 1;
    }
    else if (variant == 1) { res = cs_new<R>(*h0); led->registered = 1; }
    else res = cs_new<R>();
    // a value made with the constructor has no error
    const bool expect_err = with_err && !preset;
    if (preset && with_err) return scenario<T>(seed + 1000003, ex);
    *raw = res.get();
    auto wait1 = [=]() {
        { std::lock_guard<std::mutex> g(led->l); led->waits++; led->order += 'w'; }
        try
        {
            T& g = res->get();
            if (expect_err) led->problem("a waiter got a value although an error was set");
            else if (!(g == value)) led->problem("a waiter got " + Maker<T>::show(g) + " instead of " + Maker<T>::show(value));
        }
        catch (const ptr<std::exception>& x) { if (!expect_err) led->problem("a waiter got an error although a value was set"); else if (x != err) led->problem("a waiter got another error"); }
        { std::lock_guard<std::mutex> g(led->l); led->returned++; led->order += 'r'; if (led->sets == 0) led->problems.push_back("a waiter returned before a result was set"); }
        ++*done_waits;
    };
    std::vector<std::function<void()>> th;
    if (!preset)
        th.push_back([=, &ex]() {
            ex.pause();
            { std::lock_guard<std::mutex> g(led->l); led->sets = 1; led->order += 's'; }
            T v = value;
            ptr<std::exception> e = err;
            try { res->set_result(v, e); } catch (const std::logic_error&) {}
            led->note('S');
        });
    if (variant != 1)
        th.push_back([=, &ex]() {
            ex.pause();
            { std::lock_guard<std::mutex> g(led->l); led->registered = 1; led->order += 'g'; }
            try { res->when_ready(*h0); } catch (const std::logic_error&) {}
            led->note('G');
        });
    for (int i = 0; i < waiters; ++i) th.push_back([=, &ex]() { ex.pause(); wait1(); });
    std::shuffle(th.begin(), th.end(), r.e);
    for (auto& f : th) ex.spawn(f);
    if (!ex.finish())
    {
        std::lock_guard<std::mutex> g(led->l);
        violate("lost-result", S("the result was set, yet a thread waits for ever (%d waiting, %d returned, events %s)%s%s", led->waits, led->returned, led->order.c_str(), throws ? ", the handler throws" : wants_waiter ? ", the handler waits for the waiters" : "", ex.blocked().c_str()));
        return {0};
    }
    // afterwards: a late waiter, and sometimes a late registration
    bool late = r.chance(0.3);
    ex.spawn([=]() { wait1(); if (late) res->when_ready(mk(1, false)); });
    if (!ex.finish()) { violate("lost-result", "waiting for, or registering with, a result that is set already blocks"); return {0}; }
    if (late) nh = 2;
    std::lock_guard<std::mutex> g(led->l);
    for (auto& p : led->problems) violate("wrong-result", p + " (events " + led->order + ")");
    for (int i = 0; i < nh; ++i)
        if ((*runs)[i] != 1) violate("handler-count", S("a handler registered %s ran %d times (variant %d, events %s)", i ? "after the result was set" : "once", (*runs)[i], variant, led->order.c_str()));
    if (led->returned != waiters + 1) violate("waiter-count", S("%d of %d waiters returned", led->returned, waiters + 1));
    stat("handlers_run", nh);
    stat("waits", led->waits);
    uint64_t h = fnvs(led->order, ex.hash());
    return {fnvv(variant, h)};
}
static Out any(uint64_t seed, Exec& ex)
{
    switch (seed % 3) { case 0: return scenario<bool>(seed, ex); case 1: return scenario<std::string>(seed, ex); default: return scenario<ptr<int>>(seed, ex); }
}
#ifdef CTL
struct CtlExec : Exec
{
    bool bad = false;
    std::string b;
    int live = 0;
    void spawn(std::function<void()> f) override { ++live; simrt::spawn([this, f] { f(); --live; }, 1); }
    bool finish() override
    {
        for (int i = 0; i < 100000; ++i)
        {
            simrt::RunResult x = simrt::run_others();
            if (live == 0) return true;
            if (x == simrt::IDLE)
            {
                int64_t d = simrt::next_deadline();
                if (d == INT64_MAX) { b = simrt::describe_blocked(1); return false; }
                simrt::set_now(d);
            }
            if (x == simrt::BUDGET) { b = "(spinning)"; return false; }
        }
        b = "(spinning)";
        return false;
    }
    void pause() override { usleep(10); }
    std::string blocked() override { return b; }
    uint64_t hash() override { return simrt::sched_hash(); }
};
static Out run_ctl(uint64_t seed)
{
    // a process of its own, as the runtime keeps its threads
    int pfd[2];
    if (pipe(pfd)) exit(3);
    fflush(stdout);
    pid_t p = fork();
    if (p == 0)
    {
        Rng r(seed ^ 0x5555);
        simrt::init(seed);
        simrt::set_switch_prob(r.chance(0.5) ? 0.5 : 0.15);
        simrt::set_spurious_prob(r.chance(0.3) ? 0.2 : 0);
        simrt::set_overlap_prob(r.chance(0.3) ? 0.05 : 0);
        CtlExec ex;
        Out o = any(seed, ex);
        fflush(stdout);
        if (write(pfd[1], &o, sizeof o) != sizeof o || write(pfd[1], "", 1) != 1) _exit(3);
        unsigned long st[2];
        { std::lock_guard<std::mutex> g(g_viol_lock); st[0] = g_stat["handlers_run"]; st[1] = g_stat["waits"]; }
        if (write(pfd[1], st, sizeof st) != sizeof st) _exit(3);
        _exit(g_viols ? 1 : 0);
    }
    close(pfd[1]);
    Out o;
    char c;
    unsigned long st[2] = {0, 0};
    if (read(pfd[0], &o, sizeof o) == sizeof o && read(pfd[0], &c, 1) == 1 && read(pfd[0], st, sizeof st) == sizeof st) { stat("handlers_run", st[0]); stat("waits", st[1]); }
    close(pfd[0]);
    int ws = 0;
    waitpid(p, &ws, 0);
    if (WIFEXITED(ws) && WEXITSTATUS(ws) == 0) return o;
    if (WIFEXITED(ws) && WEXITSTATUS(ws) == 1) { ++g_viols; return o; }
    violate("crash", S("the process ended with status %x", ws));
    return o;
}
int main(int argc, char** argv) { return drive(argc, argv, {{"ctl", run_ctl}}); }
#else
struct RealExec : Exec
{
    std::vector<std::thread> ts;
    std::atomic<int> live{0};
    std::atomic<int> gate{0};
    void spawn(std::function<void()> f) override
    {
        ++live;
        ts.emplace_back([this, f] { f(); --live; });
    }
    bool finish() override
    {
        double t0 = now();
        while (live.load() && now() - t0 < 30) { if (now() - t0 > 0.01) usleep(200); else std::this_thread::yield(); }
        if (live.load()) return false;
        for (auto& t : ts) t.join();
        ts.clear();
        return true;
    }
    void pause() override
    {
        static thread_local std::mt19937 g(std::hash<std::thread::id>()(std::this_thread::get_id()) ^ (unsigned)g_seed);
        unsigned n = g() % 4;
        if (n == 0) return;
        if (n == 1) { usleep(g() % 60); return; }
        for (volatile unsigned i = 0; i < g() % 3000; ++i) {}
    }
};
static Out run_real(uint64_t seed)
{
    uint64_t h = 0;
    for (int i = 0; i < 10; ++i)
    {
        RealExec ex;
        h ^= any(seed * 10 + i, ex).hash * (i * 2 + 1);
        if (g_viols) { fflush(stdout); _exit(1); }
    }
    return {h};
}
int main(int argc, char** argv) { return drive(argc, argv, {{"real", run_real}}); }
#endif
