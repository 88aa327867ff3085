#include "simrt.hpp"
#include <atomic>
#include <cerrno>
#include <chrono>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <vector>

namespace simrt
{
struct Th
{
    int id = 0;
    int group = 0;
    bool runnable = true;
    bool frozen = false;
    bool ended = false;
    bool driver = false;
    int kind = K_NONE;
    void* obj = nullptr;
    int64_t deadline = INT64_MAX;
    bool timed_out = false;
    std::atomic<uint32_t> sem{0};
    std::function<void()> fn;
    pthread_t real{};
    void* idle_obj = nullptr;
};

struct Lock
{
    Th* owner = nullptr; // exclusive owner
    int count = 0;       // recursion
    int readers = 0;
    int waiters = 0;
    std::vector<Th*> rd;
};

static bool g_active = false;
static Rng g_rng(1);
static std::vector<Th*> g_all;
static Th* g_driver = nullptr;
static thread_local Th* g_me = nullptr;
static int64_t g_now = 0;
static double g_psw = 0.1, g_pov = 0.0, g_pspur = 0.0;
static uint64_t g_steps = 0, g_switches = 0, g_hash = 1469598103934665603ull;
static uint64_t g_budget = 0;
static std::unordered_map<void*, Lock>* g_locks;

static void futex_wait(std::atomic<uint32_t>& f)
{
    while (f.load() == 0)
        syscall(SYS_futex, (uint32_t*)&f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    f.store(0);
}
static void futex_post(std::atomic<uint32_t>& f)
{
    f.store(1);
    syscall(SYS_futex, (uint32_t*)&f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

bool active() { return g_active; }
Rng& rng() { return g_rng; }
int64_t now_us() { return g_now; }
Th* self() { return g_me; }
int self_group() { return g_me ? g_me->group : 0; }
int self_id() { return g_me ? g_me->id : -1; }
int group_of(Th* t) { return t->group; }
bool is_frozen(Th* t) { return t->frozen; }
void set_group(int g) { if (g_me) g_me->group = g; }
void set_switch_prob(double p) { g_psw = p; }
void set_overlap_prob(double p) { g_pov = p; }
void set_spurious_prob(double p) { g_pspur = p; }
uint64_t steps() { return g_steps; }
uint64_t switches() { return g_switches; }
uint64_t sched_hash() { return g_hash; }

static inline bool ctl() { return g_active && g_me && !g_me->ended; }

static std::vector<Th*> g_cand;
static Th* pick_other()
{
    g_cand.clear();
    for (Th* t : g_all)
        if (t->runnable && !t->frozen && !t->ended && !t->driver) g_cand.push_back(t);
    if (g_cand.empty()) return nullptr;
    return g_cand[g_rng.below(g_cand.size())];
}

static void transfer(Th* to, bool wait_self = true)
{
    Th* me = g_me;
    if (to == me) return;
    ++g_switches;
    g_hash = (g_hash ^ (uint64_t)(to->id + 1)) * 1099511628211ull;
    futex_post(to->sem);
    if (wait_self) futex_wait(me->sem);
}

// current thread cannot continue (blocked, frozen or ended)
static void switch_away(bool wait_self = true)
{
    Th* n = pick_other();
    if (n == nullptr || (n != g_me && g_pov > 0 && g_rng.chance(g_pov))) n = g_driver;
    if (n == g_driver && !g_driver->runnable)
    {
        fprintf(stderr, "simrt: driver blocked and nothing runnable\n");
        _exit(97);
    }
    if (n == g_me)
    {
        return; // became runnable again
    }
    transfer(n, wait_self);
}

void point()
{
    if (!ctl() || g_me->driver) return;
    ++g_steps;
    if (g_me->frozen) { g_me->runnable = false; switch_away(); }
    if (g_steps > g_budget && g_budget) { transfer(g_driver); return; }
    if (g_pov > 0 && g_rng.chance(g_pov)) { transfer(g_driver); return; }
    if (g_rng.chance(g_psw))
    {
        Th* n = pick_other();
        if (n && n != g_me) transfer(n);
    }
}

static bool block_on(int kind, void* obj, int64_t deadline = INT64_MAX)
{
    Th* me = g_me;
    me->runnable = false;
    me->kind = kind;
    me->obj = obj;
    me->deadline = deadline;
    me->timed_out = false;
    ++g_steps;
    switch_away();
    me->kind = K_NONE;
    me->obj = nullptr;
    me->deadline = INT64_MAX;
    return me->timed_out;
}

static void wake(int kind, void* obj, int n = INT_MAX)
{
    if (n == INT_MAX)
    {
        for (Th* t : g_all)
            if (!t->runnable && !t->ended && t->kind == kind && t->obj == obj) t->runnable = true;
        return;
    }
    std::vector<Th*> w;
    for (Th* t : g_all)
        if (!t->runnable && !t->ended && !t->frozen && t->kind == kind && t->obj == obj) w.push_back(t);
    while (n-- > 0 && !w.empty())
    {
        size_t i = g_rng.below(w.size());
        w[i]->runnable = true;
        w.erase(w.begin() + i);
    }
}

void user_block(void* obj) { block_on(K_USER, obj); }
void set_idle_obj(void* o) { g_me->idle_obj = o; }
void user_wake(void* obj) { wake(K_USER, obj); }

void set_now(int64_t us)
{
    if (us > g_now) g_now = us;
    for (Th* t : g_all)
        if (!t->runnable && !t->ended && !t->frozen && t->deadline <= g_now)
        {
            t->timed_out = true;
            t->deadline = INT64_MAX;
            t->runnable = true;
        }
}
int64_t next_deadline()
{
    int64_t m = INT64_MAX;
    for (Th* t : g_all)
        if (!t->runnable && !t->ended && !t->frozen && t->deadline < m) m = t->deadline;
    return m;
}

void freeze_group(int g)
{
    for (Th* t : g_all)
        if (t->group == g && !t->driver) t->frozen = true;
    if (g_me && g_me->frozen)
    {
        g_me->runnable = false;
        switch_away();
    }
}
int group_threads(int g)
{
    int n = 0;
    for (Th* t : g_all)
        if (t->group == g && !t->frozen && !t->ended && !t->driver) ++n;
    return n;
}
bool group_has_blocked(int g)
{
    for (Th* t : g_all)
        if (t->group == g && !t->frozen && !t->ended && !t->runnable && t->kind != K_USER) return true;
    return false;
}
void park_forever()
{
    g_me->frozen = true;
    g_me->runnable = false;
    switch_away();
    _exit(96);
}

RunResult run_others()
{
    g_budget = g_steps + 3000000;
    if (g_pspur > 0 && g_rng.chance(g_pspur))
    {
        std::vector<Th*> w;
        for (Th* t : g_all)
            if (!t->runnable && !t->ended && !t->frozen && t->kind == K_COND) w.push_back(t);
        if (!w.empty()) w[g_rng.below(w.size())]->runnable = true;
    }
    Th* n = pick_other();
    if (!n) return IDLE;
    transfer(n);
    if (g_steps > g_budget) return BUDGET;
    return pick_other() ? OVERLAP : IDLE;
}

std::string find_lock_deadlock()
{
    for (Th* t : g_all)
    {
        if (t->runnable || t->frozen || t->ended || t->driver) continue;
        if (t->kind != K_MUTEX && t->kind != K_RW) continue;
        std::vector<Th*> seen;
        Th* c = t;
        std::string s;
        while (c && !c->runnable && !c->frozen && !c->ended && (c->kind == K_MUTEX || c->kind == K_RW))
        {
            bool cyc = false;
            for (Th* x : seen) if (x == c) cyc = true;
            if (cyc) return "lock cycle:" + s;
            seen.push_back(c);
            s += " thread" + std::to_string(c->id) + "(group " + std::to_string(c->group) + ")";
            auto it = g_locks->find(c->obj);
            if (it == g_locks->end()) break;
            Th* o = it->second.owner;
            if (!o && !it->second.rd.empty()) o = it->second.rd[0];
            if (o && o->ended) return "lock held by an ended thread:" + s;
            if (o && !o->runnable && o->kind == K_USER && o->obj == (void*)o->idle_obj && o->idle_obj) return "lock never released by a finished handler:" + s;
            c = o;
        }
    }
    return "";
}
bool mutex_is_held_by_group(int g)
{
    for (auto& kv : *g_locks)
    {
        if (kv.second.owner && kv.second.owner->group == g) return true;
        for (Th* r : kv.second.rd) if (r->group == g) return true;
    }
    return false;
}
std::string describe_blocked(int group)
{
    std::string s;
    for (Th* t : g_all)
        if (!t->ended && !t->frozen && !t->driver && (group < 0 || t->group == group))
        {
            static const char* kn[] = {"?", "mutex", "rwlock", "condvar", "sleep", "join", "harness"};
            s += " [thread" + std::to_string(t->id) + " g" + std::to_string(t->group) + " " +
                 (t->runnable ? "runnable" : kn[t->kind]) + "]";
        }
    return s;
}

typedef int (*create_t)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
template <typename T> static T real(const char* name)
{
    void* p = dlsym(RTLD_NEXT, name);
    if (!p) { fprintf(stderr, "simrt: no %s\n", name); _exit(98); }
    return (T)p;
}

struct Start { Th* t; void* (*fn)(void*); void* arg; };

static void* tramp(void* p)
{
    Start* s = (Start*)p;
    Th* t = s->t;
    g_me = t;
    futex_wait(t->sem);
    void* r = nullptr;
    if (s->fn) r = s->fn(s->arg); else t->fn();
    delete s;
    // end
    t->ended = true;
    t->runnable = false;
    wake(K_JOIN, t);
    Th* n = pick_other();
    if (!n) n = g_driver;
    ++g_switches;
    futex_post(n->sem);
    return r;
}

static int make_thread(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg, Th* t)
{
    static create_t rc = real<create_t>("pthread_create");
    t->id = (int)g_all.size();
    g_all.push_back(t);
    Start* s = new Start{t, fn, arg};
    pthread_attr_t a;
    pthread_attr_init(&a);
    if (attr) { int d; pthread_attr_getdetachstate(attr, &d); pthread_attr_setdetachstate(&a, d); }
    pthread_attr_setstacksize(&a, 512 * 1024);
    int rv = rc(out, &a, tramp, s);
    t->real = *out;
    pthread_attr_destroy(&a);
    return rv;
}

Th* spawn(std::function<void()> f, int group)
{
    Th* t = new Th;
    t->fn = std::move(f);
    t->group = group;
    pthread_t p;
    make_thread(&p, nullptr, nullptr, nullptr, t);
    return t;
}

void init(uint64_t seed)
{
    g_rng = Rng(seed);
    g_locks = new std::unordered_map<void*, Lock>();
    Th* t = new Th;
    t->driver = true;
    t->group = 0;
    g_driver = t;
    g_all.push_back(t);
    g_me = t;
    g_active = true;
    g_now = 0;
}
} // namespace simrt

using namespace simrt;

// ---------------------------------------------------------------- mutex
static bool try_acquire_mutex(Lock& l, bool recursive)
{
    if (l.owner == nullptr && l.readers == 0) { l.owner = g_me; l.count = 1; return true; }
    if (l.owner == g_me && recursive) { l.count++; return true; }
    return false;
}
static void drop_if_unused(void* k)
{
    auto it = g_locks->find(k);
    if (it != g_locks->end() && !it->second.owner && !it->second.readers && !it->second.waiters) g_locks->erase(it);
}
static int ctl_mutex_lock(pthread_mutex_t* m, int64_t deadline = INT64_MAX)
{
    bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
    for (;;)
    {
        Lock& l = (*g_locks)[m];
        if (try_acquire_mutex(l, rec)) return 0;
        l.waiters++;
        bool to = block_on(K_MUTEX, m, deadline);
        (*g_locks)[m].waiters--;
        if (to) { drop_if_unused(m); return ETIMEDOUT; }
    }
}
static int ctl_mutex_unlock(pthread_mutex_t* m)
{
    auto it = g_locks->find(m);
    if (it == g_locks->end() || it->second.owner != g_me)
    {
        // a frozen incarnation may have been the owner; unlocking what one does not own is UB
        return EPERM;
    }
    if (--it->second.count > 0) return 0;
    it->second.owner = nullptr;
    if (it->second.waiters == 0) g_locks->erase(it); else wake(K_MUTEX, m);
    return 0;
}

static int64_t ts_to_us(clockid_t c, const struct timespec* ts)
{
    (void)c;
    return (int64_t)ts->tv_sec * 1000000 + ts->tv_nsec / 1000;
}
// virtual clocks: system and steady share the same virtual origin
static const int64_t SYS_EPOCH_US = 1700000000ll * 1000000;

extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!ctl()) { static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock"); return r(m); }
    point();
    return ctl_mutex_lock(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!ctl()) { static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock"); return r(m); }
    point();
    bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
    Lock& l = (*g_locks)[m];
    return try_acquire_mutex(l, rec) ? 0 : EBUSY;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts)
{
    if (!ctl()) { static auto r = real<int (*)(pthread_mutex_t*, const struct timespec*)>("pthread_mutex_timedlock"); return r(m, ts); }
    point();
    return ctl_mutex_lock(m, ts_to_us(CLOCK_REALTIME, ts) - SYS_EPOCH_US);
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t c, const struct timespec* ts)
{
    if (!ctl()) { static auto r = real<int (*)(pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_mutex_clocklock"); return r(m, c, ts); }
    point();
    return ctl_mutex_lock(m, ts_to_us(c, ts) - SYS_EPOCH_US);
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!ctl()) { static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock"); return r(m); }
    int rv = ctl_mutex_unlock(m);
    point();
    return rv;
}

// ---------------------------------------------------------------- rwlock (reader preference, as glibc's default)
int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if (!ctl()) { static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock"); return r(m); }
    point();
    for (;;)
    {
        Lock& l = (*g_locks)[m];
        if (l.owner == nullptr) { l.readers++; l.rd.push_back(g_me); return 0; }
        l.waiters++;
        block_on(K_RW, m);
        (*g_locks)[m].waiters--;
    }
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m)
{
    if (!ctl()) { static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_tryrdlock"); return r(m); }
    point();
    Lock& l = (*g_locks)[m];
    if (l.owner == nullptr) { l.readers++; l.rd.push_back(g_me); return 0; }
    return EBUSY;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if (!ctl()) { static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock"); return r(m); }
    point();
    for (;;)
    {
        Lock& l = (*g_locks)[m];
        if (l.owner == nullptr && l.readers == 0) { l.owner = g_me; l.count = 1; return 0; }
        l.waiters++;
        block_on(K_RW, m);
        (*g_locks)[m].waiters--;
    }
}
int pthread_rwlock_trywrlock(pthread_rwlock_t* m)
{
    if (!ctl()) { static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_trywrlock"); return r(m); }
    point();
    Lock& l = (*g_locks)[m];
    if (l.owner == nullptr && l.readers == 0) { l.owner = g_me; l.count = 1; return 0; }
    return EBUSY;
}
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    if (!ctl()) { static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_unlock"); return r(m); }
    auto it = g_locks->find(m);
    if (it == g_locks->end()) return EPERM;
    Lock& l = it->second;
    if (l.owner == g_me) { l.owner = nullptr; l.count = 0; }
    else
    {
        for (size_t i = 0; i < l.rd.size(); ++i)
            if (l.rd[i] == g_me) { l.rd.erase(l.rd.begin() + i); l.readers--; break; }
    }
    if (!l.owner && !l.readers)
    {
        if (l.waiters == 0) g_locks->erase(it); else wake(K_RW, m);
    }
    point();
    return 0;
}

// ---------------------------------------------------------------- condition variables
static int ctl_cond_wait(pthread_cond_t* c, pthread_mutex_t* m, int64_t deadline)
{
    point();
    auto it = g_locks->find(m);
    int cnt = (it != g_locks->end() && it->second.owner == g_me) ? it->second.count : 0;
    if (cnt) { it->second.count = 1; ctl_mutex_unlock(m); }
    bool to = block_on(K_COND, c, deadline);
    ctl_mutex_lock(m);
    if (cnt) (*g_locks)[m].count = cnt;
    return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
    if (!ctl()) { static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait"); return r(c, m); }
    return ctl_cond_wait(c, m, INT64_MAX);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{
    if (!ctl()) { static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>("pthread_cond_timedwait"); return r(c, m, ts); }
    return ctl_cond_wait(c, m, ts_to_us(CLOCK_REALTIME, ts) - SYS_EPOCH_US);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts)
{
    if (!ctl()) { static auto r = real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_cond_clockwait"); return r(c, m, k, ts); }
    return ctl_cond_wait(c, m, ts_to_us(k, ts) - SYS_EPOCH_US);
}
int pthread_cond_signal(pthread_cond_t* c)
{
    if (!ctl()) { static auto r = real<int (*)(pthread_cond_t*)>("pthread_cond_signal"); return r(c); }
    wake(K_COND, c, 1);
    point();
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    if (!ctl()) { static auto r = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast"); return r(c); }
    wake(K_COND, c);
    point();
    return 0;
}
int pthread_cond_destroy(pthread_cond_t* c)
{
    if (!ctl()) { static auto r = real<int (*)(pthread_cond_t*)>("pthread_cond_destroy"); return r(c); }
    return 0;
}

// ---------------------------------------------------------------- threads
int pthread_create(pthread_t* out, const pthread_attr_t* attr, void* (*fn)(void*), void* arg)
{
    if (!ctl()) { static auto r = real<create_t>("pthread_create"); return r(out, attr, fn, arg); }
    Th* t = new Th;
    t->group = g_me->group;
    int rv = make_thread(out, attr, fn, arg, t);
    point();
    return rv;
}
int pthread_join(pthread_t p, void** ret)
{
    static auto r = real<int (*)(pthread_t, void**)>("pthread_join");
    if (ctl())
    {
        for (Th* t : g_all)
            if (t->real == p && !t->driver)
            {
                while (!t->ended) block_on(K_JOIN, t);
                break;
            }
    }
    return r(p, ret);
}

// ---------------------------------------------------------------- time
int sched_yield()
{
    if (!ctl()) { static auto r = real<int (*)()>("sched_yield"); return r(); }
    if (!g_me->driver)
    {
        ++g_steps;
        Th* n = pick_other();
        if (n == g_me || !n) n = g_driver;
        transfer(n);
    }
    return 0;
}
static int ctl_sleep(int64_t us)
{
    block_on(K_SLEEP, g_me, g_now + (us < 1 ? 1 : us));
    return 0;
}
int nanosleep(const struct timespec* a, struct timespec* b)
{
    if (!ctl() || g_me->driver) { static auto r = real<int (*)(const struct timespec*, struct timespec*)>("nanosleep"); return r(a, b); }
    return ctl_sleep(a->tv_sec * 1000000ll + a->tv_nsec / 1000);
}
int clock_nanosleep(clockid_t c, int flags, const struct timespec* a, struct timespec* b)
{
    if (!ctl() || g_me->driver) { static auto r = real<int (*)(clockid_t, int, const struct timespec*, struct timespec*)>("clock_nanosleep"); return r(c, flags, a, b); }
    if (flags & TIMER_ABSTIME)
    {
        int64_t d = ts_to_us(c, a) - SYS_EPOCH_US - g_now;
        return ctl_sleep(d);
    }
    return ctl_sleep(a->tv_sec * 1000000ll + a->tv_nsec / 1000);
}
int usleep(useconds_t us)
{
    if (!ctl() || g_me->driver) { static auto r = real<int (*)(useconds_t)>("usleep"); return r(us); }
    return ctl_sleep(us);
}
unsigned _ZNSt13random_device9_M_getvalEv(void*)
{
    return (unsigned)g_rng.next();
}
} // extern "C"

std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept
{
    if (!g_active)
    {
        struct timespec ts;
        clock_gettime(CLOCK_REALTIME, &ts);
        return time_point(std::chrono::seconds(ts.tv_sec) + std::chrono::nanoseconds(ts.tv_nsec));
    }
    return time_point(std::chrono::microseconds(SYS_EPOCH_US + g_now));
}
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept
{
    if (!g_active)
    {
        struct timespec ts;
        clock_gettime(CLOCK_MONOTONIC, &ts);
        return time_point(std::chrono::seconds(ts.tv_sec) + std::chrono::nanoseconds(ts.tv_nsec));
    }
    return time_point(std::chrono::microseconds(SYS_EPOCH_US + g_now));
}
