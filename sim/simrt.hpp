// Controlled thread runtime: interposes pthread primitives, clocks and random_device so that exactly
// one thread runs at a time, chosen by a seeded PRNG, and time is virtual.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
namespace simrt
{
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); } // inclusive
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    bool chance(double p) { return p > 0 && unit() < p; }
};

enum Kind { K_NONE = 0, K_MUTEX, K_RW, K_COND, K_SLEEP, K_JOIN, K_USER };

struct Th;
// the calling thread becomes the driver (thread 0)
void init(uint64_t seed);
bool active();
Rng& rng();
int64_t now_us();
void set_now(int64_t us);            // wakes timed waits that are due
int64_t next_deadline();             // INT64_MAX if none
void set_switch_prob(double p);      // at a scheduling point
void set_overlap_prob(double p);     // return to driver although threads are runnable
void set_spurious_prob(double p);
void point();                        // a scheduling point
Th* self();
int self_group();
void set_group(int g);
int self_id();
int group_of(Th* t);
bool is_frozen(Th* t);
Th* spawn(std::function<void()> f, int group);
void user_block(void* obj);          // block until user_wake(obj)
void user_wake(void* obj);
void set_idle_obj(void* o);         // blocking on this object means idle: must hold no lock
void freeze_group(int g);            // no thread of that group ever runs again
bool group_has_blocked(int g);
int group_threads(int g);            // live, not frozen
[[noreturn]] void park_forever();
enum RunResult { IDLE, OVERLAP, BUDGET };
RunResult run_others();              // driver only
// a cycle of threads blocked on each other's locks, or "" ; call when IDLE
std::string find_lock_deadlock();
std::string describe_blocked(int group); // group -1: all
uint64_t steps();
uint64_t switches();
uint64_t sched_hash();
bool mutex_is_held_by_group(int g);
} // namespace simrt
