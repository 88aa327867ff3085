// Cluster simulator: real raft_server objects, simulated environment, monitors.
#pragma once
#include "cornerstone.hxx"
#include "simrt.hpp"
#include <deque>
#include <map>
#include <set>
#include <string>

using namespace cornerstone;
typedef std::string bytes;

struct Entry
{
    ulong term;
    int type;
    bytes data;
};
struct Snap
{
    ulong idx = 0, term = 0;
    bytes conf;
    bytes data;
};
struct Partial
{
    ulong term = 0, size = 0;
    bytes conf, data;
    std::vector<bool> have;
};

// what survives a crash
struct Disk
{
    int id = 0;
    bool has_state = false;
    ulong term = 0;
    int voted = -1;
    bytes conf;
    ulong conf_idx = 0;
    // log
    ulong start = 1;
    std::deque<Entry> log;
    ulong base_term = 0; // term at start-1
    bool base_known = true;
    // state machine
    bool sm_durable = true;
    ulong applied = 0;
    uint64_t digest = 0;
    ulong appcnt = 0;
    std::map<ulong, Snap> snaps;
    ulong last_snap = 0;
    std::map<ulong, Partial> partial;
    std::map<ulong, std::pair<uint64_t, ulong>> hist; // applied idx -> digest,count (monitor only)

    ulong next() const { return start + log.size(); }
    ulong last_idx() const { return next() - 1; }
    ulong last_term() const { return log.empty() ? base_term : log.back().term; }
    const Entry* at(ulong i) const { return (i < start || i >= next()) ? nullptr : &log[(size_t)(i - start)]; }
};

inline uint64_t fnv(const bytes& b, uint64_t h = 1469598103934665603ull)
{
    for (unsigned char c : b) { h ^= c; h *= 1099511628211ull; }
    return h;
}
inline uint64_t mix(uint64_t a, uint64_t b)
{
    uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x7F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    return z ^ (z >> 31);
}
inline bytes buf_bytes(const buffer& b)
{
    // whole content irrespective of position
    buffer& nb = const_cast<buffer&>(b);
    size_t p = nb.pos();
    nb.pos(0);
    bytes s((const char*)nb.data(), nb.size());
    nb.pos(p);
    return s;
}
inline bytes buf_rest(const buffer& b) { return bytes((const char*)b.data(), b.size() - b.pos()); }
inline bufptr mkbuf(const bytes& s)
{
    bufptr b = buffer::alloc(s.size());
    if (!s.empty()) memcpy(b->data(), s.data(), s.size());
    b->pos(0);
    return b;
}
