// Checks of the file-based log store: sequential model (C12), process kill (C13), concurrent use (C14).
//   fslog model|kill|conc|fault --dir D --from A --to B [--trace]
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <mutex>
#include <random>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
#include <vector>
#include "cornerstone.hxx"
using namespace cornerstone;

static std::string S(const char* f, ...)
{
    char b[2048];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}
static bool g_trace = false;
static unsigned long long g_seed = 0;
static const char* g_mode = "";
#define TR(...) do { if (g_trace) { printf("  %s\n", S(__VA_ARGS__).c_str()); fflush(stdout); } } while (0)
static std::map<std::string, unsigned long> g_stat;
static std::mutex g_viol_lock;
static int g_viols = 0;
static void violate(const char* key, const std::string& msg)
{
    std::lock_guard<std::mutex> g(g_viol_lock);
    ++g_viols;
    std::string m = msg;
    for (auto& c : m) if (c == '\n') c = ' ';
    printf("VIOL seed=%llu mode=%s key=%s msg=%s\n", g_seed, g_mode, key, m.c_str());
    fflush(stdout);
}
static uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
{
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}
struct Rng
{
    std::mt19937_64 e;
    explicit Rng(uint64_t s) : e(s * 0x9E3779B97F4A7C15ull + 12345) {}
    uint64_t below(uint64_t n) { return n ? e() % n : 0; }
    uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
    bool chance(double p) { return (e() >> 11) * (1.0 / 9007199254740992.0) < p; }
};

struct Ent
{
    ulong term; int type; std::string data;
    bool operator==(const Ent& o) const { return term == o.term && type == o.type && data == o.data; }
    std::string str() const { return S("(term %llu, kind %d, %zu bytes, hash %llx)", (unsigned long long)term, type, data.size(), (unsigned long long)fnv(data.data(), data.size())); }
};
static ptr<log_entry> mk(const Ent& e)
{
    bufptr b = buffer::alloc(e.data.size());
    if (!e.data.empty()) memcpy(b->data(), e.data.data(), e.data.size());
    return cs_new<log_entry>(e.term, std::move(b), (log_val_type)e.type);
}
static Ent rd(const ptr<log_entry>& e)
{
    buffer& b = e->get_buf();
    // content of the whole buffer whatever its position
    return Ent{e->get_term(), (int)e->get_val_type(), std::string((const char*)b.data() - b.pos(), b.size())};
}
struct Model
{
    ulong start = 1;
    std::vector<Ent> v;
    ulong next() const { return start + v.size(); }
    uint64_t hash() const { uint64_t h = fnv(&start, sizeof start); for (auto& e : v) { h = fnv(&e.term, sizeof e.term, h); h = fnv(e.data.data(), e.data.size(), h); } return h; }
};
enum Kind { APPEND, WRITE, ENTRIES, ENTRY, TERM, LAST, PACK, APPLY, COMPACT, REOPEN, DROP, NKIND };
static const char* kname[] = {"append", "write_at", "log_entries", "entry_at", "term_at", "last_entry", "pack", "apply_pack", "compact", "close+reopen", "destroy+reopen"};
struct Op { int kind; ulong a = 0, b = 0; Ent e{0, 0, ""}; std::vector<Ent> pe; std::string pack; std::string str() const { return S("%s(%llu,%llu)%s", kname[kind], (unsigned long long)a, (unsigned long long)b, kind == APPEND || kind == WRITE ? e.str().c_str() : kind == APPLY ? S("[%zu entries]", pe.size()).c_str() : ""); } };

struct Shape { int maxpay; double big; ulong far; int profile; };
static Ent gen_ent(Rng& r, const Shape& s, ulong& term)
{
    if (r.chance(0.1)) term += r.range(1, 3);
    static const int kinds[] = {1, 1, 1, 1, 2, 3, 4, 5};
    Ent e;
    e.term = r.chance(0.01) ? ~0ull >> r.below(20) : term;
    e.type = kinds[r.below(8)];
    size_t n = r.chance(0.12) ? 0 : r.chance(s.big) ? (size_t)r.range(32700, 32800) : (size_t)r.below(s.maxpay);
    e.data.resize(n);
    for (size_t i = 0; i < n; ++i) e.data[i] = (char)r.e();
    return e;
}
static std::string g_dir;
static std::string fresh(const std::string& name)
{
    std::string d = g_dir + "/" + name;
    mkdir(d.c_str(), 0755);
    for (const char* f : {"store.idx", "store.dat", "store.sti", "store.idx.bak", "store.dat.bak", "store.sti.bak"}) unlink((d + "/" + f).c_str());
    return d;
}
static void discard(const std::string& d)
{
    for (const char* f : {"store.idx", "store.dat", "store.sti", "store.idx.bak", "store.dat.bak", "store.sti.bak"}) unlink((d + "/" + f).c_str());
    rmdir(d.c_str());
}
static std::string buf_str(buffer& b) { return std::string((const char*)b.data() - b.pos(), b.size()); }
static bufptr to_buf(const std::string& s) { bufptr b = buffer::alloc(s.size()); if (!s.empty()) memcpy(b->data(), s.data(), s.size()); return b; }

// next operation for a store with the model's contents
static Op gen(Rng& r, const Model& m, const Shape& sh, ulong& term, bool reopen)
{
    Op o;
    double x = (r.e() >> 11) * (1.0 / 9007199254740992.0);
    auto any_idx = [&]() -> ulong {
        if (r.chance(0.08)) return m.start > 1 && r.chance(0.5) ? r.below(m.start) : m.next() + r.below(3);
        if (m.v.empty()) return m.next();
        if (r.chance(0.3)) return m.next() - 1 - r.below(std::min<ulong>(4, m.v.size()));
        if (r.chance(0.15)) return m.start + r.below(std::min<ulong>(3, m.v.size()));
        return r.range(m.start, m.next() - 1);
    };
    if (x < 0.33) { o.kind = APPEND; o.e = gen_ent(r, sh, term); }
    else if (x < 0.43) { o.kind = WRITE; o.a = r.chance(0.5) && m.v.size() > 3 ? m.next() - r.below(4) : any_idx(); o.e = gen_ent(r, sh, term); }
    else if (x < 0.58)
    {
        o.kind = ENTRIES;
        o.a = any_idx();
        o.b = r.chance(0.6) ? o.a + r.below(6) : r.chance(0.5) ? m.next() + r.below(3) : any_idx();
    }
    else if (x < 0.70) { o.kind = ENTRY; o.a = any_idx(); }
    else if (x < 0.80) { o.kind = TERM; o.a = any_idx(); }
    else if (x < 0.83) o.kind = LAST;
    else if (x < 0.88) { o.kind = PACK; o.a = any_idx(); o.b = r.range(1, r.chance(0.5) ? 3 : 40); }
    else if (x < 0.93)
    {
        o.kind = APPLY;
        o.a = r.chance(0.5) ? m.next() : any_idx();
        // a pack comes from another store, from somewhere inside or at its start
        std::string d = fresh("side");
        {
            fs_log_store side(d, (int)r.range(1, 50));
            ulong n = r.range(1, r.chance(0.3) ? 30 : 6), from = r.range(1, n), cnt = r.range(1, n - from + 1 + r.below(3));
            std::vector<Ent> all;
            for (ulong i = 0; i < n; ++i) { all.push_back(gen_ent(r, sh, term)); auto e = mk(all.back()); side.append(e); }
            bufptr p = side.pack(from, (int32)cnt);
            o.pack = buf_str(*p);
            for (ulong i = from; i <= n && i < from + cnt; ++i) o.pe.push_back(all[i - 1]);
        }
        discard(d);
    }
    else if (x < 0.96)
    {
        o.kind = COMPACT;
        o.a = r.chance(0.15) ? m.next() + r.below(10) : r.chance(0.2) ? any_idx() : m.v.empty() ? m.start + r.below(3) : m.start + r.below(m.v.size());
    }
    else if (!reopen) { o.kind = ENTRY; o.a = any_idx(); }
    else o.kind = r.chance(0.5) ? REOPEN : DROP;
    return o;
}
static void apply(Model& m, const Op& o)
{
    switch (o.kind)
    {
        case APPEND: m.v.push_back(o.e); break;
        case WRITE: if (o.a >= m.start && o.a <= m.next()) { m.v.resize((size_t)(o.a - m.start), Ent{0, 0, ""}); m.v.push_back(o.e); } break;
        case APPLY: if (o.a >= m.start && o.a <= m.next()) { m.v.resize((size_t)(o.a - m.start), Ent{0, 0, ""}); m.v.insert(m.v.end(), o.pe.begin(), o.pe.end()); } break;
        case COMPACT:
            if (o.a >= m.start)
            {
                if (o.a + 1 >= m.next()) m.v.clear();
                else m.v.erase(m.v.begin(), m.v.begin() + (size_t)(o.a - m.start + 1));
                m.start = o.a + 1;
            }
            break;
        default: break;
    }
}
#define BAD(key, ...) do { violate(key, S(__VA_ARGS__)); return false; } while (0)
// everything readable equals the model
static bool verify(fs_log_store& st, const Model& m, const char* when, Rng& r, bool all)
{
    ++g_stat["verifications"];
    if (st.start_index() != m.start) BAD("start-index", "%s: first index %llu instead of %llu", when, (unsigned long long)st.start_index(), (unsigned long long)m.start);
    if (st.next_slot() != m.next()) BAD("next-index", "%s: next index %llu instead of %llu", when, (unsigned long long)st.next_slot(), (unsigned long long)m.next());
    try
    {
        Ent le = rd(st.last_entry());
        Ent want = m.v.empty() ? Ent{0, le.type, ""} : m.v.back();
        if (!(le == want)) BAD("last-entry", "%s: last entry is %s instead of %s", when, le.str().c_str(), want.str().c_str());
        if (!all || m.v.empty()) return true;
        bool single_first = r.chance(0.5);
        for (int pass = 0; pass < 2; ++pass)
        {
            if ((pass == 0) == single_first)
            {
                for (size_t i = 0; i < m.v.size(); ++i)
                {
                    ptr<log_entry> e = st.entry_at(m.start + i);
                    if (!e) BAD("entry-missing", "%s: no entry at %llu in [%llu,%llu)", when, (unsigned long long)(m.start + i), (unsigned long long)m.start, (unsigned long long)m.next());
                    if (!(rd(e) == m.v[i])) BAD("entry-differs", "%s: entry at %llu is %s instead of %s", when, (unsigned long long)(m.start + i), rd(e).str().c_str(), m.v[i].str().c_str());
                    ulong t = st.term_at(m.start + i);
                    if (t != m.v[i].term) BAD("term-differs", "%s: term at %llu is %llu instead of %llu", when, (unsigned long long)(m.start + i), (unsigned long long)t, (unsigned long long)m.v[i].term);
                    ++g_stat["entries_compared"];
                }
            }
            else
            {
                auto es = st.log_entries(m.start, m.next());
                if (!es || es->size() != m.v.size()) BAD("range-size", "%s: %zu entries instead of %zu", when, es ? es->size() : 0, m.v.size());
                for (size_t i = 0; i < m.v.size(); ++i)
                    if (!(*es)[i] || !(rd((*es)[i]) == m.v[i])) BAD("range-entry", "%s: range read returns %s at %llu instead of %s", when, (*es)[i] ? rd((*es)[i]).str().c_str() : "null", (unsigned long long)(m.start + i), m.v[i].str().c_str());
                g_stat["entries_compared"] += m.v.size();
            }
        }
    }
    catch (std::exception& e)
    {
        BAD("read-throws", "%s: reading the stored range [%llu,%llu) throws %s", when, (unsigned long long)m.start, (unsigned long long)m.next(), e.what());
    }
    return true;
}
// runs one operation on the store and judges its answer; m is the model before the operation
static bool exec(ptr<fs_log_store>& st, const std::string& dir, const Op& o, const Model& m, Rng& r, int bufsz)
{
    ++g_stat[std::string("op_") + kname[o.kind]];
    bool in = o.a >= m.start && o.a < m.next();
    std::string ctx = S("%s on [%llu,%llu)", o.str().c_str(), (unsigned long long)m.start, (unsigned long long)m.next());
    const char* c = ctx.c_str();
    try
    {
        switch (o.kind)
        {
            case APPEND: { auto e = mk(o.e); ulong i = st->append(e); if (i != m.next()) BAD("append-index", "%s returned %llu", c, (unsigned long long)i); break; }
            case WRITE: { auto e = mk(o.e); st->write_at(o.a, e); if (!in && o.a != m.next()) BAD("write-outside", "%s accepted", c); break; }
            case ENTRIES:
            {
                auto es = st->log_entries(o.a, o.b);
                if (o.a < m.start) { if (es && es->size()) BAD("range-outside", "%s returned %zu entries", c, es->size()); break; }
                ulong e = std::min<ulong>(o.b, m.next());
                size_t n = o.a >= e ? 0 : (size_t)(e - o.a);
                if ((es ? es->size() : 0) != n) BAD("range-size", "%s returned %zu entries instead of %zu", c, es ? es->size() : 0, n);
                for (size_t i = 0; i < n; ++i)
                    if (!(*es)[i] || !(rd((*es)[i]) == m.v[(size_t)(o.a - m.start) + i])) BAD("range-entry", "%s returned %s at %llu instead of %s", c, (*es)[i] ? rd((*es)[i]).str().c_str() : "null", (unsigned long long)(o.a + i), m.v[(size_t)(o.a - m.start) + i].str().c_str());
                break;
            }
            case ENTRY:
            {
                auto e = st->entry_at(o.a);
                if (!in) { if (e) BAD("entry-outside", "%s returned %s", c, rd(e).str().c_str()); break; }
                if (!e) BAD("entry-missing", "%s returned nothing", c);
                if (!(rd(e) == m.v[(size_t)(o.a - m.start)])) BAD("entry-differs", "%s returned %s instead of %s", c, rd(e).str().c_str(), m.v[(size_t)(o.a - m.start)].str().c_str());
                break;
            }
            case TERM: { ulong t = st->term_at(o.a); if (in && t != m.v[(size_t)(o.a - m.start)].term) BAD("term-differs", "%s returned %llu instead of %llu", c, (unsigned long long)t, (unsigned long long)m.v[(size_t)(o.a - m.start)].term); if (o.a < m.start && t != 0) BAD("term-outside", "%s returned %llu", c, (unsigned long long)t); break; }
            case LAST: { Ent e = rd(st->last_entry()); Ent w = m.v.empty() ? Ent{0, e.type, ""} : m.v.back(); if (!(e == w)) BAD("last-entry", "%s returned %s instead of %s", c, e.str().c_str(), w.str().c_str()); break; }
            case PACK:
            {
                bufptr p = st->pack(o.a, (int32)o.b);
                if (o.a < m.start) { if (p && p->size()) BAD("pack-outside", "%s returned %zu bytes", c, p->size()); break; }
                if (!in) { if (p && p->size()) BAD("pack-outside", "%s returned %zu bytes", c, p->size()); break; }
                // applied to another store it gives the same entries
                std::string d = fresh("side2");
                bool ok = true;
                {
                    fs_log_store side(d, (int)r.range(1, 20));
                    Model sm;
                    ulong k = r.below(3);
                    for (ulong i = 0; i < k; ++i) { Ent x{7, 1, std::string((size_t)r.below(30), 'q')}; auto e = mk(x); side.append(e); sm.v.push_back(x); }
                    Op ap;
                    ap.a = k && r.chance(0.3) ? k : k + 1;
                    ap.kind = APPLY;
                    for (ulong i = o.a; i < o.a + o.b && i < m.next(); ++i) ap.pe.push_back(m.v[(size_t)(i - m.start)]);
                    p->pos(0);
                    side.apply_pack(ap.a, *p);
                    apply(sm, ap);
                    ok = verify(side, sm, "store the pack was applied to", r, true);
                }
                discard(d);
                if (!ok) BAD("pack-content", "after %s", c);
                break;
            }
            case APPLY: { bufptr p = to_buf(o.pack); st->apply_pack(o.a, *p); if (!in && o.a != m.next()) BAD("apply-outside", "%s accepted", c); break; }
            case COMPACT: { bool ok = st->compact(o.a); if (o.a >= m.start ? !ok : ok) BAD("compact-result", "%s returned %d", c, (int)ok); break; }
            case REOPEN: st->close(); // fall through
            case DROP: st.reset(); st = cs_new<fs_log_store>(dir, bufsz); break;
        }
    }
    catch (std::exception& e)
    {
        bool outside = ((o.kind == WRITE || o.kind == APPLY) && !in && o.a != m.next()) || ((o.kind == ENTRIES || o.kind == COMPACT || o.kind == PACK) && o.a < m.start) || ((o.kind == ENTRY) && o.a < m.start) || (o.kind == TERM && !in);
        if (!outside) BAD("op-throws", "%s throws %s", c, e.what());
        ++g_stat["refused_outside"];
    }
    return true;
}
static int gen_buf(Rng& r) { double x = (r.e() >> 11) * (1.0 / 9007199254740992.0); return x < 0.1 ? 0 : x < 0.25 ? 1 : x < 0.4 ? 2 : x < 0.6 ? (int)r.range(3, 8) : x < 0.85 ? (int)r.range(8, 60) : x < 0.95 ? -1 : 1000; }
static Shape gen_shape(Rng& r) { Shape s; s.maxpay = r.chance(0.5) ? 20 : r.chance(0.7) ? 200 : 5000; s.big = r.chance(0.2) ? 0.02 : 0.0; s.profile = 0; return s; }

static uint64_t run_model(unsigned long long seed)
{
    Rng r(seed);
    Shape sh = gen_shape(r);
    std::string d = fresh("m");
    Model m;
    ulong term = r.range(1, 5);
    int bufsz = gen_buf(r);
    int fill = r.chance(0.4) ? (int)r.range(5, 120) : 0;
    int nops = (int)r.range(20, 250);
    uint64_t h = 0;
    TR("seed %llu: buffer %d, %d+%d operations", seed, bufsz, fill, nops);
    try
    {
        ptr<fs_log_store> st = cs_new<fs_log_store>(d, bufsz);
        for (int i = 0; i < fill + nops; ++i)
        {
            Op o;
            if (i < fill) { o.kind = APPEND; o.e = gen_ent(r, sh, term); }
            else o = gen(r, m, sh, term, true);
            int nb = o.kind == REOPEN || o.kind == DROP ? (r.chance(0.5) ? bufsz : gen_buf(r)) : bufsz;
            TR("%s on [%llu,%llu)%s", o.str().c_str(), (unsigned long long)m.start, (unsigned long long)m.next(), nb != bufsz ? S(" new buffer %d", nb).c_str() : "");
            bufsz = nb;
            if (!exec(st, d, o, m, r, bufsz)) break;
            Model b = m;
            apply(m, o);
            h = fnv(&o.kind, sizeof o.kind, h ^ m.hash());
            bool mut = o.kind >= APPLY || o.kind == WRITE;
            if (!verify(*st, m, S("after %s on [%llu,%llu), buffer %d", o.str().c_str(), (unsigned long long)b.start, (unsigned long long)b.next(), bufsz).c_str(), r, (mut && r.chance(0.5)) || r.chance(0.05))) break;
        }
        if (g_viols == 0) verify(*st, m, "at the end", r, true);
    }
    catch (std::exception& e)
    {
        violate("store-throws", S("unexpected exception %s", e.what()));
    }
    discard(d);
    return h;
}

// every round: a process opens the directory, must see the model's contents, performs operations and is killed right after the last one returned
static uint64_t run_kill(unsigned long long seed)
{
    Rng r(seed ^ 0x5555);
    Shape sh = gen_shape(r);
    std::string d = fresh("k");
    Model m;
    ulong term = 1;
    uint64_t h = 0;
    int rounds = (int)r.range(4, 12);
    for (int k = 0; k < rounds && g_viols == 0; ++k)
    {
        int bufsz = gen_buf(r);
        std::vector<Op> ops;
        std::vector<Model> before;
        int n = r.chance(0.15) ? 0 : r.chance(0.5) ? (int)r.range(1, 6) : (int)r.range(5, 40);
        Model mm = m;
        for (int i = 0; i < n; ++i)
        {
            Op o = gen(r, mm, sh, term, r.chance(0.3));
            before.push_back(mm);
            ops.push_back(o);
            apply(mm, o);
        }
        h = h * 31 + mm.hash() + (n ? ops.back().kind : 99);
        TR("round %d: buffer %d, %d operations, last %s", k, bufsz, n, n ? ops.back().str().c_str() : "-");
        fflush(stdout);
        uint64_t cs = r.e();
        pid_t p = fork();
        if (p == 0)
        {
            Rng cr(cs);
            try
            {
                ptr<fs_log_store> st = cs_new<fs_log_store>(d, bufsz);
                // a process may die without having read anything
                if (!verify(*st, m, S("after kill %d (buffer %d)", k, bufsz).c_str(), cr, cr.chance(0.7))) _exit(3);
                for (size_t i = 0; i < ops.size(); ++i)
                    if (!exec(st, d, ops[i], before[i], cr, bufsz)) _exit(3);
                if (ops.size()) printf("KILLED %s\n", kname[ops.back().kind]);
                fflush(stdout);
                kill(getpid(), SIGKILL);
                _exit(4);
            }
            catch (std::exception& e)
            {
                violate("store-throws", S("round %d: unexpected exception %s", k, e.what()));
                _exit(3);
            }
        }
        int st = 0;
        waitpid(p, &st, 0);
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { ++g_stat["kills"]; if (n) ++g_stat[std::string("kill_after_") + kname[ops.back().kind]]; }
        else if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { ++g_viols; break; }
        else { violate("child-died", S("round %d: the process died with status %d", k, st)); break; }
        m = mm;
    }
    if (g_viols == 0)
    {
        try
        {
            ptr<fs_log_store> st = cs_new<fs_log_store>(d, gen_buf(r));
            verify(*st, m, "after the last kill", r, true);
        }
        catch (std::exception& e) { violate("store-throws", S("after the last kill: %s", e.what())); }
    }
    discard(d);
    return h;
}

// ---- failing file operations inside compact
extern "C" int __real_truncate64(const char*, off64_t);
extern "C" int __real_remove(const char*);
static thread_local int g_fail_trunc = -1, g_fail_remove = -1; // fail the n-th call
extern "C" int __wrap_truncate64(const char* p, off64_t n) { if (g_fail_trunc >= 0 && g_fail_trunc-- == 0) { errno = EIO; return -1; } return __real_truncate64(p, n); }
extern "C" int __wrap_remove(const char* p) { if (g_fail_remove >= 0 && !strstr(p, ".bak") && g_fail_remove-- == 0) { errno = EIO; return -1; } return __real_remove(p); }

static uint64_t run_fault(unsigned long long seed)
{
    Rng r(seed ^ 0x7777);
    Shape sh = gen_shape(r);
    std::string d = fresh("f");
    Model m;
    ulong term = 1;
    int bufsz = gen_buf(r);
    uint64_t h = 0;
    try
    {
        ptr<fs_log_store> st = cs_new<fs_log_store>(d, bufsz);
        int n = (int)r.range(1, 30);
        for (int i = 0; i < n; ++i) { Op o; o.kind = APPEND; o.e = gen_ent(r, sh, term); exec(st, d, o, m, r, bufsz); apply(m, o); }
        for (int k = 0; k < 4 && g_viols == 0; ++k)
        {
            Op o;
            o.kind = COMPACT;
            o.a = r.chance(0.3) ? m.next() + r.below(3) : m.start + r.below(std::max<ulong>(1, m.v.size()));
            bool fail = r.chance(0.7);
            if (fail) { if (r.chance(0.5)) g_fail_trunc = (int)r.below(2); else g_fail_remove = (int)r.below(2); }
            int ft = g_fail_trunc, fr = g_fail_remove;
            bool ok = false;
            try { ok = st->compact(o.a); }
            catch (std::exception& e) { if (fail && ((ft >= 0 && g_fail_trunc < 0) || (fr >= 0 && g_fail_remove < 0))) { violate("compact-fault-throws", S("compact(%llu) on [%llu,%llu) with a failing file operation throws %s", (unsigned long long)o.a, (unsigned long long)m.start, (unsigned long long)m.next(), e.what())); break; } throw; }
            bool hit = (ft >= 0 && g_fail_trunc < 0) || (fr >= 0 && g_fail_remove < 0);
            g_fail_trunc = g_fail_remove = -1;
            TR("compact(%llu) on [%llu,%llu): fault %s -> %d", (unsigned long long)o.a, (unsigned long long)m.start, (unsigned long long)m.next(), hit ? "hit" : "none", (int)ok);
            if (hit) ++g_stat["compact_faults"];
            if (hit && ok) { /* it coped */ }
            if (!hit && !ok) { violate("compact-result", S("compact(%llu) on [%llu,%llu) fails", (unsigned long long)o.a, (unsigned long long)m.start, (unsigned long long)m.next())); break; }
            if (ok) apply(m, o);
            h = h * 31 + m.hash() + hit;
            if (!verify(*st, m, S("after compact(%llu) that %s", (unsigned long long)o.a, ok ? "succeeded" : "failed").c_str(), r, true)) break;
            if (r.chance(0.5)) { st.reset(); st = cs_new<fs_log_store>(d, bufsz); if (!verify(*st, m, "reopened after a failed compact", r, true)) break; }
            Op a; a.kind = APPEND; a.e = gen_ent(r, sh, term);
            if (!exec(st, d, a, m, r, bufsz)) break;
            apply(m, a);
            if (!verify(*st, m, "append after a failed compact", r, true)) break;
        }
    }
    catch (std::exception& e) { violate("store-throws", S("unexpected exception %s", e.what())); }
    discard(d);
    return h;
}

// ---- concurrent use
static std::atomic<uint64_t> g_tick{1};
static std::atomic<int> g_delay{0};
static thread_local uint64_t t_rng = 88172645463325252ull;
static inline uint64_t trand() { t_rng ^= t_rng << 13; t_rng ^= t_rng >> 7; t_rng ^= t_rng << 17; return t_rng; }
extern "C" int __real_pthread_mutex_unlock(pthread_mutex_t*);
extern "C" int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
static void jitter()
{
    int d = g_delay.load(std::memory_order_relaxed);
    if (!d) return;
    uint64_t x = trand() % 100;
    if ((int)x < d) { if (x % 4 == 0) std::this_thread::sleep_for(std::chrono::microseconds(20 + trand() % 300)); else sched_yield(); }
}
extern "C" int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) { int r = __real_pthread_mutex_unlock(m); jitter(); return r; }
extern "C" int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m) { int r = __real_pthread_rwlock_unlock(m); jitter(); return r; }

struct Ev
{
    enum T { PUT, CUT, READ, NONE, COMPACT, NEXT } t;
    uint64_t s, e;      // interval
    ulong idx;          // PUT/READ/NONE: index; CUT: everything >= idx is discarded; COMPACT: everything <= idx goes
    uint64_t val;       // identity of the entry
    ulong aux;
    const char* how;
};
struct Pay { uint64_t id; uint64_t check; };
static uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; return x ^ (x >> 33); }
// entry whose bytes can be verified on their own
static Ent mk_id(uint64_t id)
{
    Ent e;
    e.term = 1 + id % 1000003;
    e.type = 1 + (int)(id % 3);
    size_t n = 16 + mix(id) % 90;
    e.data.resize(n);
    memcpy(&e.data[0], &id, 8);
    uint64_t c = mix(id + 1);
    memcpy(&e.data[8], &c, 8);
    for (size_t i = 16; i < n; ++i) e.data[i] = (char)mix(id + i);
    return e;
}
static uint64_t id_of(const ptr<log_entry>& le, bool& ok)
{
    buffer& b = le->get_buf();
    ok = false;
    if (b.size() < 16) return 0;
    // the buffers of stored entries are shared by all readers: nobody moves their position here
    std::string s((const char*)b.data() - b.pos(), b.size());
    uint64_t id;
    memcpy(&id, s.data(), 8);
    Ent w = mk_id(id);
    ok = w.data == s && w.term == le->get_term() && w.type == (int)le->get_val_type();
    return id;
}
static uint64_t run_conc(unsigned long long seed)
{
    Rng r(seed ^ 0x9999);
    std::string d = fresh("c");
    int bufsz = r.chance(0.2) ? -1 : r.chance(0.5) ? (int)r.range(0, 4) : (int)r.range(4, 40);
    int nread = (int)r.range(1, 4), napp = (int)r.range(1, 3);
    bool cutter = r.chance(0.7), compactor = r.chance(0.7), packer = r.chance(0.5);
    int ops = (int)r.range(60, 250);
    g_delay.store(r.chance(0.3) ? 0 : (int)r.range(2, 25));
    std::atomic<uint64_t> ids{1};
    std::vector<std::vector<Ev>> logs(nread + napp + 3);
    ptr<fs_log_store> st = cs_new<fs_log_store>(d, bufsz);
    for (int i = 0; i < 10; ++i) { uint64_t s = g_tick++; uint64_t id = ids++; auto e = mk(mk_id(id)); ulong at = st->append(e); logs[0].push_back({Ev::PUT, s, g_tick++, at, id, 0, "append"}); }
    std::atomic<bool> stop{false};
    std::atomic<int> failures{0};
    auto fail = [&](const char* key, const std::string& m) { if (failures.fetch_add(1) == 0) violate(key, m); stop = true; };
    auto tick = [&]() { return g_tick.fetch_add(1, std::memory_order_relaxed); };
    std::vector<std::thread> th;
    std::atomic<int> writers{napp + cutter};
    for (int a = 0; a < napp; ++a)
    {
        uint64_t sd = r.e();
        th.emplace_back([&, a, sd]() {
            t_rng = sd | 1;
            auto& L = logs[a];
            try
            {
                for (int i = 0; i < ops && !stop; ++i)
                {
                    uint64_t id = ids.fetch_add(1, std::memory_order_relaxed);
                    auto e = mk(mk_id(id));
                    uint64_t s = tick();
                    ulong at = st->append(e);
                    L.push_back({Ev::PUT, s, tick(), at, id, 0, "append"});
                }
            }
            catch (std::exception& e) { fail("append-throws", S("append throws %s", e.what())); }
            --writers;
        });
    }
    if (cutter)
    {
        uint64_t sd = r.e();
        th.emplace_back([&, sd]() {
            t_rng = sd | 1;
            auto& L = logs[napp];
            for (int i = 0; i < ops / 4 && !stop; ++i)
            {
                ulong fi = st->start_index(), nx = st->next_slot();
                if (nx <= fi) { sched_yield(); continue; }
                ulong back = 1 + trand() % 5;
                ulong at = nx > back && nx - back >= fi ? nx - back : fi;
                uint64_t id = ids.fetch_add(1, std::memory_order_relaxed);
                uint64_t s = tick();
                try
                {
                    if (packer && trand() % 3 == 0)
                    {
                        // a pack of two entries built by hand in the store's own format: index block, data block
                        uint64_t id2 = ids.fetch_add(1, std::memory_order_relaxed);
                        bufptr b1 = mk(mk_id(id))->serialize(), b2 = mk(mk_id(id2))->serialize();
                        bufptr p = buffer::alloc(8 + 16 + b1->size() + b2->size());
                        p->put((int32)16);
                        p->put((int32)(b1->size() + b2->size()));
                        p->put((ulong)0);
                        p->put((ulong)b1->size());
                        p->put(*b1);
                        p->put(*b2);
                        p->pos(0);
                        s = tick();
                        st->apply_pack(at, *p);
                        uint64_t e = tick();
                        L.push_back({Ev::CUT, s, e, at, 0, 0, "apply_pack"});
                        L.push_back({Ev::PUT, s, e, at, id, 0, "apply_pack"});
                        L.push_back({Ev::PUT, s, e, at + 1, id2, 0, "apply_pack"});
                    }
                    else
                    {
                        auto e = mk(mk_id(id));
                        st->write_at(at, e);
                        uint64_t en = tick();
                        L.push_back({Ev::CUT, s, en, at, 0, 0, "write_at"});
                        L.push_back({Ev::PUT, s, en, at, id, 0, "write_at"});
                    }
                }
                catch (std::range_error&) {} // compacted meanwhile
                catch (std::exception& e) { fail("write-throws", S("overwriting throws %s", e.what())); }
                if (trand() % 3) std::this_thread::sleep_for(std::chrono::microseconds(trand() % 200));
            }
            --writers;
        });
    }
    if (compactor)
    {
        uint64_t sd = r.e();
        th.emplace_back([&, sd]() {
            t_rng = sd | 1;
            auto& L = logs[napp + 1];
            while (writers > 0 && !stop)
            {
                ulong fi = st->start_index(), nx = st->next_slot();
                ulong at = nx > 15 && nx - 15 > fi ? fi + trand() % (nx - 15 - fi) : 0;
                if (at)
                {
                    uint64_t s = tick();
                    try { if (!st->compact(at)) fail("compact-result", S("compact(%llu) fails", (unsigned long long)at)); }
                    catch (std::exception& e) { fail("compact-throws", S("compact(%llu) throws %s", (unsigned long long)at, e.what())); }
                    L.push_back({Ev::COMPACT, s, tick(), at, 0, 0, "compact"});
                }
                std::this_thread::sleep_for(std::chrono::microseconds(200 + trand() % 800));
            }
        });
    }
    for (int a = 0; a < nread; ++a)
    {
        uint64_t sd = r.e();
        th.emplace_back([&, a, sd]() {
            t_rng = sd | 1;
            auto& L = logs[napp + 2 + a];
            auto got = [&](uint64_t s, uint64_t e, ulong i, const ptr<log_entry>& le, const char* how) {
                if (!le) { L.push_back({Ev::NONE, s, e, i, 0, 0, how}); return; }
                bool ok;
                uint64_t id = id_of(le, ok);
                if (!ok) fail("torn-entry", S("%s returns an entry at %llu that was never stored as a whole (id %llu, %zu bytes)", how, (unsigned long long)i, (unsigned long long)id, le->get_buf().size()));
                else L.push_back({Ev::READ, s, e, i, id, 0, how});
            };
            while (writers > 0 && !stop)
            {
                ulong fi = st->start_index(), nx = st->next_slot();
                if (nx < fi) fail("bounds", S("next index %llu below first index %llu", (unsigned long long)nx, (unsigned long long)fi));
                ulong i = trand() % 3 == 0 && nx > fi ? fi + trand() % (nx - fi) : nx > 1 + fi ? nx - 1 - trand() % std::min<ulong>(8, nx - fi) : fi;
                uint64_t s = tick();
                try
                {
                    switch (trand() % 5)
                    {
                        case 0: case 1: { auto e = st->entry_at(i); got(s, tick(), i, e, "entry_at"); break; }
                        case 2:
                        {
                            ulong n = 1 + trand() % 6;
                            auto es = st->log_entries(i, i + n);
                            uint64_t en = tick();
                            if (es && es->size() > n) fail("range-size", S("log_entries(%llu,%llu) returns %zu entries", (unsigned long long)i, (unsigned long long)(i + n), es->size()));
                            if (es) for (size_t k = 0; k < es->size(); ++k) { if (!(*es)[k]) fail("range-hole", "log_entries returns a hole"); else got(s, en, i + k, (*es)[k], "log_entries"); }
                            break;
                        }
                        case 3: { ulong t = st->term_at(i); uint64_t en = tick(); L.push_back({Ev::NEXT, s, en, i, 0, t, "term_at"}); break; }
                        case 4:
                        {
                            bufptr p = st->pack(i, (int32)(1 + trand() % 4));
                            uint64_t en = tick();
                            if (p->size() > 8)
                            {
                                int32 il = p->get_int(), dl = p->get_int();
                                if (il <= 0 || il % 8 || dl < 0 || (size_t)(il + dl + 8) != p->size()) { fail("pack-format", S("pack of %d index bytes, %d data bytes, %zu bytes", il, dl, p->size())); break; }
                                std::vector<ulong> pos;
                                for (int k = 0; k < il / 8; ++k) pos.push_back(p->get_ulong());
                                for (size_t k = 0; k < pos.size(); ++k)
                                {
                                    ulong o = pos[k] - pos[0], en2 = k + 1 < pos.size() ? pos[k + 1] - pos[0] : (ulong)dl;
                                    if (o > en2 || en2 > (ulong)dl) { fail("pack-format", "pack with wrong offsets"); break; }
                                    p->pos((size_t)(8 + il + o));
                                    bufptr one = buffer::alloc((size_t)(en2 - o));
                                    memcpy(one->data(), p->data(), (size_t)(en2 - o));
                                    auto le = log_entry::deserialize(*one);
                                    got(s, en, i + k, le, "pack");
                                }
                            }
                            break;
                        }
                    }
                }
                catch (std::range_error&) { L.push_back({Ev::NONE, s, tick(), i, 0, 1, "read"}); }
                catch (std::exception& e) { fail("read-throws", S("reading at %llu throws %s", (unsigned long long)i, e.what())); }
            }
        });
    }
    for (auto& t : th) t.join();
    g_delay.store(0);
    // ---- offline judgement
    std::vector<Ev> puts, cuts, comps, reads;
    for (auto& l : logs) for (auto& e : l) { if (e.t == Ev::PUT) puts.push_back(e); else if (e.t == Ev::CUT) cuts.push_back(e); else if (e.t == Ev::COMPACT) comps.push_back(e); else reads.push_back(e); }
    std::map<uint64_t, const Ev*> by_id;
    for (auto& p : puts) by_id[p.val] = &p;
    uint64_t h = fnv(&seed, sizeof seed);
    if (!failures)
    {
        // was the entry of this put discarded for certain before time t?  may it have been before t?
        auto surely_gone = [&](const Ev& p, uint64_t t) {
            for (auto& c : cuts) if (c.idx <= p.idx && c.s > p.e && c.e < t) return true;
            for (auto& c : comps) if (c.idx >= p.idx && c.e < t) return true;
            return false;
        };
        auto maybe_gone = [&](const Ev& p, uint64_t t) {
            for (auto& c : cuts) if (c.idx <= p.idx && c.e > p.s && c.s < t && !(c.s == p.s && c.e == p.e)) return true;
            for (auto& c : comps) if (c.idx >= p.idx && c.s < t) return true;
            return false;
        };
        std::map<ulong, std::vector<const Ev*>> at;
        for (auto& p : puts) at[p.idx].push_back(&p);
        for (auto& q : reads)
        {
            ++g_stat["reads_judged"];
            if (q.t == Ev::READ)
            {
                auto it = by_id.find(q.val);
                if (it == by_id.end()) continue; // its writer failed
                const Ev& p = *it->second;
                h = h * 31 + q.val;
                if (p.idx != q.idx) { fail("wrong-entry", S("%s returns at %llu the entry stored at %llu", q.how, (unsigned long long)q.idx, (unsigned long long)p.idx)); break; }
                if (p.s > q.e) { fail("from-future", S("%s returns an entry at %llu before it was stored", q.how, (unsigned long long)q.idx)); break; }
                if (surely_gone(p, q.s)) { fail("stale-read", S("%s at %llu returns an entry that had been discarded before the call", q.how, (unsigned long long)q.idx)); break; }
            }
            else if (q.t == Ev::NONE)
            {
                for (auto* p : at[q.idx])
                    if (p->e < q.s && !maybe_gone(*p, q.e)) { fail("lost-read", S("%s at %llu finds nothing although an entry was stored there all the time", q.how, (unsigned long long)q.idx)); break; }
            }
            else // term
            {
                bool may = false, sure = false;
                for (auto* p : at[q.idx])
                {
                    if (1 + p->val % 1000003 == q.aux && p->s < q.e) may = true;
                    if (p->e < q.s && !maybe_gone(*p, q.e)) sure = true;
                }
                if (sure && !may) { fail("wrong-term", S("term_at(%llu) returns %llu, never stored there", (unsigned long long)q.idx, (unsigned long long)q.aux)); break; }
            }
        }
        // every entry that nothing can have discarded is there, at its index; two entries never share an index
        uint64_t fin = g_tick;
        if (!failures)
        {
            for (auto& p : puts)
            {
                ++g_stat["writes_judged"];
                if (maybe_gone(p, fin)) continue;
                ptr<log_entry> e;
                try { e = st->entry_at(p.idx); } catch (std::exception&) {}
                bool ok = false;
                uint64_t id = e ? id_of(e, ok) : 0;
                if (!e || !ok || id != p.val) { fail("lost-entry", S("the entry stored by %s at %llu is gone (found id %llu, stored %llu)", p.how, (unsigned long long)p.idx, (unsigned long long)id, (unsigned long long)p.val)); break; }
            }
        }
        // the contents are consistent and the same after reopening
        if (!failures)
        {
            try
            {
                Model m;
                m.start = st->start_index();
                ulong nx = st->next_slot();
                for (ulong i = m.start; i < nx; ++i) { auto e = st->entry_at(i); if (!e) { fail("final-hole", S("nothing at %llu", (unsigned long long)i)); break; } m.v.push_back(rd(e)); bool ok; id_of(e, ok); if (!ok) { fail("final-torn", S("torn entry at %llu", (unsigned long long)i)); break; } }
                Rng vr(seed);
                if (!failures) { if (!verify(*st, m, "after concurrent use", vr, true)) failures = 1; }
                st.reset();
                if (!failures) { st = cs_new<fs_log_store>(d, gen_buf(r)); verify(*st, m, "reopened after concurrent use", vr, true); }
            }
            catch (std::exception& e) { fail("final-throws", S("reading back throws %s", e.what())); }
        }
        g_stat["overwrites"] += cuts.size();
        g_stat["compactions"] += comps.size();
    }
    st.reset();
    discard(d);
    return h;
}

int main(int argc, char** argv)
{
    unsigned long long from = 1, to = 1;
    g_mode = argv[1];
    for (int i = 2; i < argc; ++i)
    {
        std::string a = argv[i];
        if (a == "--dir") g_dir = argv[++i];
        else if (a == "--from") from = strtoull(argv[++i], 0, 10);
        else if (a == "--to") to = strtoull(argv[++i], 0, 10);
        else if (a == "--seed") from = to = strtoull(argv[++i], 0, 10);
        else if (a == "--trace") g_trace = true;
    }
    setvbuf(stdout, 0, _IOLBF, 0);
    g_dir += S("/%d", (int)getpid());
    mkdir(g_dir.c_str(), 0755);
    std::string mode = g_mode;
    for (g_seed = from; g_seed <= to && g_viols == 0; ++g_seed)
    {
        printf("BEGIN seed=%llu\n", g_seed);
        uint64_t h = mode == "model" ? run_model(g_seed) : mode == "kill" ? run_kill(g_seed) : mode == "fault" ? run_fault(g_seed) : run_conc(g_seed);
        printf("DONE seed=%llu hash=%llx\n", g_seed, (unsigned long long)h);
    }
    rmdir(g_dir.c_str());
    std::string s = "STAT";
    for (auto& kv : g_stat) s += S(" %s=%lu", kv.first.c_str(), kv.second);
    puts(s.c_str());
    fflush(stdout);
    return g_viols ? 1 : 0;
}
