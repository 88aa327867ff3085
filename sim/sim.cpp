#include "sim.hpp"
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <csignal>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <algorithm>

using simrt::Rng;

// ------------------------------------------------------------------ globals
static std::string g_prop = "all";
static std::string g_profile = "mix";
static bool g_trace = false;
static uint64_t g_seed = 1;
static FILE* g_out = stdout;

struct Stats
{
    std::map<std::string, uint64_t> c;
    void add(const char* k, uint64_t n = 1) { c[k] += n; }
};
static Stats g_stats;
static std::map<std::string, uint64_t> g_evals; // monitor evaluations per property

static void TR(const char* f, ...)
{
    if (!g_trace) return;
    va_list ap;
    va_start(ap, f);
    fprintf(stderr, "%9.3f ms  ", simrt::now_us() / 1000.0);
    vfprintf(stderr, f, ap);
    fputc('\n', stderr);
    va_end(ap);
}
static std::string S(const char* f, ...)
{
    char b[1024];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}

static void finish(int code);
static bool g_ignored_violation = false;
static void violate(const char* tags, const char* key, const std::string& msg)
{
    TR("VIOLATION [%s] %s: %s", tags, key, msg.c_str());
    bool sel = g_prop == "all" || strstr(tags, g_prop.c_str()) != nullptr;
    if (sel)
    {
        fprintf(g_out, "VIOL seed=%llu profile=%s tags=%s key=%s msg=%s\n", (unsigned long long)g_seed,
                g_profile.c_str(), tags, key, msg.c_str());
        finish(3);
    }
    if (g_prop == "survey")
    {
        static std::set<std::string> seen;
        if (seen.insert(key).second)
            fprintf(g_out, "SURVEY seed=%llu tags=%s key=%s msg=%s\n", (unsigned long long)g_seed, tags, key, msg.c_str());
    }
    g_ignored_violation = true;
    g_stats.add("other_violation");
}
#define EVAL(p) (++g_evals[p])

// ------------------------------------------------------------------ episode parameters
struct Params
{
    int n = 3;
    bool prevote = false, defensive = true;
    int lower = 150, upper = 300, hb = 75, backoff = 25;
    int max_append = 100;
    int snap_dist = 0, snap_block = 0, reserved = 0;
    int snap_pad = 20;
    int sync_batch = 5, sync_gap = 3;
    bool sm_durable = true;
    double p_loss = 0, p_resploss = 0, p_ghost = 0;
    int lat_min = 200, lat_max = 5000; // us
    int64_t chaos_us = 4000000;
    int crashes = 0, partitions = 0, opcrashes = 0;
    double client_gap_ms = 40;
    double p_cookie = 0.2;
    double psw = 0.1, pov = 0.01, pspur = 0;
    bool membership = false;
    bool destroy = false;
    bool snap_async = false;
    double p_snap_fail = 0;
    double p_apply_slow = 0;
    bool isolate_leader = false;
    int max_batch = 3;
    bool use_event_listener = true;
};
static Params P;

// ------------------------------------------------------------------ events
struct Ev
{
    int group; // incarnation the job runs in; 0: none (driver job)
    std::function<void()> fn;
    bool on_driver = false;
};
static std::map<std::pair<int64_t, uint64_t>, Ev> g_events;
static uint64_t g_evseq = 0;
static uint64_t g_evcount = 0;
static void at(int64_t t, int group, std::function<void()> fn)
{
    g_events[{t, g_evseq++}] = Ev{group, std::move(fn), false};
}
static void at_driver(int64_t t, std::function<void()> fn)
{
    g_events[{t, g_evseq++}] = Ev{0, std::move(fn), true};
}
static Rng& R() { return simrt::rng(); }
static int64_t now() { return simrt::now_us(); }
static std::map<int, int> g_inside; // incarnation -> handlers running in it

// ------------------------------------------------------------------ nodes
struct SimStore;
struct SimSM;
struct Node
{
    int id = 0;
    Disk disk;
    bool alive = false;
    bool booting = false;
    bool gone = false; // removed for good
    bool leaving = false, removed = false;
    bool joiner = false;
    int inc = 0;
    ptr<raft_server> srv;
    SimSM* sm = nullptr;
    // volatile monitor state
    int64_t term_at = 0; // when the term was last raised
    ulong leader_term = 0; // became leader in this term during this incarnation
    ulong cand_term = 0;   // sent vote requests in this term as candidate, not follower since
    std::set<int> prevotes;
    int64_t last_heard = -1;
    ulong last_heard_term = 0;
    std::map<int, int64_t> peer_resp;    // last delivered answer (append/vote/snapshot) per peer
    std::map<int, int64_t> peer_resp_ae; // last delivered append answer of the current leadership
    std::map<int, int> peer_inflight;    // answers whose handler is running right now
    int crash_in_ops = -1;
    bool crash_after = false;
    std::vector<std::set<int>> confs; // memberships adopted (saved or loaded), newest last
    // C10
    struct PC { uint64_t h; bool pre = false; bool rolled = false; ulong term; };
    std::map<ulong, PC> pc;               // entries stored by this incarnation
    std::map<ulong, uint64_t> pending_rb; // discarded, awaiting rollback
    std::map<ulong, uint64_t> early_rb;   // rolled back, awaiting discard
    std::map<ulong, std::pair<uint, ptr<void>>> cookies;
    ulong commit_floor = 0;
    int election_timeouts = 0;
    bool quick_exit = false;
    bool big_timeout = false;
};
static std::map<int, Node*> g_nodes;
static int g_next_inc = 1;
static Node* node(int id)
{
    auto it = g_nodes.find(id);
    return it == g_nodes.end() ? nullptr : it->second;
}
static bool live(Node* n, int inc) { return n && n->alive && n->inc == inc; }

struct CurMsg
{
    int type = 0; // msg being processed by this thread
    bool in_handler = false;
};
static thread_local CurMsg t_cur;

// ------------------------------------------------------------------ global monitor state
struct EInfo { uint64_t h; int type; ulong prev_term; bool prev_known; };
struct CInfo { ulong term; uint64_t h; int type; };
struct Val
{
    int id; int batch; int pos;
    bool created = false; ulong idx = 0, term = 0; int ncreated = 0;
};
struct Batch
{
    std::vector<int> vals;
    int status = 0; // 0 open, 1 accepted, 2 refused, 3 failed(unknown)
    bool leader_said = false, leader_accept = false;
    int at_node = 0;
    int at_inc = 0;
    bool dead = false;
};
struct ChangeReq { int id; bool add; std::string ep; bool accepted = false; bool used = false; };
static std::map<ulong, int> g_leader_of;
static std::map<ulong, std::map<int, std::set<int>>> g_votes; // term -> cand -> voters (delivered)
static std::map<std::pair<ulong, ulong>, EInfo> g_ent;
static std::map<ulong, CInfo> g_committed;
static std::map<ulong, std::vector<std::pair<int, std::string>>> g_conf_committed; // idx->servers
static std::map<ulong, bytes> g_snap_data; // idx -> bytes
static std::map<int, Val> g_vals;
static std::map<int, Batch> g_batches;
static std::vector<ChangeReq> g_changes;
static int g_next_val = 1, g_next_batch = 1;
static std::vector<int> g_initial;
static ulong g_maxterm = 0;
static bool g_healed = false;
static int64_t g_heal_time = 0;
static std::map<std::pair<int, int>, bool> g_cut; // directed
static double g_loss = 0, g_resploss = 0, g_ghost = 0;

static ulong max_committed() { return g_committed.empty() ? 0 : g_committed.rbegin()->first; }

static ptr<cluster_config> parse_conf(const bytes& b)
{
    bufptr x = mkbuf(b);
    return cluster_config::deserialize(*x);
}
static std::vector<std::pair<int, std::string>> conf_servers(cluster_config& c)
{
    std::vector<std::pair<int, std::string>> v;
    for (auto& s : c.get_servers()) v.push_back({s->get_id(), s->get_endpoint()});
    std::sort(v.begin(), v.end());
    return v;
}
static std::set<int> ids_of(const std::vector<std::pair<int, std::string>>& v)
{
    std::set<int> s;
    for (auto& p : v) s.insert(p.first);
    return s;
}

// memberships that may be in force right now: the newest committed one and any conf entry after it
static std::vector<std::set<int>> possible_confs(Node* n)
{
    std::vector<std::set<int>> r;
    if (g_conf_committed.empty()) r.push_back(std::set<int>(g_initial.begin(), g_initial.end()));
    else
    {
        auto it = g_conf_committed.rbegin();
        r.push_back(ids_of(it->second));
        ++it;
        if (it != g_conf_committed.rend()) r.push_back(ids_of(it->second));
        else r.push_back(std::set<int>(g_initial.begin(), g_initial.end()));
    }
    if (P.membership)
    {
        for (auto& kv : g_nodes)
            for (auto& e : kv.second->disk.log)
                if (e.type == log_val_type::conf)
                {
                    auto c = parse_conf(e.data);
                    auto s = ids_of(conf_servers(*c));
                    bool dup = false;
                    for (auto& x : r) if (x == s) dup = true;
                    if (!dup) r.push_back(s);
                }
        if (n) for (auto& x : n->confs) { bool dup = false; for (auto& y : r) if (x == y) dup = true; if (!dup) r.push_back(x); }
    }
    return r;
}

static bool has_entry(const Disk& d, ulong idx, ulong term)
{
    if (idx < d.start) return true; // compacted: guarded by the compaction monitor
    const Entry* e = d.at(idx);
    if (e) return e->term == term;
    return d.applied >= idx && d.last_snap >= idx;
}

// idx..: becomes known committed through node n (its durable log has it)
static void on_commit_point(Node* n, ulong upto, const char* how)
{
    const Disk& d = n->disk;
    ulong from = max_committed() + 1;
    for (ulong i = from; i <= upto; ++i)
    {
        const Entry* e = d.at(i);
        if (!e)
        {
            if (i < d.start) continue;
            violate("C03 C02", "commit-unstored", S("server %d treats index %llu as committed (%s) but does not store it", n->id, (unsigned long long)i, how));
            return;
        }
        EVAL("C03");
        std::string why;
        bool ok = false;
        for (auto& mem : possible_confs(n))
        {
            int maj = (int)mem.size() / 2 + 1, have = 0;
            std::string w;
            for (int m : mem)
            {
                Node* x = node(m);
                if (x && has_entry(x->disk, i, e->term)) ++have;
            }
            bool good = have >= maj;
            if (!good) w = S("only %d of %zu members store it", have, mem.size());
            else
                for (int m : mem)
                {
                    Node* x = node(m);
                    if (!x || has_entry(x->disk, i, e->term)) continue;
                    int votes = 0;
                    for (int v : mem)
                    {
                        Node* y = node(v);
                        if (!y) continue;
                        if (v == m || y->disk.last_term() < x->disk.last_term() ||
                            (y->disk.last_term() == x->disk.last_term() && y->disk.last_idx() <= x->disk.last_idx()))
                            ++votes;
                    }
                    if (votes >= maj) { good = false; w = S("server %d lacks it and could still be elected", m); break; }
                }
            if (good) { ok = true; break; }
            why += w + "; ";
        }
        if (!ok)
            violate("C03 C02", "commit-unsafe", S("entry (%llu,term %llu) is treated as committed by server %d (%s) but %s", (unsigned long long)i, (unsigned long long)e->term, n->id, how, why.c_str()));
        g_committed[i] = CInfo{e->term, fnv(e->data), e->type};
        g_stats.add("committed");
        if (e->type == log_val_type::conf)
        {
            auto c = parse_conf(e->data);
            g_conf_committed[i] = conf_servers(*c);
        }
    }
}

static bool ever_member(int id);
static bool knows_cluster(Node* n);
static std::set<int> committed_members();
static bool majority_stores(Node* n, ulong idx, ulong term, Node* except = nullptr)
{
    for (auto& mem : possible_confs(n))
    {
        int have = 0;
        for (int m : mem) { Node* x = node(m); if (x && x != except && has_entry(x->disk, idx, term)) ++have; }
        if (have > (int)mem.size() / 2) return true;
    }
    return false;
}
static void check_committed_entry(Node* n, ulong idx, ulong term, uint64_t h, const char* how)
{
    auto it = g_committed.find(idx);
    if (it == g_committed.end()) return;
    EVAL("C02");
    if (it->second.h != h)
        violate("C02 C03", "apply-diverge", S("server %d %s different bytes at index %llu than another server applied", n->id, how, (unsigned long long)idx));
    else if (it->second.term != term)
        violate("C02 C03 C04", "apply-diverge-term", S("server %d %s index %llu of term %llu, another server term %llu", n->id, how, (unsigned long long)idx, (unsigned long long)term, (unsigned long long)it->second.term));
}

static void crash(Node* n, const char* why);
static void note_leader(ulong term, int id, const char* how);
static std::set<int> committed_members();
static bool ever_member(int id);
static bool vote_majority(Node* n, ulong term, std::string* desc)
{
    auto& v = g_votes[term][n->id];
    bool ok = false;
    for (auto& c : possible_confs(n))
    {
        int k = 1;
        for (int x : v) if (c.count(x)) ++k;
        if (k > (int)c.size() / 2) ok = true;
        if (desc) *desc += S(" %d/%zu", k, c.size());
    }
    return ok;
}
static void leader_elected(Node* n, const char* how)
{
    Disk& d = n->disk;
    TR("%d: LEADER of term %llu (%s)", n->id, (unsigned long long)d.term, how);
    note_leader(d.term, n->id, how);
    n->leader_term = d.term;
    n->cand_term = 0;
    n->peer_resp_ae.clear();
    n->prevotes.clear();
    EVAL("C01");
    std::string sz;
    if (!vote_majority(n, d.term, &sz)) violate("C01", "leader-without-majority", S("server %d leads term %llu with votes%s", n->id, (unsigned long long)d.term, sz.c_str()));
    if (d.voted != n->id) violate("C01 C05", "leader-vote", S("server %d leads term %llu but its persisted vote is %d", n->id, (unsigned long long)d.term, d.voted));
    for (auto& kv : g_committed)
    {
        EVAL("C03");
        if (!has_entry(d, kv.first, kv.second.term))
        {
            violate("C03 C02", "leader-incomplete", S("server %d becomes leader of term %llu without committed entry (%llu,term %llu)", n->id, (unsigned long long)d.term, (unsigned long long)kv.first, (unsigned long long)kv.second.term));
            break;
        }
    }
}
static void durable_point(Node* n, int inc, bool after)
{
    simrt::point();
    if (!live(n, inc)) return;
    if (n->crash_in_ops >= 0)
    {
        if (n->crash_in_ops == 0 && n->crash_after == after) { n->crash_in_ops = -1; g_stats.add("op_crash"); crash(n, "at a durable operation"); }
        else if (!after && n->crash_in_ops > 0) n->crash_in_ops--;
    }
}

// a write of (idx,entry) reached node n's log
static void on_log_write(Node* n, ulong idx, const Entry& e, bool from_pack, bool is_append)
{
    Disk& d = n->disk;
    bool prev_known = idx == 1 || d.at(idx - 1) != nullptr || (idx == d.start && d.base_known);
    ulong prev_term = idx == 1 ? 0 : d.at(idx - 1) ? d.at(idx - 1)->term : d.base_term;
    uint64_t h = fnv(e.data);
    EVAL("C04");
    g_stats.add("log_writes");
    auto key = std::make_pair(idx, e.term);
    auto it = g_ent.find(key);
    if (n->leader_term != d.term && e.term == d.term && it == g_ent.end() && vote_majority(n, d.term, nullptr))
        leader_elected(n, "writes as leader"); // the entry precedes the announcement
    bool is_leader_here = n->leader_term != 0 && n->leader_term == d.term && g_leader_of.count(d.term) && g_leader_of[d.term] == n->id;
    if (it == g_ent.end())
    {
        // creation
        if (e.term != d.term || !is_leader_here)
            violate("C04 C09 C11", "create-not-leader", S("server %d created entry (%llu,term %llu) without being leader of that term (its term %llu, leader since %llu)", n->id, (unsigned long long)idx, (unsigned long long)e.term, (unsigned long long)d.term, (unsigned long long)n->leader_term));
        g_ent[key] = EInfo{h, e.type, prev_term, prev_known};
        g_stats.add("created");
        if (e.type == log_val_type::app_log && e.data.size() >= 8)
        {
            int vid = 0;
            memcpy(&vid, e.data.data(), 4);
            auto v = g_vals.find(vid);
            EVAL("C11");
            if (v == g_vals.end()) violate("C11 C04", "unknown-value", S("server %d stored bytes at index %llu that no client submitted", n->id, (unsigned long long)idx));
            else
            {
                Val& x = v->second;
                Batch& b = g_batches[x.batch];
                if (x.ncreated++ > 0) violate("C11", "dup-value", S("value %d entered a log twice (index %llu/term %llu and %llu/%llu)", vid, (unsigned long long)x.idx, (unsigned long long)x.term, (unsigned long long)idx, (unsigned long long)e.term));
                if (b.status == 2) violate("C11", "refused-created", S("value %d was refused but entered the log of server %d at %llu", vid, n->id, (unsigned long long)idx));
                x.created = true; x.idx = idx; x.term = e.term;
                b.at_node = n->id;
            }
        }
        if (e.type == log_val_type::conf)
        {
            auto c = parse_conf(e.data);
            EVAL("C09");
            g_stats.add("conf_created");
            // previous conf in this log
            ulong pidx = 0;
            std::vector<std::pair<int, std::string>> prev;
            for (ulong i = idx - 1; i >= d.start && i > 0; --i)
                if (d.at(i)->type == log_val_type::conf) { pidx = i; prev = conf_servers(*parse_conf(d.at(i)->data)); break; }
            if (!pidx)
            {
                // the newest one before this log starts (a server that was removed may not have heard of later ones and
                // still think it leads)
                for (auto r = g_conf_committed.rbegin(); r != g_conf_committed.rend(); ++r)
                    if (r->first < idx && r->first < d.start) { pidx = r->first; prev = r->second; break; }
            }
            auto cur = conf_servers(*c);
            if (c->get_log_idx() != idx) violate("C09", "conf-idx", S("membership entry at %llu claims index %llu", (unsigned long long)idx, (unsigned long long)c->get_log_idx()));
            if (pidx == 0)
            {
                if (ids_of(cur) != std::set<int>(g_initial.begin(), g_initial.end())) violate("C09", "conf-initial", S("first membership entry at %llu is not the initial membership", (unsigned long long)idx));
            }
            else
            {
                if (c->get_prev_log_idx() != pidx)
                    violate("C09", "conf-prev", S("membership entry at %llu refers to predecessor %llu instead of %llu", (unsigned long long)idx, (unsigned long long)c->get_prev_log_idx(), (unsigned long long)pidx));
                if (!g_conf_committed.count(pidx))
                    violate("C09", "conf-overlap", S("server %d started a membership change at %llu while the one at %llu is not committed", n->id, (unsigned long long)idx, (unsigned long long)pidx));
                std::vector<std::pair<int, std::string>> add, rem;
                std::set_difference(cur.begin(), cur.end(), prev.begin(), prev.end(), std::back_inserter(add));
                std::set_difference(prev.begin(), prev.end(), cur.begin(), cur.end(), std::back_inserter(rem));
                if (add.size() + rem.size() != 1)
                    violate("C09", "conf-step", S("membership at %llu differs from its predecessor at %llu by %zu added, %zu removed", (unsigned long long)idx, (unsigned long long)pidx, add.size(), rem.size()));
                else
                {
                    bool found = false;
                    for (auto& q : g_changes)
                        if (q.add == !add.empty() && q.id == (add.empty() ? rem[0].first : add[0].first) && (!q.add || q.ep == add[0].second)) found = true;
                    if (!found) violate("C09", "conf-unrequested", S("membership at %llu changes server %d which nobody requested", (unsigned long long)idx, add.empty() ? rem[0].first : add[0].first));
                }
            }
        }
    }
    else
    {
        if (it->second.h != h || it->second.type != e.type)
            violate("C04", "log-mismatch", S("server %d stores (%llu,term %llu) with content different from another log", n->id, (unsigned long long)idx, (unsigned long long)e.term));
        if (prev_known && it->second.prev_known && it->second.prev_term != prev_term)
            violate("C04", "log-prefix", S("server %d stores (%llu,term %llu) after term %llu, another log has term %llu before it", n->id, (unsigned long long)idx, (unsigned long long)e.term, (unsigned long long)prev_term, (unsigned long long)it->second.prev_term));
        if (prev_known && !it->second.prev_known) { it->second.prev_known = true; it->second.prev_term = prev_term; }
    }
    auto ci = g_committed.find(idx);
    if (ci != g_committed.end())
    {
        EVAL("C03");
        if (ci->second.term != e.term && n->disk.applied >= idx)
            violate("C03", "replace-applied", S("server %d replaced applied index %llu", n->id, (unsigned long long)idx));
    }
    // C10 bookkeeping
    Node::PC p;
    p.h = h;
    p.term = e.term;
    if (e.type == log_val_type::app_log && !from_pack) n->pc[idx] = p; else n->pc.erase(idx);
    (void)is_append;
}

// node n drops [from, last] from its log
static void on_truncate(Node* n, ulong from)
{
    Disk& d = n->disk;
    g_stats.add("truncations");
    for (ulong i = from; i < d.next(); ++i)
    {
        const Entry* e = d.at(i);
        auto c = g_committed.find(i);
        EVAL("C03");
        // an old leader may overwrite it on a server outside the quorum (and the new leader sends it again), but never on
        // a server that applied it or is needed for the majority
        if (c != g_committed.end() && c->second.term == e->term && (i <= d.applied || !majority_stores(n, i, e->term, n)))
            violate("C03", "drop-committed", S("server %d drops committed entry (%llu,term %llu) from its log", n->id, (unsigned long long)i, (unsigned long long)e->term));
        EVAL("C04");
        if (n->leader_term == d.term && d.term && g_leader_of.count(d.term) && g_leader_of[d.term] == n->id)
            violate("C04", "leader-rewrite", S("leader %d rewrites index %llu of its own log", n->id, (unsigned long long)i));
        g_stats.add("discarded");
        if (e->type == log_val_type::app_log)
        {
            auto er = n->early_rb.find(i);
            if (er != n->early_rb.end())
            {
                n->early_rb.erase(er);
            }
            else n->pending_rb[i] = fnv(e->data);
        }
        n->pc.erase(i);
        n->cookies.erase(i);
    }
}

static void c10_quiescent(Node* n)
{
    EVAL("C10");
    if (!n->pending_rb.empty())
        violate("C10", "no-rollback", S("server %d discarded entry %llu without rolling it back", n->id, (unsigned long long)n->pending_rb.begin()->first));
    if (!n->early_rb.empty())
        violate("C10", "bogus-rollback", S("server %d rolled back entry %llu but kept it", n->id, (unsigned long long)n->early_rb.begin()->first));
    for (auto& kv : n->pc)
        if (!kv.second.pre)
        {
            violate("C10", "no-precommit", S("server %d stored entry %llu without announcing it", n->id, (unsigned long long)kv.first));
            break;
        }
}

// ------------------------------------------------------------------ harness interfaces
struct SimLogger : public logger
{
    int id;
    SimLogger(int i) : id(i) {}
    void log(const char* l, const std::string& s) { if (g_trace) TR("   [%d] %s %s", id, l, s.c_str()); }
    void debug(const std::string& s) override { log("D", s); }
    void info(const std::string& s) override { log("I", s); }
    void warn(const std::string& s) override { log("W", s); }
    void err(const std::string& s) override { log("E", s); }
};

struct SimStore : public log_store
{
    Node* n;
    int inc;
    std::map<ulong, ptr<log_entry>> cache; // shared entries, as the file log store's buffer does
    SimStore(Node* x) : n(x), inc(x->inc) {}
    Disk& d() const { return n->disk; }
    void guard() const
    {
        if (!live(n, inc)) simrt::park_forever();
    }
    ptr<log_entry> mk(ulong i)
    {
        auto it = cache.find(i);
        if (it != cache.end()) return it->second;
        const Entry* e = d().at(i);
        ptr<log_entry> le = cs_new<log_entry>(e->term, mkbuf(e->data), (log_val_type)e->type);
        cache[i] = le;
        return le;
    }
    ulong next_slot() const override { simrt::point(); guard(); return d().next(); }
    ulong start_index() const override { simrt::point(); guard(); return d().start; }
    ptr<log_entry> last_entry() const override
    {
        simrt::point();
        guard();
        if (d().log.empty()) return cs_new<log_entry>((ulong)0, buffer::alloc(0));
        return const_cast<SimStore*>(this)->mk(d().last_idx());
    }
    ulong append(ptr<log_entry>& e) override
    {
        durable_point(n, inc, false);
        guard();
        Entry x{e->get_term(), (int)e->get_val_type(), buf_bytes(e->get_buf())};
        ulong idx = d().next();
        TR("%d: append %llu term %llu type %d", n->id, (unsigned long long)idx, (unsigned long long)x.term, x.type);
        on_log_write(n, idx, x, false, true);
        d().log.push_back(x);
        cache[idx] = e;
        durable_point(n, inc, true);
        guard();
        return idx;
    }
    void write_at(ulong idx, ptr<log_entry>& e) override
    {
        durable_point(n, inc, false);
        guard();
        if (idx < d().start || idx > d().next()) throw std::range_error("index out of range");
        Entry x{e->get_term(), (int)e->get_val_type(), buf_bytes(e->get_buf())};
        TR("%d: write_at %llu term %llu type %d", n->id, (unsigned long long)idx, (unsigned long long)x.term, x.type);
        if (idx < d().next()) on_truncate(n, idx);
        d().log.resize((size_t)(idx - d().start));
        for (auto it = cache.lower_bound(idx); it != cache.end();) it = cache.erase(it);
        on_log_write(n, idx, x, false, false);
        d().log.push_back(x);
        cache[idx] = e;
        durable_point(n, inc, true);
        guard();
    }
    ptr<std::vector<ptr<log_entry>>> log_entries(ulong s, ulong e) override
    {
        simrt::point();
        guard();
        if (s < d().start) throw std::range_error("index out of range");
        if (s >= e || s >= d().next()) return ptr<std::vector<ptr<log_entry>>>();
        auto v = cs_new<std::vector<ptr<log_entry>>>();
        for (ulong i = s; i < e && i < d().next(); ++i) v->push_back(mk(i));
        return v;
    }
    ptr<log_entry> entry_at(ulong i) override
    {
        simrt::point();
        guard();
        if (i < d().start) throw std::range_error("index out of range");
        if (i >= d().next()) return ptr<log_entry>();
        return mk(i);
    }
    ulong term_at(ulong i) override
    {
        simrt::point();
        guard();
        if (i < d().start) throw std::range_error("index out of range");
        if (i >= d().next()) return 0;
        return d().at(i)->term;
    }
    bufptr pack(ulong idx, int32 cnt) override
    {
        simrt::point();
        guard();
        if (idx < d().start) throw std::range_error("index out of range");
        bytes out;
        int32 c = 0;
        for (ulong i = idx; i < idx + (ulong)std::max(cnt, 0) && i < d().next(); ++i, ++c)
        {
            const Entry* e = d().at(i);
            int32 sz = (int32)e->data.size();
            out.append((char*)&e->term, 8);
            out.append((char*)&e->type, 4);
            out.append((char*)&sz, 4);
            out += e->data;
        }
        return mkbuf(bytes((char*)&c, 4) + out);
    }
    void apply_pack(ulong idx, buffer& pack) override
    {
        durable_point(n, inc, false);
        guard();
        bytes b = buf_rest(pack);
        if (idx < d().start || idx > d().next()) throw std::range_error("index out of range");
        if (b.size() < 4) throw std::runtime_error("bad pack");
        int32 c;
        memcpy(&c, b.data(), 4);
        size_t p = 4;
        if (idx < d().next()) on_truncate(n, idx);
        d().log.resize((size_t)(idx - d().start));
        for (auto it = cache.lower_bound(idx); it != cache.end();) it = cache.erase(it);
        for (int32 i = 0; i < c; ++i)
        {
            Entry e;
            int32 sz;
            memcpy(&e.term, b.data() + p, 8);
            memcpy(&e.type, b.data() + p + 8, 4);
            memcpy(&sz, b.data() + p + 12, 4);
            e.data = b.substr(p + 16, (size_t)sz);
            p += 16 + (size_t)sz;
            TR("%d: pack entry %llu term %llu", n->id, (unsigned long long)(idx + i), (unsigned long long)e.term);
            on_log_write(n, idx + (ulong)i, e, true, true);
            EVAL("C09");
            if (!g_committed.count(idx + (ulong)i) && !majority_stores(n, idx + (ulong)i, e.term))
                violate("C09 C04", "sync-uncommitted", S("joining server %d was given uncommitted entry %llu", n->id, (unsigned long long)(idx + i)));
            d().log.push_back(e);
        }
        g_stats.add("packs");
        durable_point(n, inc, true);
        guard();
    }
    bool compact(ulong i) override
    {
        durable_point(n, inc, false);
        guard();
        TR("%d: compact %llu (start %llu next %llu)", n->id, (unsigned long long)i, (unsigned long long)d().start, (unsigned long long)d().next());
        if (i < d().start) throw std::range_error("index out of range");
        EVAL("C08");
        g_stats.add("compactions");
        bool covered = d().last_snap >= i;
        for (auto& kv : d().partial)
            if (kv.first >= i && kv.second.have.size() == kv.second.size && std::all_of(kv.second.have.begin(), kv.second.have.end(), [](bool b) { return b; })) covered = true;
        if (!covered)
            violate("C08 C03", "compact-uncovered", S("server %d compacts up to %llu but its newest snapshot is %llu", n->id, (unsigned long long)i, (unsigned long long)d().last_snap));
        ulong bt = 0;
        bool known = true;
        if (d().at(i)) bt = d().at(i)->term;
        else if (g_committed.count(i)) bt = g_committed[i].term;
        else known = false;
        // if what is compacted conflicts with the committed history the log is not a continuation of the snapshot
        if (g_committed.count(i))
        {
            if (d().at(i) && g_committed[i].term != d().at(i)->term) g_stats.add("compact_conflict");
            bt = g_committed[i].term;
        }
        if (i >= d().next()) d().log.clear();
        else d().log.erase(d().log.begin(), d().log.begin() + (long)(i + 1 - d().start));
        d().start = i + 1;
        d().base_term = bt;
        d().base_known = known;
        for (auto it = cache.begin(); it != cache.end() && it->first <= i;) it = cache.erase(it);
        for (auto it = n->pc.begin(); it != n->pc.end() && it->first <= i;) it = n->pc.erase(it);
        durable_point(n, inc, true);
        guard();
        return true;
    }
};

static bytes snap_bytes(ulong idx, uint64_t digest, ulong cnt)
{
    bytes b;
    b.append((char*)&idx, 8);
    b.append((char*)&digest, 8);
    b.append((char*)&cnt, 8);
    uint64_t h = mix(digest, idx);
    size_t pad = (size_t)(P.snap_pad ? h % (uint64_t)P.snap_pad : 0);
    for (size_t i = 0; i < pad; ++i) { h = mix(h, i); b.push_back((char)h); }
    return b;
}

struct SimSM : public state_machine
{
    Node* n;
    int inc;
    SimSM(Node* x) : n(x), inc(x->inc) {}
    Disk& d() { return n->disk; }
    void guard()
    {
        if (!live(n, inc)) simrt::park_forever();
    }
    void check_cookie(const char* what, ulong idx, const uptr<log_entry_cookie>& c)
    {
        EVAL("C10");
        auto it = n->cookies.find(idx);
        if (it == n->cookies.end())
        {
            // the entry of the submission in progress is not indexed yet: match by value
            if (c)
            {
                int* v = (int*)c->value().get();
                if (!v || (uint)*v != c->tag()) violate("C10", "cookie", S("server %d: %s of %llu carries a wrong cookie", n->id, what, (unsigned long long)idx));
            }
            return;
        }
        if (!c || c->tag() != it->second.first || c->value() != it->second.second)
            violate("C10", "cookie", S("server %d: %s of %llu does not carry its cookie", n->id, what, (unsigned long long)idx));
    }
    void commit(const ulong idx, buffer& data, const uptr<log_entry_cookie>& c) override
    {
        durable_point(n, inc, false);
        guard();
        bytes b = buf_bytes(data);
        TR("%d: commit %llu", n->id, (unsigned long long)idx);
        g_stats.add("applies");
        EVAL("C02");
        if (idx <= d().applied)
            violate("C02", "reapply", S("server %d applies %llu again (already at %llu)", n->id, (unsigned long long)idx, (unsigned long long)d().applied));
        for (ulong i = d().applied + 1; i < idx; ++i)
        {
            const Entry* e = d().at(i);
            if (e ? e->type == log_val_type::app_log : !g_conf_committed.count(i)) // a membership entry may have been compacted
            {
                violate("C02", "skip", S("server %d applies %llu but skipped %llu (applied %llu)", n->id, (unsigned long long)idx, (unsigned long long)i, (unsigned long long)d().applied));
                break;
            }
        }
        const Entry* e = d().at(idx);
        if (!e) violate("C02 C03", "apply-unstored", S("server %d applies %llu which it does not store", n->id, (unsigned long long)idx));
        else
        {
            if (e->data != b) violate("C02 C10", "apply-bytes", S("server %d hands other bytes than stored to its state machine at %llu", n->id, (unsigned long long)idx));
            on_commit_point(n, idx, "applied");
            check_committed_entry(n, idx, e->term, fnv(b), "applies");
            auto p = n->pc.find(idx);
            EVAL("C10");
            if (p != n->pc.end() && !p->second.pre)
                violate("C10", "commit-before-precommit", S("server %d applies %llu before announcing it", n->id, (unsigned long long)idx));
            check_cookie("commit", idx, c);
        }
        d().applied = idx;
        d().digest = mix(d().digest, mix(fnv(b), idx));
        d().appcnt++;
        d().hist[idx] = {d().digest, d().appcnt};
        durable_point(n, inc, true);
        guard();
        if (P.p_apply_slow > 0) for (int k = 0; k < 6; ++k) { simrt::point(); guard(); }
    }
    void pre_commit(const ulong idx, buffer& data, const uptr<log_entry_cookie>& c) override
    {
        simrt::point();
        guard();
        bytes b = buf_bytes(data);
        EVAL("C10");
        const Entry* e = d().at(idx);
        if (!e || e->data != b)
            violate("C10", "precommit-bytes", S("server %d announces %llu with bytes it does not store there", n->id, (unsigned long long)idx));
        auto p = n->pc.find(idx);
        if (p == n->pc.end())
            violate("C10", "precommit-unknown", S("server %d announces %llu which it did not just store", n->id, (unsigned long long)idx));
        else
        {
            if (p->second.pre) violate("C10", "precommit-twice", S("server %d announces %llu twice", n->id, (unsigned long long)idx));
            p->second.pre = true;
        }
        check_cookie("pre-commit", idx, c);
        if (c) n->cookies[idx] = {c->tag(), c->value()};
    }
    void rollback(const ulong idx, buffer& data, const uptr<log_entry_cookie>& c) override
    {
        simrt::point();
        guard();
        bytes b = buf_bytes(data);
        TR("%d: rollback %llu", n->id, (unsigned long long)idx);
        g_stats.add("rollbacks");
        EVAL("C10");
        if (idx <= d().applied)
            violate("C10 C03 C02", "rollback-applied", S("server %d rolls back applied index %llu", n->id, (unsigned long long)idx));
        auto pr = n->pending_rb.find(idx);
        if (pr != n->pending_rb.end())
        {
            if (pr->second != fnv(b)) violate("C10", "rollback-bytes", S("server %d rolls back %llu with other bytes", n->id, (unsigned long long)idx));
            n->pending_rb.erase(pr);
        }
        else
        {
            const Entry* e = d().at(idx);
            if (!e || e->data != b) violate("C10", "rollback-bytes", S("server %d rolls back %llu with bytes it does not store", n->id, (unsigned long long)idx));
            if (n->early_rb.count(idx)) violate("C10", "rollback-twice", S("server %d rolls back %llu twice", n->id, (unsigned long long)idx));
            n->early_rb[idx] = fnv(b);
            check_cookie("rollback", idx, c);
        }
    }
    // ---- snapshots
    void create_snapshot(snapshot& s, async_result<bool>::handler_type& done) override
    {
        simrt::point();
        guard();
        ulong idx = s.get_last_log_idx();
        TR("%d: create_snapshot %llu", n->id, (unsigned long long)idx);
        EVAL("C08");
        g_stats.add("snapshots");
        // the state captured is the state now
        ulong app = d().applied;
        bool ok = app <= idx;
        for (ulong i = app + 1; ok && i <= idx; ++i)
        {
            const Entry* e = d().at(i);
            if (e ? e->type == log_val_type::app_log : !g_conf_committed.count(i)) ok = false;
        }
        if (!ok) violate("C08", "snapshot-prefix", S("server %d is asked for a snapshot at %llu while it has applied %llu", n->id, (unsigned long long)idx, (unsigned long long)app));
        const Entry* e = d().at(idx);
        if (!e || e->term != s.get_last_log_term())
            violate("C08", "snapshot-term", S("server %d: snapshot at %llu carries term %llu, log has %lld", n->id, (unsigned long long)idx, (unsigned long long)s.get_last_log_term(), e ? (long long)e->term : -1ll));
        if (!s.get_last_config()) violate("C08", "snapshot-conf", "no config");
        else
        {
            auto have = conf_servers(*s.get_last_config());
            ulong ci = 0;
            std::vector<std::pair<int, std::string>> want;
            for (auto& kv : g_conf_committed) if (kv.first <= idx) { ci = kv.first; want = kv.second; }
            if (ci == 0) { ok = ids_of(have) == std::set<int>(g_initial.begin(), g_initial.end()); }
            else ok = have == want && s.get_last_config()->get_log_idx() == ci;
            if (!ok) violate("C08 C09", "snapshot-conf", S("server %d: snapshot at %llu carries the membership of %llu, in force is that of %llu", n->id, (unsigned long long)idx, (unsigned long long)s.get_last_config()->get_log_idx(), (unsigned long long)ci));
        }
        Snap sn;
        sn.idx = idx;
        sn.term = s.get_last_log_term();
        sn.conf = buf_bytes(*s.get_last_config()->serialize());
        sn.data = snap_bytes(idx, d().digest, d().appcnt);
        if (!g_snap_data.count(idx)) g_snap_data[idx] = sn.data;
        Node* nn = n;
        int ic = inc;
        auto h = done;
        bool fail = R().chance(P.p_snap_fail);
        bool with_err = fail && R().chance(0.5);
        auto complete = [nn, ic, sn, h, fail, with_err]() mutable {
            if (!live(nn, ic)) return;
            if (!fail)
            {
                nn->disk.snaps[sn.idx] = sn;
                if (sn.idx > nn->disk.last_snap) nn->disk.last_snap = sn.idx;
            }
            durable_point(nn, ic, true);
            if (!live(nn, ic)) simrt::park_forever();
            bool res = !fail;
            ptr<std::exception> err;
            if (with_err) err = cs_new<std::exception>();
            TR("%d: snapshot %llu done (%d)", nn->id, (unsigned long long)sn.idx, (int)res);
            h(res, err);
        };
        if (P.snap_async) at(now() + R().range(100, 60000), inc, complete);
        else complete();
    }
    void save_snapshot_data(snapshot& s, const ulong off, buffer& data) override
    {
        durable_point(n, inc, false);
        guard();
        bytes b = buf_rest(data);
        TR("%d: save_snapshot_data %llu off %llu len %zu", n->id, (unsigned long long)s.get_last_log_idx(), (unsigned long long)off, b.size());
        EVAL("C08");
        g_stats.add("snap_blocks");
        ulong idx = s.get_last_log_idx();
        Partial& p = d().partial[idx];
        if (p.size != s.size()) { p = Partial(); p.size = s.size(); p.data.resize((size_t)p.size); p.have.assign((size_t)p.size, false); }
        p.term = s.get_last_log_term();
        p.conf = buf_bytes(*s.get_last_config()->serialize());
        auto g = g_snap_data.find(idx);
        if (g == g_snap_data.end() || off + b.size() > g->second.size() || g->second.compare((size_t)off, b.size(), b) != 0 || s.size() != g->second.size())
        {
            violate("C08", "snapshot-bytes", S("server %d receives block %llu+%zu of snapshot %llu (size %llu) that differs from the leader's", n->id, (unsigned long long)off, b.size(), (unsigned long long)idx, (unsigned long long)s.size()));
            return;
        }
        for (size_t i = 0; i < b.size(); ++i) { p.data[(size_t)off + i] = b[i]; p.have[(size_t)off + i] = true; }
        durable_point(n, inc, true);
        guard();
    }
    bool apply_snapshot(snapshot& s) override
    {
        durable_point(n, inc, false);
        guard();
        ulong idx = s.get_last_log_idx();
        TR("%d: apply_snapshot %llu (applied %llu)", n->id, (unsigned long long)idx, (unsigned long long)d().applied);
        EVAL("C08");
        g_stats.add("snap_applied");
        auto p = d().partial.find(idx);
        if (p == d().partial.end() || p->second.have.size() != p->second.size || !std::all_of(p->second.have.begin(), p->second.have.end(), [](bool x) { return x; }))
        {
            violate("C08", "snapshot-incomplete", S("server %d applies snapshot %llu before it is complete", n->id, (unsigned long long)idx));
            return false;
        }
        if (idx <= d().applied)
            violate("C08 C02", "snapshot-backward", S("server %d installs snapshot %llu although it applied %llu", n->id, (unsigned long long)idx, (unsigned long long)d().applied));
        auto c = g_committed.find(idx);
        if (c == g_committed.end()) violate("C08 C03", "snapshot-uncommitted", S("snapshot %llu is not committed", (unsigned long long)idx));
        else if (c->second.term != s.get_last_log_term()) violate("C08", "snapshot-term", S("server %d installs snapshot %llu with term %llu instead of %llu", n->id, (unsigned long long)idx, (unsigned long long)s.get_last_log_term(), (unsigned long long)c->second.term));
        auto have = conf_servers(*s.get_last_config());
        std::vector<std::pair<int, std::string>> want;
        bool any = false;
        for (auto& kv : g_conf_committed) if (kv.first <= idx) { want = kv.second; any = true; }
        if (any && have != want) violate("C08 C09", "snapshot-conf", S("server %d installs snapshot %llu with a wrong membership", n->id, (unsigned long long)idx));
        Snap sn;
        sn.idx = idx;
        sn.term = s.get_last_log_term();
        sn.conf = p->second.conf;
        sn.data = p->second.data;
        uint64_t dg;
        ulong cnt;
        memcpy(&dg, sn.data.data() + 8, 8);
        memcpy(&cnt, sn.data.data() + 16, 8);
        d().snaps[idx] = sn;
        d().last_snap = std::max(d().last_snap, idx);
        d().applied = idx;
        d().digest = dg;
        d().appcnt = cnt;
        d().hist[idx] = {dg, cnt};
        d().partial.erase(p);
        durable_point(n, inc, true);
        guard();
        return true;
    }
    int read_snapshot_data(snapshot& s, const ulong off, buffer& data) override
    {
        simrt::point();
        guard();
        EVAL("C08");
        auto it = d().snaps.find(s.get_last_log_idx());
        if (it == d().snaps.end())
        {
            violate("C08", "snapshot-read-unknown", S("server %d reads snapshot %llu its state machine does not have", n->id, (unsigned long long)s.get_last_log_idx()));
            return 0;
        }
        const bytes& b = it->second.data;
        size_t want = data.size() - data.pos();
        if (off + want > b.size())
            violate("C08", "snapshot-read-range", S("server %d reads snapshot %llu at %llu+%zu beyond its size %zu", n->id, (unsigned long long)it->first, (unsigned long long)off, want, b.size()));
        size_t m = off >= b.size() ? 0 : std::min(want, b.size() - (size_t)off);
        if (m) memcpy(data.data(), b.data() + off, m);
        return (int)m;
    }
    ptr<snapshot> last_snapshot() override
    {
        simrt::point();
        guard();
        if (!d().last_snap) return ptr<snapshot>();
        Snap& s = d().snaps[d().last_snap];
        return cs_new<snapshot>(s.idx, s.term, parse_conf(s.conf), (ulong)s.data.size());
    }
    ulong last_commit_index() override { return d().applied; }
};

struct SimMgr : public state_mgr
{
    Node* n;
    int inc;
    SimMgr(Node* x) : n(x), inc(x->inc) {}
    Disk& d() { return n->disk; }
    void guard()
    {
        if (!live(n, inc)) simrt::park_forever();
    }
    ptr<cluster_config> load_config() override { return parse_conf(d().conf); }
    void save_config(const cluster_config& c) override
    {
        durable_point(n, inc, false);
        guard();
        cluster_config& cc = const_cast<cluster_config&>(c);
        auto s = conf_servers(cc);
        TR("%d: save_config idx %llu n %zu", n->id, (unsigned long long)c.get_log_idx(), s.size());
        EVAL("C09");
        ulong ci = c.get_log_idx();
        if (const Entry* e = d().at(ci))
            if (e->type == log_val_type::conf && ci > max_committed() && conf_servers(*parse_conf(e->data)) == s)
                on_commit_point(n, ci, "adopted membership");
        auto it = g_conf_committed.find(ci);
        bool ok = it != g_conf_committed.end() && it->second == s;
        if (!ok && (n->leaving || n->removed))
        {
            // a server told to leave erases itself from its own record
            for (auto& kv : g_conf_committed)
            {
                auto w = kv.second;
                w.erase(std::remove_if(w.begin(), w.end(), [&](const std::pair<int, std::string>& p) { return p.first == n->id; }), w.end());
                if (w == s) ok = true;
            }
            std::set<int> in(g_initial.begin(), g_initial.end());
            in.erase(n->id);
            if (ids_of(s) == in) ok = true;
        }
        if (!ok) violate("C09", "save-config", S("server %d persists a membership (index %llu, %zu servers) that is not committed", n->id, (unsigned long long)ci, s.size()));
        if (ci < d().conf_idx && !n->leaving) g_stats.add("conf_back");
        d().conf = buf_bytes(*cc.serialize());
        d().conf_idx = ci;
        n->confs.push_back(ids_of(s));
        if (!ids_of(s).count(n->id) && ever_member(n->id) && !committed_members().count(n->id)) n->removed = true;
        durable_point(n, inc, true);
        guard();
    }
    void save_state(const srv_state& s) override
    {
        durable_point(n, inc, false);
        guard();
        TR("%d: save_state term %llu vote %d", n->id, (unsigned long long)s.get_term(), s.get_voted_for());
        EVAL("C05");
        if (s.get_term() < d().term)
            violate("C05", "term-back", S("server %d persists term %llu after %llu", n->id, (unsigned long long)s.get_term(), (unsigned long long)d().term));
        if (s.get_term() == d().term && d().voted != -1 && s.get_voted_for() != d().voted)
            violate("C05 C01", "vote-change", S("server %d changes its vote in term %llu from %d to %d", n->id, (unsigned long long)s.get_term(), d().voted, s.get_voted_for()));
        if (t_cur.in_handler && t_cur.type == msg_type::prevote_request && (s.get_term() != d().term || s.get_voted_for() != d().voted))
            violate("C06", "prevote-term", S("server %d changes term or vote while handling a pre-vote request", n->id));
        d().has_state = true;
        if (s.get_term() != d().term) n->term_at = now();
        d().term = s.get_term();
        d().voted = s.get_voted_for();
        g_maxterm = std::max(g_maxterm, d().term);
        durable_point(n, inc, true);
        guard();
    }
    ptr<srv_state> read_state() override
    {
        if (!d().has_state) return ptr<srv_state>();
        auto s = cs_new<srv_state>();
        s->set_term(d().term);
        s->set_voted_for(d().voted);
        return s;
    }
    ptr<log_store> load_log_store() override { return cs_new<SimStore>(n); }
    int32 server_id() override { return n->id; }
    void system_exit(const int code) override
    {
        guard();
        TR("%d: system_exit(%d)", n->id, code);
        EVAL("C07");
        bool expected = n->leaving || n->removed;
        if (!expected)
            violate("C07", "fatal-exit", S("server %d shuts itself down (code %d)", n->id, code));
        n->quick_exit = true;
        g_stats.add("exits");
        crash(n, "system_exit");
        simrt::park_forever();
    }
};

// ------------------------------------------------------------------ messages
static const char* mt(int t)
{
    static const char* n[] = {"?", "vote_req", "vote_resp", "ae_req", "ae_resp", "cli_req", "add_req", "add_resp", "rm_req", "rm_resp",
                              "sync_req", "sync_resp", "join_req", "join_resp", "leave_req", "leave_resp", "snap_req", "snap_resp", "prevote_req", "prevote_resp"};
    return t >= 0 && t < 20 ? n[t] : "bad";
}
struct WireReq
{
    ulong term; int type; int src, dst; ulong llt, lli, ci;
    std::vector<Entry> ents;
};
static WireReq to_wire(req_msg& r)
{
    WireReq w{r.get_term(), (int)r.get_type(), r.get_src(), r.get_dst(), r.get_last_log_term(), r.get_last_log_idx(), r.get_commit_idx(), {}};
    for (auto& e : r.log_entries()) w.ents.push_back(Entry{e->get_term(), (int)e->get_val_type(), buf_bytes(e->get_buf())});
    return w;
}
static ptr<req_msg> from_wire(const WireReq& w)
{
    ptr<req_msg> r = cs_new<req_msg>(w.term, (msg_type)w.type, w.src, w.dst, w.llt, w.lli, w.ci);
    for (auto& e : w.ents) r->log_entries().push_back(cs_new<log_entry>(e.term, mkbuf(e.data), (log_val_type)e.type));
    return r;
}

static bool is_role_leader(Node* n)
{
    return n->alive && n->leader_term && n->leader_term == n->disk.term;
}

static void note_leader(ulong term, int id, const char* how)
{
    EVAL("C01");
    auto it = g_leader_of.find(term);
    if (it == g_leader_of.end()) { g_leader_of[term] = id; g_stats.add("leaders"); return; }
    if (it->second != id) violate("C01", "two-leaders", S("servers %d and %d both act as leader of term %llu (%s)", it->second, id, (unsigned long long)term, how));
}

static void monitor_send(Node* n, const WireReq& w)
{
    Disk& d = n->disk;
    switch (w.type)
    {
        case msg_type::client_request: case msg_type::add_server_request: case msg_type::remove_server_request: return;
        default: break;
    }
    EVAL("C05");
    if (w.term > d.term) violate("C05", "send-unpersisted-term", S("server %d sends a %s of term %llu but has persisted only %llu", n->id, mt(w.type), (unsigned long long)w.term, (unsigned long long)d.term));
    if (w.src != n->id) violate("C05 C01 C04", "bad-src", S("server %d sends a %s as %d", n->id, mt(w.type), w.src));
    if (w.type == msg_type::append_entries_request || w.type == msg_type::install_snapshot_request)
    {
        auto it = g_leader_of.find(w.term);
        if (it == g_leader_of.end()) note_leader(w.term, n->id, "sends append without having announced leadership");
        else note_leader(w.term, n->id, "sends append");
    }
    if (w.type == msg_type::vote_request)
    {
        g_stats.add("vote_reqs");
        if (d.term != w.term || d.voted != n->id)
            violate("C05", "vote-self-unpersisted", S("server %d asks for votes in term %llu with persisted term %llu vote %d", n->id, (unsigned long long)w.term, (unsigned long long)d.term, d.voted));
        if (n->cand_term != w.term)
        {
            g_stats.add("elections");
            EVAL("C06");
            if (P.prevote && n->cand_term == 0)
            {
                bool ok = false;
                for (auto& c : possible_confs(n)) if ((int)n->prevotes.size() + 1 > (int)c.size() / 2) ok = true;
                if (!ok) violate("C06", "no-prevote-majority", S("server %d starts an election with %zu granted pre-votes", n->id, n->prevotes.size()));
            }
            n->cand_term = w.term;
            n->prevotes.clear();
        }
    }
    if (w.type == msg_type::vote_request || w.type == msg_type::prevote_request)
    {
        EVAL("C06");
        if (w.lli != d.last_idx() || w.llt != d.last_term())
            violate("C06", "advertised-log", S("server %d advertises last entry (%llu,%llu), really has (%llu,%llu)", n->id, (unsigned long long)w.lli, (unsigned long long)w.llt, (unsigned long long)d.last_idx(), (unsigned long long)d.last_term()));
        if (w.type == msg_type::prevote_request)
        {
            g_stats.add("prevote_reqs");
            if (w.term != d.term) violate("C06", "prevote-own-term", S("server %d pre-votes with term %llu, has %llu", n->id, (unsigned long long)w.term, (unsigned long long)d.term));
        }
    }
    if (w.type == msg_type::append_entries_request && is_role_leader(n) && w.term == d.term)
    {
        EVAL("C04");
        g_stats.add("ae_sent");
        ulong pt = w.lli == 0 ? 0 : w.lli + 1 == d.start ? d.base_term : d.at(w.lli) ? d.at(w.lli)->term : (ulong)-1;
        // entries below the start may have been compacted since the request was built
        if (pt != (ulong)-1 && pt != w.llt)
            violate("C04", "ae-prev", S("leader %d sends previous entry (%llu,%llu), its log has term %llu there", n->id, (unsigned long long)w.lli, (unsigned long long)w.llt, (unsigned long long)pt));
        for (size_t i = 0; i < w.ents.size(); ++i)
        {
            const Entry* e = d.at(w.lli + 1 + i);
            if (!e && w.lli + 1 + i < d.start) continue;
            if (!e || e->term != w.ents[i].term || e->data != w.ents[i].data || e->type != w.ents[i].type)
            {
                violate("C04", "ae-entries", S("leader %d sends an entry at %llu that is not the one in its log", n->id, (unsigned long long)(w.lli + 1 + i)));
                break;
            }
        }
        if ((int)w.ents.size() > P.max_append) violate("C04", "ae-batch", "more entries than the configured maximum");
        if (w.ci <= d.last_idx()) on_commit_point(n, w.ci, "announced as committed");
        else violate("C03 C02", "commit-unstored", S("leader %d announces commit index %llu beyond its log", n->id, (unsigned long long)w.ci));
    }
}

// called right after process_req returned on node n
static void monitor_resp(Node* n, const WireReq& q, resp_msg* r)
{
    if (!r) return;
    Disk& d = n->disk;
    int t = r->get_type();
    if (q.type != msg_type::client_request && q.type != msg_type::add_server_request && q.type != msg_type::remove_server_request)
    {
        EVAL("C05");
        if (r->get_term() > d.term) violate("C05", "reply-unpersisted-term", S("server %d replies with term %llu, persisted %llu", n->id, (unsigned long long)r->get_term(), (unsigned long long)d.term));
        if (r->get_src() != n->id) violate("C01 C03 C04", "bad-src", S("server %d replies as %d", n->id, r->get_src()));
    }
    if (q.type == msg_type::vote_request && r->get_accepted())
    {
        EVAL("C06");
        EVAL("C05");
        g_stats.add("votes_granted");
        // the persisted state can only have moved on since (term higher)
        if (d.term < r->get_term() || (d.term == r->get_term() && d.voted != q.src))
            violate("C05 C01", "grant-unpersisted", S("server %d grants its vote of term %llu to %d but persisted term %llu vote %d", n->id, (unsigned long long)r->get_term(), q.src, (unsigned long long)d.term, d.voted));
        if (r->get_term() != q.term)
            violate("C06 C05 C01", "grant-term", S("server %d grants a vote asked in term %llu with term %llu", n->id, (unsigned long long)q.term, (unsigned long long)r->get_term()));
    }
    if (q.type == msg_type::prevote_request && r->get_accepted()) g_stats.add("prevotes_granted");
    if (q.type == msg_type::install_snapshot_request && r->get_accepted())
    {
        auto g = g_snap_data.find(q.lli);
        EVAL("C08");
        if (g != g_snap_data.end() && r->get_next_idx() >= g->second.size())
        {
            // one entry may be on its way to the state machine
            int missing = 0;
            for (auto it = g_committed.upper_bound(d.applied); it != g_committed.end() && it->first <= q.lli; ++it) if (it->second.type == (int)log_val_type::app_log) ++missing;
            if (missing > 1) violate("C08 C03", "snapshot-ack", S("server %d acknowledges the whole snapshot %llu but has applied only %llu", n->id, (unsigned long long)q.lli, (unsigned long long)d.applied));
        }
    }
    (void)t;
}

struct VoterView { ulong lt, li, term; int64_t heard; ulong heard_term; bool leader; };
static void monitor_grant(Node* n, const WireReq& q, resp_msg* r, const VoterView& before, const VoterView& after)
{
    if (!r || !r->get_accepted()) return;
    EVAL("C06");
    auto behind = [&](const VoterView& v) { return q.llt < v.lt || (q.llt == v.lt && q.lli < v.li); };
    if (behind(before) && behind(after))
        violate("C06 C03", "grant-stale", S("server %d (last entry %llu/term %llu) grants %s to %d with last entry %llu/term %llu", n->id, (unsigned long long)before.li, (unsigned long long)before.lt, mt(q.type), q.src, (unsigned long long)q.lli, (unsigned long long)q.llt));
    if (q.term < before.term)
        violate("C06 C01", "grant-old-term", S("server %d in term %llu grants %s of term %llu", n->id, (unsigned long long)before.term, mt(q.type), (unsigned long long)q.term));
    if (q.type == msg_type::prevote_request && P.defensive)
    {
        if (before.leader && after.leader)
            violate("C06", "prevote-defensive-leader", S("leader %d grants a pre-vote in defensive mode", n->id));
        else if (before.heard >= 0 && before.heard_term == before.term && now() - before.heard < (int64_t)(P.lower - 3) * 1000 && after.heard == before.heard)
            violate("C06", "prevote-defensive", S("server %d grants a pre-vote %lld us after hearing from the leader", n->id, (long long)(now() - before.heard)));
    }
}
static VoterView view(Node* n)
{
    return VoterView{n->disk.last_term(), n->disk.last_idx(), n->disk.term, n->last_heard, n->last_heard_term, is_role_leader(n)};
}

static void monitor_ae_ack(Node* n, const WireReq& q, resp_msg* r)
{
    if (!r || !r->get_accepted()) return;
    EVAL("C04");
    g_stats.add("ae_acks");
    Disk& d = n->disk;
    ulong m = r->get_next_idx() - 1;
    if (r->get_term() != q.term) violate("C04 C03", "ack-term", S("server %d acknowledges an append of term %llu in term %llu", n->id, (unsigned long long)q.term, (unsigned long long)r->get_term()));
    if (m > q.lli + q.ents.size())
    {
        violate("C04 C03", "ack-too-much", S("server %d acknowledges up to %llu for a request reaching %llu", n->id, (unsigned long long)m, (unsigned long long)(q.lli + q.ents.size())));
        return;
    }
    if (d.term != q.term) return; // moved on since; its log may have changed
    for (size_t i = 0; i < q.ents.size() && q.lli + 1 + i <= m; ++i)
    {
        ulong x = q.lli + 1 + i;
        if (x < d.start) continue;
        const Entry* e = d.at(x);
        if (!e || e->term != q.ents[i].term || e->data != q.ents[i].data || e->type != q.ents[i].type)
        {
            violate("C04 C03", "ack-unstored", S("server %d acknowledges index %llu which it does not store as sent", n->id, (unsigned long long)x));
            return;
        }
    }
    if (q.lli >= 1 && q.lli <= m)
    {
        if (q.lli >= d.start)
        {
            const Entry* e = d.at(q.lli);
            if (!e || e->term != q.llt) violate("C04 C03", "ack-prev", S("server %d accepts an append after (%llu,%llu) which it does not store", n->id, (unsigned long long)q.lli, (unsigned long long)q.llt));
        }
        else if (q.lli + 1 == d.start && d.base_known && d.base_term != q.llt)
            violate("C04 C03", "ack-prev", S("server %d accepts an append after (%llu,%llu), its snapshot ends with term %llu", n->id, (unsigned long long)q.lli, (unsigned long long)q.llt, (unsigned long long)d.base_term));
    }
}

struct Msg
{
    int src, src_inc, dst;
    ptr<req_msg> req;
    WireReq w;
    rpc_handler h;
    bool answered = false; // sender got its completion
    int batch = 0;
};
typedef ptr<Msg> MsgP;

static void complete(MsgP m, ptr<resp_msg> resp, bool err)
{
    if (m->answered) return;
    Node* n = node(m->src);
    if (!live(n, m->src_inc)) return;
    m->answered = true;
    int inc = m->src_inc;
    bool counts = false, counts_ae = false;
    TR("net: completion at %d of %s to %d: %s acc %d next %llu term %llu", m->src, mt(m->w.type), m->dst, err ? "ERR" : "ok", resp ? resp->get_accepted() : 0, resp ? (unsigned long long)resp->get_next_idx() : 0, resp ? (unsigned long long)resp->get_term() : 0);
    if (!err && resp)
    {
        int t = resp->get_type();
        if (t == msg_type::vote_response && resp->get_accepted()) g_votes[resp->get_term()][m->src].insert(resp->get_src());
        if (t == msg_type::prevote_response && resp->get_accepted()) n->prevotes.insert(resp->get_src());
        if (m->w.type != msg_type::prevote_request && m->w.type != msg_type::client_request && m->w.type != msg_type::join_cluster_request &&
            m->w.type != msg_type::sync_log_request && m->w.type != msg_type::leave_cluster_request)
        {
            counts = true;
            n->peer_inflight[resp->get_src()]++;
        }
        counts_ae = t == msg_type::append_entries_response && m->w.type == msg_type::append_entries_request && m->w.term == n->leader_term;
    }
    const int64_t t0 = now();
    CurMsg save = t_cur;
    t_cur = CurMsg{resp ? (int)resp->get_type() : 0, true};
    if (err)
    {
        ptr<resp_msg> nr;
        ptr<rpc_exception> ex = cs_new<rpc_exception>("simulated rpc failure", m->req);
        m->h(nr, ex);
    }
    else
    {
        ptr<rpc_exception> noex;
        m->h(resp, noex);
    }
    t_cur = save;
    if (live(n, inc))
    {
        if (counts)
        {
            n->peer_inflight[resp->get_src()]--;
            n->peer_resp[resp->get_src()] = now();
        }
        if (counts_ae && m->w.term == n->leader_term) n->peer_resp_ae[resp->get_src()] = t0;
        simrt::point();
    }
}

static std::map<int, std::vector<MsgP>> g_processing; // incarnation -> requests being handled
static void fail_processing(int inc)
{
    auto it = g_processing.find(inc);
    if (it == g_processing.end()) return;
    for (auto& m : it->second) at(now() + R().range(500, 20000), m->src_inc, [m]() { complete(m, nullptr, true); });
    g_processing.erase(it);
}
static bool cut(int a, int b)
{
    auto it = g_cut.find({a, b});
    return it != g_cut.end() && it->second;
}
static int64_t lat() { return R().range(P.lat_min, P.lat_max); }

static void deliver(MsgP m)
{
    // runs in the destination's group
    Node* n = node(m->dst);
    int inc = n->inc;
    ptr<req_msg> r = from_wire(m->w);
    TR("net: deliver %s %d->%d term %llu prev(%llu,%llu) n %zu ci %llu", mt(m->w.type), m->src, m->dst, (unsigned long long)m->w.term, (unsigned long long)m->w.lli, (unsigned long long)m->w.llt, m->w.ents.size(), (unsigned long long)m->w.ci);
    g_stats.add("delivered");
    if (m->w.type == msg_type::leave_cluster_request) n->leaving = true;
    VoterView before = view(n);
    CurMsg save = t_cur;
    t_cur = CurMsg{m->w.type, true};
    ptr<resp_msg> resp;
    bool threw = false;
    g_processing[inc].push_back(m);
    try { resp = n->srv->process_req(*r); }
    catch (std::exception& e)
    {
        threw = true;
        TR("process_req threw %s", e.what());
        violate("C07", "handler-throws", S("server %d: handling a %s throws %s", n->id, mt(m->w.type), e.what()));
    }
    t_cur = save;
    if (!live(n, inc)) simrt::park_forever();
    {
        auto& pv = g_processing[inc];
        pv.erase(std::remove(pv.begin(), pv.end(), m), pv.end());
    }
    VoterView after = view(n);
    monitor_resp(n, m->w, resp.get());
    if (m->w.type == msg_type::vote_request || m->w.type == msg_type::prevote_request) monitor_grant(n, m->w, resp.get(), before, after);
    if (m->w.type == msg_type::prevote_request && resp && before.term != after.term && !simrt::group_has_blocked(-12345)) {}
    if (m->w.type == msg_type::append_entries_request)
    {
        monitor_ae_ack(n, m->w, resp.get());
        if (resp && m->w.term == n->disk.term) { n->last_heard = now(); n->last_heard_term = n->disk.term; }
    }
    if (m->w.type == msg_type::install_snapshot_request && resp && m->w.term == n->disk.term) { n->last_heard = now(); n->last_heard_term = n->disk.term; }
    if (m->w.type == msg_type::client_request && m->batch)
    {
        Batch& b = g_batches[m->batch];
        b.leader_said = true;
        b.leader_accept = resp && resp->get_accepted();
        extern void monitor_batch_outcome(int batch, Node* n, resp_msg* r, bool accepted);
        monitor_batch_outcome(m->batch, n, resp.get(), b.leader_accept);
    }
    if (!resp || threw)
    {
        at(now() + lat(), m->src_inc, [m]() { complete(m, nullptr, true); });
        return;
    }
    bool lost = cut(m->dst, m->src) || R().chance(g_resploss);
    if (lost)
    {
        g_stats.add("resp_lost");
        at(now() + R().range(5000, 300000), m->src_inc, [m]() { complete(m, nullptr, true); });
    }
    else
    {
        resp_msg* rr = resp.get();
        ptr<resp_msg> copy = cs_new<resp_msg>(rr->get_term(), rr->get_type(), rr->get_src(), rr->get_dst(), rr->get_next_idx(), rr->get_accepted());
        at(now() + lat(), m->src_inc, [m, copy]() {
            if (cut(m->dst, m->src)) { at(now() + 20000, m->src_inc, [m]() { complete(m, nullptr, true); }); return; }
            complete(m, copy, false);
        });
    }
}

static void arrive(MsgP m, bool ghost)
{
    Node* n = node(m->dst);
    if (!n || !n->alive || n->booting || cut(m->src, m->dst) || !n->srv)
    {
        if (!ghost) at(now() + R().range(1000, 20000), m->src_inc, [m]() { complete(m, nullptr, true); });
        return;
    }
    if (ghost) g_stats.add("ghosts");
    if (m->src_inc == 0 || live(node(m->src), m->src_inc) || ghost || true)
    {
        g_inside[n->inc]++;
        simrt::set_group(n->inc);
        deliver(m);
    }
}

static void net_send(Node* n, int inc, int dst, ptr<req_msg>& req, rpc_handler& h, int batch = 0)
{
    MsgP m = cs_new<Msg>();
    m->src = n->id;
    m->src_inc = inc;
    m->dst = dst;
    m->req = req;
    m->w = to_wire(*req);
    m->h = h;
    m->batch = batch;
    g_stats.add("sent");
    TR("net: %d sends %s to %d term %llu prev(%llu,%llu) n %zu ci %llu", n->id, mt(m->w.type), dst, (unsigned long long)m->w.term, (unsigned long long)m->w.lli, (unsigned long long)m->w.llt, m->w.ents.size(), (unsigned long long)m->w.ci);
    monitor_send(n, m->w);
    int dinc = -1; // run in harness group until we know the destination incarnation
    (void)dinc;
    if (cut(n->id, dst) || R().chance(g_loss))
    {
        g_stats.add("lost");
        int64_t t = now() + R().range(5000, 300000);
        at(t, inc, [m]() { complete(m, nullptr, true); });
        return;
    }
    if (R().chance(g_ghost))
    {
        // the sender is told it failed; the request arrives later all the same
        at(now() + R().range(1000, 100000), inc, [m]() { complete(m, nullptr, true); });
        at(now() + R().range(2000, 2000000), -1, [m]() { arrive(m, true); });
        return;
    }
    at(now() + lat(), -1, [m]() { arrive(m, false); });
}

static int ep_to_id(const std::string& ep)
{
    // sim://id
    size_t p = ep.rfind('/');
    return p == std::string::npos ? -1 : atoi(ep.c_str() + p + 1);
}
static thread_local int t_batch = 0;
struct SimClient : public rpc_client
{
    Node* n;
    int inc, dst;
    SimClient(Node* x, int d) : n(x), inc(x->inc), dst(d) {}
    void send(ptr<req_msg>& req, rpc_handler& h) override
    {
        simrt::point();
        if (!live(n, inc)) simrt::park_forever();
        net_send(n, inc, dst, req, h, req->get_type() == msg_type::client_request ? t_batch : 0);
    }
};
struct SimFactory : public rpc_client_factory
{
    Node* n;
    SimFactory(Node* x) : n(x) {}
    ptr<rpc_client> create_client(const std::string& ep) override { return cs_new<SimClient>(n, ep_to_id(ep)); }
};
struct SimSched : public delayed_task_scheduler
{
    Node* n;
    int inc;
    struct T { ptr<delayed_task> keep; uint64_t gen = 0; };
    std::map<delayed_task*, T> ts;
    SimSched(Node* x) : n(x), inc(x->inc) {}
    void schedule(ptr<delayed_task>& task, int32 ms) override
    {
        simrt::point();
        if (!live(n, inc)) simrt::park_forever();
        T& t = ts[task.get()];
        t.keep = task;
        uint64_t g = ++t.gen;
        task->reset();
        delayed_task* raw = task.get();
        SimSched* self = this;
        Node* nn = n;
        int ic = inc;
        at(now() + (int64_t)ms * 1000 + R().range(0, 1500), inc, [self, raw, g, nn, ic]() {
            if (!live(nn, ic)) return;
            auto it = self->ts.find(raw);
            if (it == self->ts.end() || it->second.gen != g) return;
            ptr<delayed_task> k = it->second.keep;
            g_stats.add("timers");
            try { k->execute(); }
            catch (std::exception& e) { violate("C07", "timer-throws", S("server %d: a timer handler throws %s", nn->id, e.what())); }
        });
    }
    void cancel_impl(ptr<delayed_task>& task) override
    {
        auto it = ts.find(task.get());
        if (it != ts.end()) it->second.gen++;
    }
};
struct SimListener : public raft_event_listener
{
    Node* n;
    int inc;
    SimListener(Node* x) : n(x), inc(x->inc) {}
    void on_event(raft_event e) override
    {
        if (!live(n, inc)) simrt::park_forever();
        if (e == raft_event::become_leader)
        {
            if (n->leader_term != n->disk.term) leader_elected(n, "announces leadership");
        }
        else if (e == raft_event::become_follower)
        {
            n->cand_term = 0;
            n->leader_term = 0;
            n->prevotes.clear();
        }
    }
};

// ------------------------------------------------------------------ boot / crash
static std::vector<void*> g_leak;
static void boot(Node* n)
{
    n->inc = g_next_inc++;
    n->alive = true;
    n->booting = true;
    n->quick_exit = false;
    n->leader_term = n->cand_term = 0;
    n->prevotes.clear();
    n->last_heard = -1;
    n->peer_resp.clear();
    n->peer_resp_ae.clear();
    n->peer_inflight.clear();
    n->pc.clear();
    n->pending_rb.clear();
    n->early_rb.clear();
    n->cookies.clear();
    n->confs.clear();
    n->confs.push_back(ids_of(conf_servers(*parse_conf(n->disk.conf))));
    Disk& d = n->disk;
    n->big_timeout = n->joiner && !knows_cluster(n); // not started as a voting server before it has the membership with it
    if (!d.sm_durable)
    {
        // the state machine restarts from its newest snapshot
        d.applied = 0; d.digest = 0; d.appcnt = 0;
        if (d.last_snap)
        {
            Snap& s = d.snaps[d.last_snap];
            d.applied = d.last_snap;
            memcpy(&d.digest, s.data.data() + 8, 8);
            memcpy(&d.appcnt, s.data.data() + 16, 8);
        }
    }
    int inc = n->inc;
    at(now(), inc, [n, inc]() {
        if (!live(n, inc)) return;
        TR("%d: boot inc %d term %llu log [%llu,%llu) applied %llu snap %llu", n->id, inc, (unsigned long long)n->disk.term, (unsigned long long)n->disk.start, (unsigned long long)n->disk.next(), (unsigned long long)n->disk.applied, (unsigned long long)n->disk.last_snap);
        raft_params* p = new raft_params();
        int mul = n->big_timeout ? 100000 : 1;
        (*p).with_election_timeout_upper(P.upper * mul).with_election_timeout_lower(P.lower * mul).with_hb_interval(P.hb).with_rpc_failure_backoff(P.backoff)
            .with_max_append_size(P.max_append).with_log_sync_batch_size(P.sync_batch).with_log_sync_stopping_gap(P.sync_gap)
            .with_snapshot_enabled(P.snap_dist).with_snapshot_sync_block_size(P.snap_block).with_reserved_log_items(P.reserved)
            .with_prevote_enabled(P.prevote).with_defensive_prevote(P.defensive);
        ptr<state_mgr> mgr = cs_new<SimMgr>(n);
        auto sm = cs_new<SimSM>(n);
        n->sm = sm.get();
        ptr<state_machine> smp = sm;
        ptr<logger> l = cs_new<SimLogger>(n->id);
        ptr<rpc_client_factory> f = cs_new<SimFactory>(n);
        ptr<delayed_task_scheduler> sch = cs_new<SimSched>(n);
        ptr<raft_event_listener> lst = cs_new<SimListener>(n);
        g_leak.push_back(new ptr<state_mgr>(mgr));
        g_leak.push_back(new ptr<state_machine>(smp));
        g_leak.push_back(new ptr<delayed_task_scheduler>(sch));
        ptr<rpc_listener> rl;
        context* ctx = new context(mgr, smp, rl, l, f, sch, lst, p);
        ptr<raft_server> srv;
        try { srv = cs_new<raft_server>(ctx); }
        catch (std::exception& e)
        {
            violate("C07 C08", "boot-throws", S("server %d cannot start from its own disk: %s", n->id, e.what()));
            n->alive = false;
            return;
        }
        if (!live(n, inc)) { g_leak.push_back(new ptr<raft_server>(srv)); simrt::park_forever(); }
        n->srv = srv;
        n->booting = false;
    });
}
static void crash(Node* n, const char* why)
{
    if (!n->alive) return;
    TR("%d: CRASH inc %d (%s)", n->id, n->inc, why);
    g_stats.add("crashes");
    int inc = n->inc;
    n->alive = false;
    n->booting = false;
    if (n->srv) g_leak.push_back(new ptr<raft_server>(n->srv));
    n->srv.reset();
    fail_processing(inc);
    if (!n->gone && !(n->leaving && n->quick_exit) && !n->removed)
    {
        int64_t t = now() + R().range(10000, 1200000);
        at_driver(t, [n]() { if (!n->alive && !n->gone) boot(n); });
    }
    else n->gone = true;
    simrt::freeze_group(inc); // does not return when called from inside
}

// ------------------------------------------------------------------ clients
static bytes mkval(int id)
{
    bytes b;
    b.append((char*)&id, 4);
    size_t len = (size_t)R().range(0, 60);
    uint32_t l = (uint32_t)len;
    b.append((char*)&l, 4);
    uint64_t h = mix((uint64_t)id, 77);
    for (size_t i = 0; i < len; ++i) { h = mix(h, i); b.push_back((char)h); }
    return b;
}
static std::map<int, bytes> g_valbytes;
void monitor_batch_outcome(int batch, Node* n, resp_msg* r, bool accepted)
{
    Batch& b = g_batches[batch];
    EVAL("C11");
    if (accepted)
    {
        g_stats.add("accepted");
        ulong prev = 0, term = 0;
        for (int v : b.vals)
        {
            Val& x = g_vals[v];
            if (!x.created)
            {
                violate("C11", "accepted-missing", S("server %d accepted a request but value %d is in no log", n->id, v));
                return;
            }
            if (prev && (x.idx != prev + 1 || x.term != term)) violate("C11", "accepted-order", S("value %d of a batch is at %llu after %llu", v, (unsigned long long)x.idx, (unsigned long long)prev));
            prev = x.idx;
            term = x.term;
            auto e = g_ent.find({x.idx, x.term});
            if (e == g_ent.end() || e->second.h != fnv(g_valbytes[v])) violate("C11", "accepted-bytes", S("value %d was stored with other bytes", v));
            if (!g_leader_of.count(x.term) || g_leader_of[x.term] != n->id) violate("C11", "accepted-nonleader", S("server %d accepted value %d into term %llu it does not lead", n->id, v, (unsigned long long)x.term));
        }
        if (r && r->get_next_idx() != prev + 1) violate("C11", "accepted-next", S("server %d reports next index %llu after storing up to %llu", n->id, (unsigned long long)r->get_next_idx(), (unsigned long long)prev));
    }
    else
    {
        g_stats.add("refused");
        for (int v : b.vals)
            if (g_vals[v].created) { violate("C11", "refused-created", S("server %d refused a request but value %d is in its log at %llu", n->id, v, (unsigned long long)g_vals[v].idx)); return; }
        b.status = 2;
    }
}

// what an answer of is_leader()/acceptance must be, given the answers delivered so far
// 1: must be true, 0: must be false, -1: no statement
static int lease_view(Node* n)
{
    if (n->leader_term && n->leader_term != n->disk.term && now() - n->term_at < 100000) return -1; // in the middle of stepping down
    if (!is_role_leader(n)) return vote_majority(n, n->disk.term, nullptr) ? -1 : 0; // with a majority of votes it may become leader at any moment
    auto confs = possible_confs(n);
    // only the membership the node itself runs with
    const std::set<int>& c = n->confs.back();
    if (!c.count(n->id)) return -1;
    int peers = (int)c.size() - 1;
    if (peers == 0) return 1;
    int need = (peers + 1) / 2 + 1 - 1; // others needed for a majority
    if ((peers + 1) % 2 == 0) need = (peers + 1) / 2;
    else need = peers / 2;
    int64_t lim = (int64_t)P.upper * 2000;
    int fresh = 0, recent = 0;
    for (int x : c)
    {
        if (x == n->id) continue;
        auto a = n->peer_resp_ae.find(x);
        if (a != n->peer_resp_ae.end() && now() - a->second < lim - 5000) ++fresh;
        auto b = n->peer_resp.find(x);
        auto fl = n->peer_inflight.find(x);
        if ((b != n->peer_resp.end() && now() - b->second <= lim + 5000) || (fl != n->peer_inflight.end() && fl->second > 0)) ++recent;
    }
    if (P.membership) return -1;
    if (fresh >= need) return 1;
    if (recent < need) return 0;
    return -1;
}

static int new_batch(int cnt, std::vector<bytes>& out)
{
    int b = g_next_batch++;
    Batch bb;
    for (int i = 0; i < cnt; ++i)
    {
        int v = g_next_val++;
        Val x;
        x.id = v; x.batch = b; x.pos = i;
        g_vals[v] = x;
        bytes d = mkval(v);
        g_valbytes[v] = d;
        out.push_back(d);
        bb.vals.push_back(v);
    }
    g_batches[b] = bb;
    return b;
}

static int g_last_heal_batch = 0;
static void client_append(Node* n, int cnt)
{
    int inc = n->inc;
    std::vector<bytes> vs;
    int b = new_batch(cnt, vs);
    if (g_healed) g_last_heal_batch = b;
    std::vector<bufptr> logs;
    g_batches[b].at_inc = inc;
    for (auto& v : vs) logs.push_back(mkbuf(v));
    TR("client: append_entries batch %d (%d values) at %d", b, cnt, n->id);
    g_stats.add("client_append");
    t_batch = b;
    int before = lease_view(n);
    bool role_before = is_role_leader(n);
    ulong term_before = n->disk.term;
    ptr<async_result<bool>> r;
    try { r = n->srv->append_entries(logs); }
    catch (std::exception& e) { violate("C11 C07", "append-throws", S("append_entries at server %d throws %s", n->id, e.what())); return; }
    t_batch = 0;
    if (!live(n, inc)) simrt::park_forever();
    if (!r) { violate("C11", "append-null", "append_entries returned no result"); return; }
    int calls = 0;
    ptr<int> pc = cs_new<int>(0);
    int after = lease_view(n);
    bool local = role_before && is_role_leader(n) && term_before == n->disk.term;
    if (local)
    {
        EVAL("C11");
        bool created = g_vals[g_batches[b].vals[0]].created;
        if (before == 1 && after == 1 && !created) violate("C11", "leader-refuses", S("server %d leads with a quorum in touch but refuses a request", n->id));
        if (before == 0 && after == 0 && created) violate("C11", "expired-accepts", S("server %d accepts a request although no quorum answered for twice the election timeout", n->id));
    }
    std::function<void(bool&, const ptr<std::exception>&)> h = [b, n, pc](bool& res, const ptr<std::exception>& err) {
        EVAL("C11");
        if (++*pc > 1) violate("C11", "result-twice", S("batch %d reported twice", b));
        Batch& bb = g_batches[b];
        TR("client: batch %d result %d err %d", b, (int)res, err ? 1 : 0);
        bool created = true, any = false;
        for (int v : bb.vals) { if (!g_vals[v].created) created = false; else any = true; }
        if (res && !err)
        {
            bb.status = 1;
            g_stats.add("client_ok");
            if (!created) violate("C11", "accepted-missing", S("a request at server %d is reported accepted but is in no log", n->id));
            if (bb.leader_said && !bb.leader_accept) violate("C11", "forward-lies", S("server %d reports a request accepted that the leader refused", n->id));
        }
        else if (!err)
        {
            if (any) violate("C11", "refused-created", S("a request at server %d is reported refused but is in a log", n->id));
            bb.status = 2;
            g_stats.add("client_refused");
            if (bb.leader_said && bb.leader_accept) violate("C11", "forward-lies", S("server %d reports a request refused that the leader accepted", n->id));
        }
        else
        {
            bb.status = 3;
            g_stats.add("client_failed");
        }
    };
    r->when_ready(h);
    (void)calls;
}
static void client_replicate(Node* n)
{
    int inc = n->inc;
    std::vector<bytes> vs;
    int b = new_batch(1, vs);
    if (g_healed) g_last_heal_batch = b;
    bufptr log = mkbuf(vs[0]);
    int vid = g_batches[b].vals[0];
    ptr<void> cookie;
    uint tag = (uint)vid;
    if (R().chance(0.7)) cookie = cs_new<int>(vid);
    TR("client: replicate_log value %d at %d", vid, n->id);
    g_stats.add("client_replicate");
    int before = lease_view(n);
    bool role_before = is_role_leader(n);
    ulong term_before = n->disk.term;
    bool ok = false;
    try { ok = n->srv->replicate_log(log, cookie, tag); }
    catch (std::exception& e) { violate("C11 C07", "replicate-throws", S("replicate_log at server %d throws %s", n->id, e.what())); return; }
    if (!live(n, inc)) simrt::park_forever();
    int after = lease_view(n);
    Val& v = g_vals[vid];
    EVAL("C11");
    if (ok && !v.created) violate("C11", "accepted-missing", S("replicate_log at server %d reports success but stored nothing", n->id));
    if (!ok && v.created) violate("C11", "refused-created", S("replicate_log at server %d reports failure but stored value %d at %llu", n->id, vid, (unsigned long long)v.idx));
    if (ok && v.created && (!g_leader_of.count(v.term) || g_leader_of[v.term] != n->id)) violate("C11", "accepted-nonleader", S("replicate_log stored value %d at non-leader %d", vid, n->id));
    g_batches[b].status = ok ? 1 : 2;
    if (ok) g_stats.add("client_ok");
    if (role_before && is_role_leader(n) && term_before == n->disk.term)
    {
        if (before == 1 && after == 1 && !ok) violate("C11", "leader-refuses", S("server %d leads with a quorum in touch but refuses replicate_log", n->id));
        if (before == 0 && after == 0 && ok) violate("C11", "expired-accepts", S("server %d accepts replicate_log although no quorum answered for twice the election timeout", n->id));
    }
}
static void probe_is_leader(Node* n)
{
    int inc = n->inc;
    int before = lease_view(n);
    bool rb = is_role_leader(n);
    bool r = n->srv->is_leader();
    if (!live(n, inc)) simrt::park_forever();
    int after = lease_view(n);
    EVAL("C11");
    g_stats.add("lease_probes");
    if (before == 0) g_stats.add("lease_expired_probes");
    if (before == 1 && after == 1 && !r) violate("C11", "lease-false", S("server %d leads with a quorum in touch but says it does not", n->id));
    if (before == 0 && after == 0 && r && rb == is_role_leader(n))
        violate("C11", "lease-true", S("server %d says it leads (%s)", n->id, rb ? "no quorum answered for twice the election timeout" : "it is not leader"));
}
static void client_raw(Node* n, int cnt)
{
    // an external client sends client_request to the server directly
    int inc = n->inc;
    std::vector<bytes> vs;
    int b = new_batch(cnt, vs);
    if (g_healed) g_last_heal_batch = b;
    ptr<req_msg> req = cs_new<req_msg>((ulong)0, msg_type::client_request, 0, n->id, (ulong)0, (ulong)0, (ulong)0);
    for (auto& v : vs) req->log_entries().push_back(cs_new<log_entry>((ulong)R().below(5), mkbuf(v)));
    TR("client: raw batch %d at %d", b, n->id);
    g_stats.add("client_raw");
    ptr<resp_msg> r;
    int before = lease_view(n);
    bool role_before = is_role_leader(n);
    ulong term_before = n->disk.term;
    try { r = n->srv->process_req(*req); }
    catch (std::exception& e) { violate("C11 C07", "raw-throws", S("a client request at server %d throws %s", n->id, e.what())); return; }
    if (!live(n, inc)) simrt::park_forever();
    bool acc = r && r->get_accepted();
    monitor_batch_outcome(b, n, r.get(), acc);
    g_batches[b].status = acc ? 1 : 2;
    int after = lease_view(n);
    if (role_before && is_role_leader(n) && term_before == n->disk.term)
    {
        if (before == 1 && after == 1 && !acc) violate("C11", "leader-refuses", S("server %d leads with a quorum in touch but refuses a request", n->id));
        if (before == 0 && after == 0 && acc) violate("C11", "expired-accepts", S("server %d accepts a request although no quorum answered for twice the election timeout", n->id));
    }
}

static Node* pick_alive()
{
    std::vector<Node*> v;
    for (auto& kv : g_nodes) if (kv.second->alive && !kv.second->booting && kv.second->srv) v.push_back(kv.second);
    return v.empty() ? nullptr : v[R().below(v.size())];
}
static Node* current_leader()
{
    Node* best = nullptr;
    for (auto& kv : g_nodes)
        if (is_role_leader(kv.second) && !kv.second->booting && kv.second->srv && (!best || kv.second->leader_term > best->leader_term)) best = kv.second;
    return best;
}
static void run_on(Node* n, std::function<void()> f)
{
    int inc = n->inc;
    at(now(), inc, [n, inc, f]() { if (live(n, inc) && !n->booting && n->srv) f(); });
}
static void client_tick()
{
    Node* n = R().chance(0.75) ? current_leader() : pick_alive();
    if (!n) n = pick_alive();
    if (!n) return;
    double u = R().unit();
    int cnt = (int)R().range(1, P.max_batch);
    if (u < 0.45) run_on(n, [n, cnt]() { client_append(n, cnt); });
    else if (u < 0.45 + P.p_cookie) run_on(n, [n]() { client_replicate(n); });
    else if (u < 0.85) run_on(n, [n, cnt]() { client_raw(n, cnt); });
    else run_on(n, [n]() { probe_is_leader(n); });
}

// ------------------------------------------------------------------ executors
struct Exec
{
    simrt::Th* th = nullptr;
    bool busy = false;
    std::function<void()> job;
    int group = 0;
};
static std::vector<Exec*> g_exec;
static Node* node_of_inc(int inc)
{
    for (auto& kv : g_nodes) if (kv.second->inc == inc) return kv.second;
    return nullptr;
}
static void exec_main(Exec* x)
{
    simrt::set_idle_obj(x);
    for (;;)
    {
        while (!x->busy) simrt::user_block(x);
        simrt::set_group(x->group);
        if (x->group > 0) g_inside[x->group]++;
        x->job();
        x->job = nullptr;
        int g = simrt::self_group();
        simrt::set_group(-100);
        if (g > 0)
        {
            int left = --g_inside[g];
            Node* n = node_of_inc(g);
            if (left == 0 && live(n, g) && !n->booting) c10_quiescent(n);
        }
        x->busy = false;
    }
}
static void dispatch(Ev& e)
{
    Exec* x = nullptr;
    for (Exec* y : g_exec) if (!y->busy && !simrt::is_frozen(y->th)) { x = y; break; }
    if (!x)
    {
        x = new Exec;
        g_exec.push_back(x);
        x->busy = true;
        x->th = simrt::spawn([x]() { exec_main(x); }, -100);
    }
    x->busy = true;
    x->job = e.fn;
    x->group = e.group;
    simrt::user_wake(x);
}

// ------------------------------------------------------------------ driver loop
static bool g_stop = false;
static uint64_t g_state_hash_count = 0;
static std::set<uint64_t> g_states;
static void note_state()
{
    uint64_t h = 7;
    for (auto& kv : g_nodes)
    {
        Node* n = kv.second;
        h = mix(h, n->alive ? 1 + (is_role_leader(n) ? 2 : n->cand_term ? 4 : 0) : 0);
        h = mix(h, n->disk.term);
        h = mix(h, (uint64_t)n->disk.voted);
        h = mix(h, n->disk.last_idx() * 31 + n->disk.last_term());
        h = mix(h, n->disk.start * 7 + n->disk.applied);
    }
    g_states.insert(h);
    ++g_state_hash_count;
}
static void run_until(int64_t limit)
{
    while (!g_stop)
    {
        simrt::RunResult rr = simrt::run_others();
        if (rr == simrt::BUDGET)
        {
            violate("C07", "livelock", S("a server runs without end: %s", simrt::describe_blocked(-1).c_str()));
            finish(0);
        }
        if (rr == simrt::IDLE)
        {
            std::string dl = simrt::find_lock_deadlock();
            if (!dl.empty())
            {
                violate("C07 C21", "deadlock", dl + " " + simrt::describe_blocked(-1));
                finish(0);
            }
        }
        int64_t te = g_events.empty() ? INT64_MAX : g_events.begin()->first.first;
        if (rr == simrt::OVERLAP)
        {
            if (te > now() + 5000) continue;
            // let an event that is about to happen overlap with the running handlers
        }
        int64_t td = simrt::next_deadline();
        int64_t t = std::min(te, td);
        if (t == INT64_MAX || t > limit)
        {
            if (rr == simrt::OVERLAP) continue;
            if (limit != INT64_MAX) simrt::set_now(limit);
            return;
        }
        simrt::set_now(t);
        if (td < te) continue;
        Ev e = g_events.begin()->second;
        g_events.erase(g_events.begin());
        ++g_evcount;
        if (e.on_driver) e.fn();
        else dispatch(e);
        if ((g_evcount & 3) == 0) note_state();
    }
}

// ------------------------------------------------------------------ output
static void finish(int code)
{
    std::string o = S("STAT seed=%llu code=%d vt_ms=%lld events=%llu steps=%llu switches=%llu sched=%016llx states=%zu", (unsigned long long)g_seed, code,
                      (long long)(now() / 1000), (unsigned long long)g_evcount, (unsigned long long)simrt::steps(), (unsigned long long)simrt::switches(),
                      (unsigned long long)simrt::sched_hash(), g_states.size());
    for (auto& kv : g_stats.c) o += S(" s.%s=%llu", kv.first.c_str(), (unsigned long long)kv.second);
    for (auto& kv : g_evals) o += S(" e.%s=%llu", kv.first.c_str(), (unsigned long long)kv.second);
    o += "\n";
    fputs(o.c_str(), g_out);
    fflush(g_out);
    _exit(code);
}

// ------------------------------------------------------------------ membership workload
static std::string ep_of(int id) { return "sim://" + std::to_string(id); }
static bytes conf_of(const std::vector<int>& ids)
{
    cluster_config c;
    for (int i : ids) c.get_servers().push_back(cs_new<srv_config>(i, ep_of(i)));
    return buf_bytes(*c.serialize());
}
static Node* make_node(int id, const std::vector<int>& conf, bool joiner)
{
    Node* n = new Node;
    n->id = id;
    n->joiner = joiner;
    n->disk.id = id;
    n->disk.sm_durable = P.sm_durable;
    n->disk.conf = conf_of(conf);
    g_nodes[id] = n;
    return n;
}
static std::set<int> committed_members()
{
    if (g_conf_committed.empty()) return std::set<int>(g_initial.begin(), g_initial.end());
    return ids_of(g_conf_committed.rbegin()->second);
}
struct Pending { bool active = false; bool add = false; int id = 0; int64_t since = 0; bool accepted = false; int64_t accepted_at = 0; int tries = 0; ulong leader_term = 0; };
static Pending g_pend;
static int g_next_id = 0;
static int g_changes_done = 0;
static bool ever_member(int id)
{
    for (int i : g_initial) if (i == id) return true;
    for (auto& kv : g_conf_committed) if (ids_of(kv.second).count(id)) return true;
    return false;
}
// the membership the server starts with is one of the cluster's and has it
static bool knows_cluster(Node* n)
{
    if (n->disk.conf_idx == 0) return false;
    return ids_of(conf_servers(*parse_conf(n->disk.conf))).count(n->id) > 0;
}
static bool all_members_current()
{
    auto mem = committed_members();
    ulong ci = g_conf_committed.empty() ? 0 : g_conf_committed.rbegin()->first;
    for (int m : mem)
    {
        Node* x = node(m);
        if (!x || !x->alive || x->booting || x->disk.conf_idx < ci) return false;
    }
    return ci > 0;
}
static void submit_change(Node* n)
{
    // through add_srv/remove_srv on any server or as a raw request
    int inc = n->inc;
    bool add = g_pend.add;
    int id = g_pend.id;
    TR("admin: %s %d at %d", add ? "add" : "remove", id, n->id);
    g_stats.add(add ? "add_reqs" : "rm_reqs");
    if (R().chance(0.5))
    {
        ptr<async_result<bool>> r;
        if (add) { srv_config sc(id, ep_of(id)); r = n->srv->add_srv(sc); }
        else r = n->srv->remove_srv(id);
        if (!live(n, inc)) simrt::park_forever();
        if (!r) { violate("C09 C11", "change-null", "no result"); return; }
        std::function<void(bool&, const ptr<std::exception>&)> h = [id, add](bool& res, const ptr<std::exception>& err) {
            if (res && !err && g_pend.active && g_pend.id == id && g_pend.add == add && !g_pend.accepted) { g_pend.accepted = true; g_pend.accepted_at = now(); g_stats.add("changes_accepted"); }
        };
        r->when_ready(h);
    }
    else
    {
        ptr<req_msg> req = cs_new<req_msg>((ulong)0, add ? msg_type::add_server_request : msg_type::remove_server_request, 0, n->id, (ulong)0, (ulong)0, (ulong)0);
        bufptr b(nullptr, [](buffer*) {});
        if (add) { srv_config sc(id, ep_of(id)); b = sc.serialize(); }
        else { b = buffer::alloc(sz_int); b->put((int32)id); b->pos(0); }
        req->log_entries().push_back(cs_new<log_entry>((ulong)0, std::move(b), log_val_type::cluster_server));
        bool was = is_role_leader(n);
        ptr<resp_msg> r = n->srv->process_req(*req);
        if (!live(n, inc)) simrt::park_forever();
        EVAL("C09");
        if (r && r->get_accepted())
        {
            if (!was && !is_role_leader(n)) violate("C09", "change-nonleader", S("server %d is not leader and accepts a membership change", n->id));
            if (!g_pend.accepted) { g_pend.accepted = true; g_pend.accepted_at = now(); g_stats.add("changes_accepted"); }
        }
    }
}
// requests that must be refused
static void submit_bad_change(Node* n)
{
    int inc = n->inc;
    if (!is_role_leader(n)) return;
    int k = (int)R().below(4);
    ptr<req_msg> req;
    bufptr b(nullptr, [](buffer*) {});
    auto mem = committed_members();
    int member = *std::next(mem.begin(), (long)R().below(mem.size()));
    const char* what = "";
    if (k == 0) { req = cs_new<req_msg>((ulong)0, msg_type::remove_server_request, 0, n->id, (ulong)0, (ulong)0, (ulong)0); b = buffer::alloc(sz_int); b->put((int32)n->id); b->pos(0); what = "removal of the leader"; }
    else if (k == 1) { req = cs_new<req_msg>((ulong)0, msg_type::remove_server_request, 0, n->id, (ulong)0, (ulong)0, (ulong)0); b = buffer::alloc(sz_int); b->put((int32)7777); b->pos(0); what = "removal of an unknown server"; }
    else if (k == 2)
    {
        if (g_pend.active || !all_members_current()) return;
        req = cs_new<req_msg>((ulong)0, msg_type::add_server_request, 0, n->id, (ulong)0, (ulong)0, (ulong)0); srv_config sc(member, ep_of(member)); b = sc.serialize(); what = "addition of a present member";
    }
    else { req = cs_new<req_msg>((ulong)0, msg_type::remove_server_request, 0, n->id, (ulong)0, (ulong)0, (ulong)0); b = buffer::alloc(2); what = "a malformed removal"; }
    req->log_entries().push_back(cs_new<log_entry>((ulong)0, std::move(b), log_val_type::cluster_server));
    g_stats.add("bad_changes");
    ptr<resp_msg> r;
    try { r = n->srv->process_req(*req); }
    catch (std::exception& e) { violate("C09 C07", "bad-change-throws", e.what()); return; }
    if (!live(n, inc)) simrt::park_forever();
    EVAL("C09");
    if (r && r->get_accepted()) violate("C09", "bad-change", S("leader %d accepts %s", n->id, what));
}
static bool g_member_faults = false;
static void admin_tick()
{
    if (!P.membership || g_healed) return;
    at_driver(now() + R().range(20000, 120000), admin_tick);
    // servers that are out and have not noticed are switched off by the operator
    auto mem = committed_members();
    for (auto& kv : g_nodes)
    {
        Node* n = kv.second;
        if (n->alive && ever_member(n->id) && !mem.count(n->id) && !n->gone)
        {
            if (!n->removed) { n->removed = true; n->leaving = true; int inc = n->inc; at_driver(now() + 3000000, [n, inc]() { if (live(n, inc)) { n->gone = true; crash(n, "operator"); } }); }
        }
    }
    if (g_pend.active)
    {
        bool done = g_pend.add ? mem.count(g_pend.id) > 0 : mem.count(g_pend.id) == 0;
        if (done)
        {
            EVAL("C09");
            g_stats.add("changes_done");
            ++g_changes_done;
            g_pend = Pending();
            return;
        }
        Node* l = current_leader();
        if (g_pend.accepted)
        {
            if (now() - g_pend.accepted_at > (int64_t)P.upper * 1000 * 40)
            {
                bool stable = !g_member_faults && l && l->leader_term == g_pend.leader_term;
                if (stable) violate("C09", "change-lost", S("the accepted %s of server %d had no effect in %d ms with a stable leader", g_pend.add ? "addition" : "removal", g_pend.id, P.upper * 40));
                g_pend.accepted = false;
                g_stats.add("changes_retried");
            }
            return;
        }
        if (now() - g_pend.since > 150000)
        {
            g_pend.since = now();
            g_pend.leader_term = l ? l->leader_term : 0;
            if (++g_pend.tries > 60) { g_stats.add("changes_abandoned"); g_pend = Pending(); return; }
            Node* t = R().chance(0.8) ? l : pick_alive();
            if (t) run_on(t, [t]() { submit_change(t); });
        }
        return;
    }
    if (R().chance(0.3)) { Node* l = current_leader(); if (l) { run_on(l, [l]() { submit_bad_change(l); }); } return; }
    if (!all_members_current() || g_changes_done >= 5) return;
    bool add = mem.size() <= 2 || (mem.size() < 5 && R().chance(0.55));
    int id = 0;
    if (add)
    {
        id = ++g_next_id;
        Node* j = make_node(id, {id}, true);
        boot(j);
    }
    else
    {
        Node* l = current_leader();
        std::vector<int> c;
        for (int m : mem) if (!l || m != l->id) c.push_back(m);
        id = c[R().below(c.size())];
    }
    g_pend = Pending();
    g_pend.active = true;
    g_pend.add = add;
    g_pend.id = id;
    g_pend.since = now() - 120000;
    ChangeReq q{id, add, ep_of(id)};
    g_changes.push_back(q);
}

// ------------------------------------------------------------------ faults
static bool g_chaos = false;
static bool is_plain_member(Node* n) { return !n->joiner || ever_member(n->id); }
static Node* pick_fault_target()
{
    std::vector<Node*> v;
    for (auto& kv : g_nodes) if (kv.second->alive && !kv.second->gone && is_plain_member(kv.second)) v.push_back(kv.second);
    if (v.empty()) return nullptr;
    Node* l = current_leader();
    if (l && R().chance(0.4)) return l;
    return v[R().below(v.size())];
}
static void cut_pair(int a, int b, bool v) { g_cut[{a, b}] = v; }
static void start_partition()
{
    if (!g_chaos) return;
    std::vector<int> ids;
    for (auto& kv : g_nodes) if (!kv.second->gone) ids.push_back(kv.first);
    if (ids.size() < 2) return;
    std::vector<std::pair<int, int>> cuts;
    double u = R().unit();
    if (u < 0.45 || P.isolate_leader)
    {
        Node* l = R().chance(P.isolate_leader ? 0.9 : 0.5) ? current_leader() : nullptr;
        int x = l ? l->id : ids[R().below(ids.size())];
        bool in = true, out = true;
        if (R().chance(0.35)) { if (R().chance(0.5)) in = false; else out = false; }
        for (int y : ids) if (y != x) { if (out) cuts.push_back({x, y}); if (in) cuts.push_back({y, x}); }
        TR("fault: isolate %d in %d out %d", x, in, out);
    }
    else if (u < 0.8)
    {
        std::set<int> a;
        for (int y : ids) if (R().chance(0.5)) a.insert(y);
        for (int x : ids) for (int y : ids) if (x != y && a.count(x) != a.count(y)) cuts.push_back({x, y});
        TR("fault: split");
    }
    else
    {
        int k = (int)R().range(1, 3);
        for (int i = 0; i < k; ++i)
        {
            int a = ids[R().below(ids.size())], b = ids[R().below(ids.size())];
            if (a != b) { cuts.push_back({a, b}); if (R().chance(0.5)) cuts.push_back({b, a}); }
        }
        TR("fault: links");
    }
    g_stats.add("partitions");
    for (auto& c : cuts) cut_pair(c.first, c.second, true);
    int64_t dur = R().chance(0.6) ? R().range(20000, 600000) : R().range(300000, 2500000);
    at_driver(now() + dur, [cuts]() { for (auto& c : cuts) cut_pair(c.first, c.second, false); });
}
static void random_crash()
{
    if (!g_chaos) return;
    Node* n = pick_fault_target();
    if (n) crash(n, "random");
}
static void random_opcrash()
{
    if (!g_chaos) return;
    Node* n = pick_fault_target();
    if (n) { n->crash_in_ops = (int)R().range(0, 10); n->crash_after = R().chance(0.5); }
}
static void client_loop()
{
    if (g_healed) return;
    client_tick();
    int64_t gap = (int64_t)(P.client_gap_ms * 1000 * (0.1 + 1.8 * R().unit()));
    if (R().chance(0.1)) { int k = (int)R().range(1, 8); for (int i = 0; i < k; ++i) client_tick(); }
    at_driver(now() + gap, client_loop);
}
static void heal_loop()
{
    if (g_stop) return;
    at_driver(now() + 100000 + R().range(0, 100000), heal_loop);
    Node* n = R().chance(0.8) ? current_leader() : pick_alive();
    if (!n) n = pick_alive();
    if (!n) return;
    double u = R().unit();
    if (u < 0.5) run_on(n, [n]() { client_append(n, 1); });
    else if (u < 0.7) run_on(n, [n]() { client_replicate(n); });
    else run_on(n, [n]() { client_raw(n, 1); });
}

// a value accepted after the heal and applied by every member
static bool healed_ok(std::string* why)
{
    auto mem = committed_members();
    // a server told to leave may have stopped although its removal was given up with its leader
    size_t quit = 0;
    for (int m : mem) { Node* n = node(m); if (n && !n->alive && n->gone && n->leaving) ++quit; }
    if (quit * 2 >= mem.size()) { g_stats.add("heal_no_quorum"); return true; }
    ulong best = 0;
    for (auto it = g_batches.lower_bound(g_last_heal_batch); it != g_batches.end(); ++it)
    {
        if (it->second.status != 1) continue;
        Val& v = g_vals[it->second.vals.back()];
        auto c = g_committed.find(v.idx);
        if (c != g_committed.end() && c->second.term == v.term) { best = v.idx; break; }
    }
    if (!best) { *why = "no value submitted after the faults ended is accepted and committed"; return false; }
    for (int m : mem)
    {
        Node* n = node(m);
        if (quit && n && !n->alive && n->gone && n->leaving) continue;
        if (!n || !n->alive || n->disk.applied < best) { *why = S("server %d has applied %llu of %llu", m, n ? (unsigned long long)n->disk.applied : 0, (unsigned long long)best); return false; }
    }
    return true;
}
static int g_first_heal_batch = 0;

// ------------------------------------------------------------------ episode
static void sample_params(const std::string& prof)
{
    Rng& r = R();
    static const int ns[] = {1, 2, 3, 3, 3, 3, 4, 5, 5};
    P.n = ns[r.below(9)];
    P.prevote = r.chance(0.45);
    P.defensive = r.chance(0.5);
    int scale = r.chance(0.7) ? 1 : 2;
    P.lower = 150 * scale;
    P.upper = 300 * scale;
    P.hb = (int)r.range(30, 80) * scale;
    P.backoff = (int)r.range(10, 50);
    P.max_append = r.chance(0.5) ? (int)r.range(1, 4) : 100;
    P.sm_durable = r.chance(0.6);
    P.client_gap_ms = r.chance(0.5) ? 15 : 60;
    P.max_batch = (int)r.range(1, 5);
    P.p_cookie = 0.2;
    P.chaos_us = r.range(2000000, 7000000);
    double u = r.unit();
    P.psw = u < 0.3 ? 0.02 : u < 0.7 ? 0.15 : 0.5;
    P.pov = r.chance(0.5) ? 0.02 : 0.0;
    P.pspur = r.chance(0.2) ? 0.05 : 0;
    P.lat_max = r.chance(0.7) ? 5000 : 60000;
    P.p_apply_slow = r.chance(0.5) ? 1 : 0;
    if (r.chance(0.85))
    {
        P.crashes = (int)r.range(0, 5);
        P.opcrashes = (int)r.range(0, 5);
        P.partitions = (int)r.range(0, 8);
        if (r.chance(0.5)) { P.p_loss = 0.08 * r.unit(); P.p_resploss = 0.08 * r.unit(); }
        if (r.chance(0.4)) P.p_ghost = 0.08 * r.unit();
    }
    if (prof == "snap" || (prof == "lease" && r.chance(0.2)))
    {
        if (P.n == 1 && r.chance(0.8)) P.n = 3;
        P.snap_dist = (int)r.range(3, 25);
        P.snap_block = r.chance(0.5) ? (int)r.range(1, 20) : (int)r.range(20, 200);
        P.reserved = r.chance(0.4) ? 0 : (int)r.range(1, 12);
        P.snap_pad = r.chance(0.5) ? 4 : 60;
        P.snap_async = r.chance(0.5);
        P.p_snap_fail = r.chance(0.3) ? 0.2 : 0;
        P.client_gap_ms = 12;
        if (r.chance(0.6)) P.partitions += 3;
    }
    if (prof == "lease")
    {
        if (P.n < 2) P.n = 3;
        P.isolate_leader = true;
        P.partitions = (int)r.range(4, 10);
        P.crashes = (int)r.range(0, 2);
        P.opcrashes = 0;
        P.chaos_us = 8000000;
        P.client_gap_ms = 20;
    }
    if (prof == "member")
    {
        static const int mn[] = {1, 2, 3, 3, 3, 4};
        P.n = mn[r.below(6)];
        P.membership = true;
        P.chaos_us = 12000000;
        P.sync_batch = (int)r.range(1, 20);
        P.sync_gap = (int)r.range(2, 8);
        P.client_gap_ms = 40;
        g_member_faults = r.chance(0.5);
        if (!g_member_faults) { P.crashes = P.opcrashes = P.partitions = 0; P.p_loss = P.p_resploss = P.p_ghost = 0; P.lat_max = 5000; }
        else { P.partitions = (int)r.range(0, 4); P.crashes = (int)r.range(0, 2); P.opcrashes = (int)r.range(0, 2); }
        if (r.chance(0.4)) { P.snap_dist = (int)r.range(8, 25); P.snap_block = (int)r.range(5, 50); P.snap_async = r.chance(0.5); P.reserved = r.chance(0.5) ? 0 : (int)r.range(1, 8); }
    }
    if (prof == "destroy")
    {
        P.destroy = true;
        P.chaos_us = r.range(200000, 1500000);
        P.psw = 0.3;
        if (r.chance(0.3)) { P.snap_dist = (int)r.range(3, 10); P.snap_block = 50; }
    }
    if (prof == "calm")
    {
        P.crashes = P.opcrashes = P.partitions = 0;
        P.p_loss = P.p_resploss = P.p_ghost = 0;
        P.lat_max = 5000;
        P.chaos_us = 3000000;
    }
}

static void destroy_all()
{
    // every server is quiet: no handler inside, transport and timers silent
    for (auto& kv : g_nodes)
    {
        Node* n = kv.second;
        if (!n->alive || n->booting || !n->srv) continue;
        int inc = n->inc;
        // drop the node's pending events
        for (auto it = g_events.begin(); it != g_events.end();)
            if (it->second.group == inc) it = g_events.erase(it); else ++it;
        bool* done = new bool(false);
        g_stats.add("destroys");
        EVAL("C21");
        Ev e{inc, [n, done]() {
                 ptr<raft_server> s = n->srv;
                 n->srv.reset();
                 if (s.use_count() != 1) { g_leak.push_back(new ptr<raft_server>(s)); *done = true; return; }
                 s.reset();
                 *done = true;
             }, false};
        n->booting = true; // unreachable for messages
        dispatch(e);
        for (int k = 0; k < 400 && !*done; ++k)
        {
            simrt::RunResult rr = simrt::run_others();
            if (rr == simrt::IDLE && !*done)
            {
                // only time could still help
                int64_t td = simrt::next_deadline();
                if (td == INT64_MAX) break;
                simrt::set_now(td);
            }
        }
        if (!*done)
        {
            violate("C21 C07", "destroy-hangs", S("destroying server %d does not return: %s", n->id, simrt::describe_blocked(inc).c_str()));
            finish(0);
        }
        while (simrt::run_others() != simrt::IDLE) {}
        n->alive = false;
    }
}

static void episode(uint64_t seed, std::string prof)
{
    g_seed = seed;
    g_profile = prof;
    simrt::init(seed * 1000003 + 17);
    if (prof == "mix")
    {
        static const char* ps[] = {"basic", "basic", "basic", "snap", "snap", "lease", "member", "calm", "destroy"};
        prof = ps[R().below(9)];
    }
    sample_params(prof);
    TR("episode seed %llu profile %s n %d prevote %d defensive %d snap %d block %d reserved %d durable %d upper %d maxappend %d crashes %d op %d part %d loss %.3f/%.3f ghost %.3f psw %.2f pov %.2f member-faults %d", (unsigned long long)seed, prof.c_str(),
       P.n, P.prevote, P.defensive, P.snap_dist, P.snap_block, P.reserved, P.sm_durable, P.upper, P.max_append, P.crashes, P.opcrashes, P.partitions, P.p_loss, P.p_resploss, P.p_ghost, P.psw, P.pov, g_member_faults);
    simrt::set_switch_prob(P.psw);
    simrt::set_overlap_prob(P.pov);
    simrt::set_spurious_prob(P.pspur);
    for (int i = 1; i <= P.n; ++i) g_initial.push_back(i);
    for (int i = 1; i <= P.n; ++i)
    {
        Node* n = make_node(i, g_initial, false);
        at_driver(R().range(0, 50000), [n]() { boot(n); });
    }
    g_next_id = P.n;
    g_chaos = true;
    g_loss = P.p_loss;
    g_resploss = P.p_resploss;
    g_ghost = P.p_ghost;
    for (int i = 0; i < P.crashes; ++i) at_driver(R().range(100000, P.chaos_us), random_crash);
    for (int i = 0; i < P.opcrashes; ++i) at_driver(R().range(0, P.chaos_us), random_opcrash);
    for (int i = 0; i < P.partitions; ++i) at_driver(R().range(100000, P.chaos_us), start_partition);
    at_driver(R().range(200000, 600000), client_loop);
    if (P.membership) at_driver(700000, admin_tick);
    run_until(P.chaos_us);
    if (P.destroy && R().chance(0.6))
    {
        g_healed = true;
        destroy_all();
        finish(0);
    }
    // heal
    g_chaos = false;
    g_healed = true;
    g_heal_time = now();
    TR("HEAL");
    g_cut.clear();
    g_loss = g_resploss = g_ghost = 0;
    P.lat_max = 5000;
    for (auto& kv : g_nodes) kv.second->crash_in_ops = -1;
    g_first_heal_batch = g_next_batch;
    g_last_heal_batch = g_next_batch;
    heal_loop();
    int64_t bound = now() + (int64_t)P.upper * 1000 * 400;
    std::string why = "?";
    bool ok = false;
    bool removed_pending = false;
    while (now() < bound)
    {
        run_until(now() + 100000);
        g_last_heal_batch = g_first_heal_batch;
        if (P.membership)
        {
            for (auto& kv : g_nodes)
            {
                Node* n = kv.second;
                if (n->joiner && n->alive && !n->booting && n->big_timeout && ever_member(n->id) && knows_cluster(n)) crash(n, "operator restart after joining");
            }
            auto mem = committed_members();
            for (auto& kv : g_nodes)
            {
                Node* n = kv.second;
                if (n->alive && ever_member(n->id) && !mem.count(n->id) && !n->gone)
                {
                    // out of the cluster: the operator switches it off
                    n->removed = n->leaving = n->gone = true;
                    crash(n, "operator");
                }
            }
        }
        ok = healed_ok(&why);
        if (ok) break;
    }
    (void)removed_pending;
    if (!ok)
        for (int m : committed_members())
        {
            // added, but its leader was lost before it heard of that: it takes no part in elections yet
            Node* n = node(m);
            if (n && n->joiner && n->big_timeout && !knows_cluster(n)) { g_stats.add("heal_joiner_unaware"); finish(0); }
        }
    EVAL("C07");
    if (!ok)
    {
        violate("C07", "no-progress", S("no progress within %d election timeouts of virtual time after all faults ended: %s", 400, why.c_str()));
        finish(0);
    }
    g_stats.add("heal_ms", (uint64_t)((now() - g_heal_time) / 1000));
    g_stop = true; // stops heal_loop
    g_stop = false;
    // stop clients, let everything settle
    for (auto it = g_events.begin(); it != g_events.end();)
        if (it->second.on_driver) it = g_events.erase(it); else ++it;
    run_until(now() + (int64_t)P.upper * 1000 * 3 + 400000);
    // all submitted requests must have been answered
    for (auto& kv : g_batches)
    {
        EVAL("C11");
        if (kv.second.status == 0 && !kv.second.dead && kv.second.at_inc && live(node_of_inc(kv.second.at_inc), kv.second.at_inc))
            violate("C11", "never-answered", S("batch %d was never answered", kv.first));
    }
    for (auto& kv : g_nodes) if (kv.second->alive && !kv.second->booting && g_inside[kv.second->inc] == 0) c10_quiescent(kv.second);
    if (P.destroy) destroy_all();
    finish(0);
}

int main(int argc, char** argv)
{
    uint64_t from = 1, to = 1;
    std::string prof = "mix";
    bool nofork = false;
    int tmo = 60;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") g_prop = nx();
        else if (a == "--profile") prof = nx();
        else if (a == "--from") from = strtoull(nx().c_str(), 0, 10);
        else if (a == "--to") to = strtoull(nx().c_str(), 0, 10);
        else if (a == "--seed") { from = to = strtoull(nx().c_str(), 0, 10); }
        else if (a == "--trace") g_trace = true;
        else if (a == "--nofork") nofork = true;
        else if (a == "--timeout") tmo = atoi(nx().c_str());
        else { fprintf(stderr, "usage\n"); return 2; }
    }
    g_profile = prof;
    setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
    if (nofork) { episode(from, prof); return 0; }
    for (uint64_t s = from; s <= to; ++s)
    {
        fflush(stdout);
        pid_t p = fork();
        if (p == 0)
        {
            alarm((unsigned)tmo);
            episode(s, prof);
            _exit(0);
        }
        int st = 0;
        while (waitpid(p, &st, 0) < 0) {}
        if (WIFSIGNALED(st)) printf("DEATH seed=%llu profile=%s signal=%d\n", (unsigned long long)s, prof.c_str(), WTERMSIG(st));
        else if (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 3) printf("DEATH seed=%llu profile=%s exit=%d\n", (unsigned long long)s, prof.c_str(), WEXITSTATUS(st));
    }
    return 0;
}
