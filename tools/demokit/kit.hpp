// Small driver kit for demonstrations: one real raft_server with in-memory collaborators, messages fed by hand.
#pragma once
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>
#include "cornerstone.hxx"
using namespace cornerstone;

#define CHECK(c) do { if (!(c)) { printf("FAILED: %s (line %d)\n", #c, __LINE__); fflush(stdout); _exit(1); } } while (0)
inline int done() { printf("ok\n"); fflush(stdout); _exit(0); }
inline bool wait_for(std::function<bool()> f, int ms = 3000)
{
    for (int i = 0; i < ms / 5; ++i) { if (f()) return true; std::this_thread::sleep_for(std::chrono::milliseconds(5)); }
    return f();
}
inline void pause_ms(int ms) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }
inline ptr<log_entry> entry(ulong term, const std::string& s, log_val_type t = log_val_type::app_log)
{
    bufptr b = buffer::alloc(s.size());
    memcpy(b->data(), s.data(), s.size());
    return cs_new<log_entry>(term, std::move(b), t);
}
inline ptr<log_entry> entry(ulong term, bufptr&& b, log_val_type t) { return cs_new<log_entry>(term, std::move(b), t); }
inline std::string bytes_of(buffer& b) { return std::string((char*)b.data() , b.size() - b.pos()); }

struct mem_log : public log_store
{
    std::recursive_mutex m; ulong start = 1; std::deque<ptr<log_entry>> v;
    static ptr<log_entry> cp(const ptr<log_entry>& e)
    {
        bufptr b = buffer::alloc(e->get_buf().size());
        e->get_buf().pos(0);
        memcpy(b->data(), e->get_buf().data(), b->size());
        return cs_new<log_entry>(e->get_term(), std::move(b), e->get_val_type());
    }
    ulong next_slot() const override { auto self = const_cast<mem_log*>(this); std::lock_guard<std::recursive_mutex> g(self->m); return start + v.size(); }
    ulong start_index() const override { auto self = const_cast<mem_log*>(this); std::lock_guard<std::recursive_mutex> g(self->m); return start; }
    ptr<log_entry> last_entry() const override { auto self = const_cast<mem_log*>(this); std::lock_guard<std::recursive_mutex> g(self->m); return v.empty() ? cs_new<log_entry>((ulong)0, buffer::alloc(0)) : cp(v.back()); }
    ulong append(ptr<log_entry>& e) override { std::lock_guard<std::recursive_mutex> g(m); v.push_back(e); return start + v.size() - 1; }
    void write_at(ulong i, ptr<log_entry>& e) override { std::lock_guard<std::recursive_mutex> g(m); v.resize(i - start); v.push_back(e); }
    ptr<std::vector<ptr<log_entry>>> log_entries(ulong a, ulong b) override
    {
        std::lock_guard<std::recursive_mutex> g(m);
        ptr<std::vector<ptr<log_entry>>> r = cs_new<std::vector<ptr<log_entry>>>();
        for (ulong i = a; i < b && i < start + v.size(); ++i) r->push_back(cp(v.at(i - start)));
        return r;
    }
    ptr<log_entry> entry_at(ulong i) override { std::lock_guard<std::recursive_mutex> g(m); return v.at(i - start); }
    ulong term_at(ulong i) override { std::lock_guard<std::recursive_mutex> g(m); return v.at(i - start)->get_term(); }
    bufptr pack(ulong, int32) override { return buffer::alloc(0); }
    void apply_pack(ulong, buffer&) override {}
    bool compact(ulong i) override
    {
        std::lock_guard<std::recursive_mutex> g(m);
        if (i < start) return false;
        while (!v.empty() && start <= i) { v.pop_front(); ++start; }
        start = i + 1;
        return true;
    }
    std::string at(ulong i) { std::lock_guard<std::recursive_mutex> g(m); auto& e = v.at(i - start); return std::string((char*)e->get_buf().data() - e->get_buf().pos(), e->get_buf().size()); }
};
struct sent_msg { int dst; ptr<req_msg> req; rpc_handler h; bool used = false; };
struct node
{
    int id;
    ptr<mem_log> log = cs_new<mem_log>();
    ulong term = 0; int vote = -1; bool has_state = false; int saves = 0;
    ptr<cluster_config> conf; std::vector<std::pair<ulong, size_t>> saved_confs;
    std::recursive_mutex m;
    std::vector<std::pair<ulong, std::string>> committed, precommitted, rolled;
    ulong last_commit = 0; ptr<snapshot> snp; std::string snp_data; std::map<ulong, std::string> incoming; int exits = 0;
    std::vector<ptr<sent_msg>> sent;
    struct task { ptr<delayed_task> t; int ms; bool on; };
    std::vector<task> tasks;
    std::vector<int> events;
    std::function<void(snapshot&, async_result<bool>::handler_type&)> on_create_snapshot;
    std::function<void(ulong)> on_commit;
    ptr<raft_server> srv;
    raft_params* params = new raft_params();
    node(int i, const std::vector<int>& members) : id(i)
    {
        conf = cs_new<cluster_config>();
        for (int x : members) conf->get_servers().push_back(cs_new<srv_config>(x, "ep" + std::to_string(x)));
        (*params).with_election_timeout_lower(200).with_election_timeout_upper(400).with_hb_interval(100).with_max_append_size(100).with_rpc_failure_backoff(50);
    }
    void start();
    std::vector<ptr<log_entry>> none() { return {}; }
    ptr<resp_msg> req(msg_type t, int src, ulong trm, ulong last_idx, ulong last_term, ulong commit, std::vector<ptr<log_entry>> es = {})
    {
        req_msg r(trm, t, src, id, last_term, last_idx, commit);
        for (auto& e : es) r.log_entries().push_back(e);
        return srv->process_req(r);
    }
    // fires the newest enabled timer whose delay is within [lo,hi]
    bool fire(int lo, int hi)
    {
        ptr<delayed_task> t;
        { std::lock_guard<std::recursive_mutex> g(m); for (auto it = tasks.rbegin(); it != tasks.rend(); ++it) if (it->on && it->ms >= lo && it->ms <= hi) { t = it->t; it->on = false; break; } }
        if (!t) return false;
        t->execute();
        return true;
    }
    bool fire_election() { return fire(150, 1000); }
    bool fire_hb() { return fire(1, 149); }
    // newest unanswered request of this kind for that server
    ptr<sent_msg> last(msg_type t, int dst)
    {
        std::lock_guard<std::recursive_mutex> g(m);
        for (auto it = sent.rbegin(); it != sent.rend(); ++it) if ((*it)->dst == dst && (*it)->req->get_type() == t && !(*it)->used) return *it;
        return ptr<sent_msg>();
    }
    size_t count(msg_type t, int dst) { std::lock_guard<std::recursive_mutex> g(m); size_t n = 0; for (auto& s : sent) if (s->dst == dst && s->req->get_type() == t) ++n; return n; }
    void answer(ptr<sent_msg> s, msg_type t, ulong trm, bool ok, ulong next)
    {
        s->used = true;
        ptr<resp_msg> r = cs_new<resp_msg>(trm, t, s->dst, id, next, ok);
        ptr<rpc_exception> no;
        s->h(r, no);
    }
    void fail(ptr<sent_msg> s)
    {
        s->used = true;
        ptr<resp_msg> r;
        ptr<rpc_exception> ex = cs_new<rpc_exception>("down", s->req);
        s->h(r, ex);
    }
    // wins an election with the votes of the given servers
    void elect(const std::vector<int>& voters)
    {
        CHECK(fire_election());
        for (int v : voters) { auto s = last(msg_type::vote_request, v); CHECK(s); answer(s, msg_type::vote_response, s->req->get_term(), true, 1); }
    }
    // answers the newest outstanding append request positively
    bool ack(int dst)
    {
        auto s = last(msg_type::append_entries_request, dst);
        if (!s) return false;
        answer(s, msg_type::append_entries_response, s->req->get_term(), true, s->req->get_last_log_idx() + s->req->log_entries().size() + 1);
        return true;
    }
    bool is_event(raft_event e) { std::lock_guard<std::recursive_mutex> g(m); for (int x : events) if (x == (int)e) return true; return false; }
    bool has_committed(ulong idx, const std::string& s = "") { std::lock_guard<std::recursive_mutex> g(m); for (auto& c : committed) if (c.first == idx && (s.empty() || c.second == s)) return true; return false; }
};
struct k_mgr : public state_mgr
{
    node* n; k_mgr(node* x) : n(x) {}
    ptr<cluster_config> load_config() override { return n->conf; }
    void save_config(const cluster_config& c) override { std::lock_guard<std::recursive_mutex> g(n->m); n->saved_confs.push_back({c.get_log_idx(), const_cast<cluster_config&>(c).get_servers().size()}); }
    void save_state(const srv_state& s) override { std::lock_guard<std::recursive_mutex> g(n->m); n->has_state = true; n->term = s.get_term(); n->vote = s.get_voted_for(); ++n->saves; }
    ptr<srv_state> read_state() override { auto s = cs_new<srv_state>(); s->set_term(n->term); s->set_voted_for(n->vote); return s; }
    ptr<log_store> load_log_store() override { return n->log; }
    int32 server_id() override { return n->id; }
    void system_exit(const int c) override { printf("server %d: system_exit(%d)\n", n->id, c); fflush(stdout); std::lock_guard<std::recursive_mutex> g(n->m); ++n->exits; }
};
struct k_sm : public state_machine
{
    node* n; k_sm(node* x) : n(x) {}
    static std::string str(buffer& b) { return std::string((char*)b.data() - b.pos(), b.size()); }
    void commit(const ulong i, buffer& d, const uptr<log_entry_cookie>&) override { { std::lock_guard<std::recursive_mutex> g(n->m); n->committed.push_back({i, str(d)}); n->last_commit = i; } if (n->on_commit) n->on_commit(i); }
    void pre_commit(const ulong i, buffer& d, const uptr<log_entry_cookie>&) override { std::lock_guard<std::recursive_mutex> g(n->m); n->precommitted.push_back({i, str(d)}); }
    void rollback(const ulong i, buffer& d, const uptr<log_entry_cookie>&) override { std::lock_guard<std::recursive_mutex> g(n->m); n->rolled.push_back({i, str(d)}); }
    void save_snapshot_data(snapshot& s, const ulong off, buffer& d) override { std::lock_guard<std::recursive_mutex> g(n->m); auto& x = n->incoming[s.get_last_log_idx()]; std::string v((char*)d.data(), d.size() - d.pos()); if (x.size() < off + v.size()) x.resize(off + v.size()); memcpy(&x[off], v.data(), v.size()); }
    bool apply_snapshot(snapshot& s) override { std::lock_guard<std::recursive_mutex> g(n->m); n->snp_data = n->incoming[s.get_last_log_idx()]; n->snp = cs_new<snapshot>(s.get_last_log_idx(), s.get_last_log_term(), s.get_last_config(), n->snp_data.size()); n->last_commit = s.get_last_log_idx(); return true; }
    int read_snapshot_data(snapshot&, const ulong off, buffer& d) override { std::lock_guard<std::recursive_mutex> g(n->m); size_t k = std::min(d.size() - d.pos(), n->snp_data.size() - off); memcpy(d.data(), n->snp_data.data() + off, k); return (int)k; }
    ulong last_commit_index() override { return n->last_commit; }
    ptr<snapshot> last_snapshot() override { return n->snp; }
    void create_snapshot(snapshot& s, async_result<bool>::handler_type& h) override
    {
        if (n->on_create_snapshot) { n->on_create_snapshot(s, h); return; }
        { std::lock_guard<std::recursive_mutex> g(n->m); n->snp_data = "snapshot-data-0123456789"; n->snp = cs_new<snapshot>(s.get_last_log_idx(), s.get_last_log_term(), s.get_last_config(), n->snp_data.size()); }
        ptr<std::exception> none; bool ok = true; h(ok, none);
    }
};
struct k_log : public logger { int id; k_log(int i) : id(i) {} void p(const char* l, const std::string& s) { if (getenv("KIT_TRACE")) printf("[%d] %s %s\n", id, l, s.c_str()); } void debug(const std::string& s) override { p("D", s); } void info(const std::string& s) override { p("I", s); } void warn(const std::string& s) override { p("W", s); } void err(const std::string& s) override { p("E", s); } };
struct k_cli : public rpc_client { node* n; int dst; k_cli(node* x, int d) : n(x), dst(d) {} void send(ptr<req_msg>& r, rpc_handler& h) override { auto s = cs_new<sent_msg>(); s->dst = dst; s->req = r; s->h = h; std::lock_guard<std::recursive_mutex> g(n->m); n->sent.push_back(s); } };
struct k_fac : public rpc_client_factory { node* n; k_fac(node* x) : n(x) {} ptr<rpc_client> create_client(const std::string& ep) override { return cs_new<k_cli>(n, atoi(ep.c_str() + 2)); } };
struct k_sch : public delayed_task_scheduler
{
    node* n; k_sch(node* x) : n(x) {}
    void schedule(ptr<delayed_task>& t, int32 ms) override { t->reset(); std::lock_guard<std::recursive_mutex> g(n->m); for (auto& x : n->tasks) if (x.t == t) x.on = false; n->tasks.push_back({t, ms, true}); }
    void cancel_impl(ptr<delayed_task>& t) override { std::lock_guard<std::recursive_mutex> g(n->m); for (auto& x : n->tasks) if (x.t == t) x.on = false; }
};
struct k_lis : public raft_event_listener { node* n; k_lis(node* x) : n(x) {} void on_event(raft_event e) override { std::lock_guard<std::recursive_mutex> g(n->m); n->events.push_back((int)e); } };
inline void node::start()
{
    ptr<state_mgr> mgr = cs_new<k_mgr>(this);
    ptr<state_machine> sm = cs_new<k_sm>(this);
    ptr<logger> l = cs_new<k_log>(id);
    ptr<rpc_client_factory> f = cs_new<k_fac>(this);
    ptr<delayed_task_scheduler> s = cs_new<k_sch>(this);
    ptr<raft_event_listener> e = cs_new<k_lis>(this);
    ptr<rpc_listener> rl;
    context* ctx = new context(mgr, sm, rl, l, f, s, e, params);
    srv = cs_new<raft_server>(ctx);
}
inline bufptr conf_buf(ulong idx, ulong prev, const std::vector<int>& ids)
{
    cluster_config c(idx, prev);
    for (int x : ids) c.get_servers().push_back(cs_new<srv_config>(x, "ep" + std::to_string(x)));
    return c.serialize();
}
