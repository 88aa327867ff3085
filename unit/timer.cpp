// Timers of the asio service (C18): every schedule, cancel and run is recorded and judged afterwards.
#define UNIT_JITTER
#include "unit.hpp"
#include "cornerstone.hxx"
using namespace cornerstone;
using namespace unit;

static const double LATE = 4;      // s: a run that is due must have happened by then
static const double GAP = 0.15;    // s: between the service's decision to run a task and the task's first instruction
struct Op { int kind; double c, r, d; }; // 0 schedule, 1 cancel
struct Rec
{
    std::mutex order;               // schedule/cancel calls of one task do not overlap
    std::mutex l;
    std::vector<Op> ops;
    std::vector<double> runs;
    std::string name;
};
class Task : public delayed_task
{
public:
    Task(std::shared_ptr<Rec> r, std::function<void()> body) : rec(r), body_(body) {}
    std::shared_ptr<Rec> rec;
    std::function<void()> body_;
    std::atomic<bool>* gone = nullptr;
    ~Task() { if (gone) *gone = true; }
protected:
    void exec() override
    {
        double t = now();
        { std::lock_guard<std::mutex> g(rec->l); rec->runs.push_back(t); }
        TR("%s runs", rec->name.c_str());
        if (body_) body_();
    }
};
static void sched(asio_service& s, ptr<delayed_task>& t, Rec& r, int ms)
{
    std::lock_guard<std::mutex> g(r.order);
    double c = now();
    s.schedule(t, ms);
    double e = now();
    TR("%s scheduled in %d ms", r.name.c_str(), ms);
    std::lock_guard<std::mutex> g2(r.l);
    r.ops.push_back({0, c, e, ms / 1000.0});
}
static void canc(asio_service& s, ptr<delayed_task>& t, Rec& r)
{
    std::lock_guard<std::mutex> g(r.order);
    double c = now();
    s.cancel(t);
    double e = now();
    TR("%s cancelled", r.name.c_str());
    std::lock_guard<std::mutex> g2(r.l);
    r.ops.push_back({1, c, e, 0});
}
// does a matching exist that covers all of the left side?
static int uncovered(const std::vector<std::vector<int>>& adj, int nright)
{
    std::vector<int> mr(nright, -1);
    std::function<bool(int, std::vector<char>&)> aug = [&](int u, std::vector<char>& seen) {
        for (int v : adj[u])
            if (!seen[v]) { seen[v] = 1; if (mr[v] < 0 || aug(mr[v], seen)) { mr[v] = u; return true; } }
        return false;
    };
    for (int u = 0; u < (int)adj.size(); ++u) { std::vector<char> seen(nright, 0); if (!aug(u, seen)) return u; }
    return -1;
}
static std::string show(const Rec& r, double t0)
{
    std::string s;
    for (auto& o : r.ops) s += o.kind ? S(" cancel@%.1f", (o.c - t0) * 1e3) : S(" schedule@%.1f(+%.0f)", (o.c - t0) * 1e3, o.d * 1e3);
    for (double t : r.runs) s += S(" run@%.1f", (t - t0) * 1e3);
    return s;
}
static void judge(Rec& r, double t0, double end)
{
    std::lock_guard<std::mutex> g(r.l);
    std::vector<const Op*> sc;
    std::vector<const Op*> next;
    for (size_t i = 0; i < r.ops.size(); ++i)
        if (r.ops[i].kind == 0) { sc.push_back(&r.ops[i]); next.push_back(i + 1 < r.ops.size() ? &r.ops[i + 1] : nullptr); }
    std::sort(r.runs.begin(), r.runs.end());
    std::vector<std::vector<int>> run_adj(r.runs.size()), must_adj;
    std::vector<int> must;
    for (size_t i = 0; i < sc.size(); ++i)
    {
        double due = sc[i]->c + sc[i]->d;
        std::vector<int> ok;
        for (size_t k = 0; k < r.runs.size(); ++k)
        {
            double t = r.runs[k];
            if (t < due) continue; // early
            if (next[i])
            {
                bool in_time = next[i]->c < sc[i]->c + sc[i]->d; // cancelled or replaced before the delay had passed
                if (in_time && t > next[i]->r) continue;
                if (!in_time && next[i]->kind == 0 && t > next[i]->r + GAP) continue;
            }
            ok.push_back((int)k);
            run_adj[k].push_back((int)i);
        }
        // the delay counts from some instant within the call
        bool is_must = !next[i] ? sc[i]->r + sc[i]->d + LATE < end : next[i]->c > sc[i]->r + sc[i]->d + LATE;
        if (is_must) { must.push_back((int)i); must_adj.push_back(ok); }
    }
    int u = uncovered(run_adj, (int)sc.size());
    if (u >= 0) violate("timer-run", S("%s ran at %.1f ms without a schedule that allows it:%s", r.name.c_str(), (r.runs[u] - t0) * 1e3, show(r, t0).c_str()));
    u = uncovered(must_adj, (int)r.runs.size());
    if (u >= 0) violate("time-timer-lost", S("%s, scheduled at %.1f ms for %.0f ms later, had not run %.0f s after that:%s", r.name.c_str(), (sc[must[u]]->c - t0) * 1e3, sc[must[u]]->d * 1e3, LATE, show(r, t0).c_str()));
    for (double t : r.runs)
    {
        // lateness
        double best = 1e9;
        for (auto s : sc) if (t >= s->c + s->d) best = std::min(best, t - s->r - s->d);
        if (best > LATE && best < 1e8) violate("time-timer-late", S("%s ran %.1f s late", r.name.c_str(), best));
    }
    stat("schedules", sc.size());
    stat("timer_runs", r.runs.size());
    stat("cancels", r.ops.size() - sc.size());
}
struct World
{
    std::shared_ptr<asio_service> svc{std::make_shared<asio_service>()};
    std::vector<std::shared_ptr<Rec>> recs;
    double t0 = now();
    ptr<delayed_task> make(const std::string& name, std::function<void()> body, std::shared_ptr<Rec>* out = nullptr)
    {
        auto r = std::make_shared<Rec>();
        r->name = name;
        recs.push_back(r);
        if (out) *out = r;
        return cs_new<Task>(r, body);
    }
    // waits until all that must run has run (or the bound has passed), judges, stops
    Out finish(uint64_t h)
    {
        double lim = now() + LATE + 1;
        for (;;)
        {
            bool pending = false;
            double t = now();
            for (auto& r : recs)
            {
                std::lock_guard<std::mutex> g(r->l);
                int must = 0, cancelled_after = 0;
                if (!r->ops.empty() && r->ops.back().kind == 0)
                {
                    const Op& o = r->ops.back();
                    bool ran = false;
                    for (double x : r->runs) if (x >= o.c + o.d) ran = true;
                    if (!ran) pending = true;
                    if (t < o.r + o.d) pending = true;
                    (void)must; (void)cancelled_after;
                }
            }
            if (!pending || t > lim) break;
            usleep(2000);
        }
        usleep(20000); // anything that should not run any more
        double end = now();
        for (auto& r : recs) judge(*r, t0, end);
        {
            Watchdog w(20, "time-stop", "stop() of the service does not return");
            svc->stop();
        }
        for (auto& r : recs) { std::lock_guard<std::mutex> g(r->l); h = fnvv(r->runs.size(), h); h = fnvv(r->ops.size(), h); }
        return {h};
    }
};
static Out run_random(uint64_t seed)
{
    Rng r(seed);
    g_jitter = r.chance(0.4) ? (int)r.below(20) : 0;
    World w;
    int nt = (int)r.range(4, 24), nd = (int)r.range(1, 4);
    struct Own { ptr<delayed_task> t; std::shared_ptr<Rec> rec; std::shared_ptr<std::atomic<int>> self; };
    std::vector<std::vector<Own>> own(nd);
    asio_service* svc = w.svc.get();
    for (int i = 0; i < nt; ++i)
    {
        Own o;
        int kind = (int)r.below(8);
        auto again = std::make_shared<std::atomic<int>>(kind == 0 ? (int)r.range(1, 4) : 0);
        auto holder = std::make_shared<std::weak_ptr<delayed_task>>();
        auto recp = std::make_shared<std::shared_ptr<Rec>>();
        int ms = (int)r.below(12), work = kind == 2 ? (int)r.below(3000) : 0;
        bool throws = kind == 1 && r.chance(0.7);
        o.t = w.make(S("task%d", i), [=] {
            if (work) usleep(work);
            if (again->fetch_sub(1) > 0) { ptr<delayed_task> me = holder->lock(); if (me) sched(*svc, me, **recp, ms); }
            if (throws) throw std::runtime_error("task");
        }, &o.rec);
        *holder = o.t;
        *recp = o.rec;
        o.self = again;
        own[i % nd].push_back(o);
    }
    std::vector<std::thread> th;
    for (int d = 0; d < nd; ++d)
    {
        uint64_t s = r.e();
        th.emplace_back([&, d, s] {
            Rng q(s);
            int n = (int)q.range(10, 50);
            for (int i = 0; i < n; ++i)
            {
                Own& o = own[d][q.below(own[d].size())];
                if (!o.t) continue;
                uint64_t x = q.below(20);
                int ms = q.chance(0.2) ? 0 : q.chance(0.1) ? (int)q.range(60, 200) : (int)q.below(30);
                if (x < 9) sched(*svc, o.t, *o.rec, ms);
                else if (x < 13) canc(*svc, o.t, *o.rec);
                else if (x < 15) { canc(*svc, o.t, *o.rec); sched(*svc, o.t, *o.rec, ms); }
                else if (x == 15 && q.chance(0.3)) o.t.reset(); // nobody but the service knows it any more
                else usleep((useconds_t)q.below(15000));
            }
        });
    }
    for (auto& t : th) t.join();
    return w.finish(seed);
}
// All workers but one are occupied; several timers expire together, the first one's task blocks, and meanwhile the
// others are cancelled or scheduled again.
static Out run_backlog(uint64_t seed)
{
    Rng r(seed);
    World w;
    unsigned hc = std::max(1u, std::thread::hardware_concurrency());
    std::atomic<int> busy{0};
    std::atomic<bool> gate{false}, gate2{false}, in_a{false};
    std::vector<ptr<delayed_task>> blockers;
    std::vector<std::shared_ptr<Rec>> brec;
    for (unsigned i = 0; i + 1 < hc; ++i)
    {
        std::shared_ptr<Rec> rc;
        blockers.push_back(w.make(S("blocker%u", i), [&] { ++busy; while (!gate) usleep(500); }, &rc));
        brec.push_back(rc);
        sched(*w.svc, blockers.back(), *rc, 0);
    }
    double t0 = now();
    while (busy < (int)hc - 1 && now() - t0 < 3) usleep(500);
    bool nt = busy == (int)hc - 1;
    std::shared_ptr<Rec> ra;
    ptr<delayed_task> a = w.make("first", [&] { in_a = true; double t = now(); while (!gate2 && now() - t < 5) usleep(500); }, &ra);
    struct X { ptr<delayed_task> t; std::shared_ptr<Rec> rec; int what; int ms; };
    std::vector<X> xs;
    int n = (int)r.range(1, 5);
    for (int i = 0; i < n; ++i)
    {
        X x;
        x.t = w.make(S("queued%d", i), nullptr, &x.rec);
        x.what = (int)r.below(5);
        x.ms = (int)r.range(400, 700);
        xs.push_back(x);
    }
    // first expires first, the others right after it, all before the worker looks at the clock again
    sched(*w.svc, a, *ra, 60);
    for (auto& x : xs) sched(*w.svc, x.t, *x.rec, r.chance(0.8) ? 60 : 61);
    // the one free worker sleeps until the first expires; keep it away until all have expired: it is busy with this task
    std::shared_ptr<Rec> rh;
    ptr<delayed_task> hold = w.make("hold", [&] { usleep(60000); }, &rh);
    sched(*w.svc, hold, *rh, 30);
    t0 = now();
    while (!in_a && now() - t0 < 4) usleep(500);
    if (!in_a) nt = false;
    usleep(5000);
    for (auto& x : xs)
    {
        if (x.what == 0) canc(*w.svc, x.t, *x.rec);
        else if (x.what == 1) { canc(*w.svc, x.t, *x.rec); sched(*w.svc, x.t, *x.rec, x.ms); }
        else if (x.what == 2 || x.what == 3) sched(*w.svc, x.t, *x.rec, x.ms);
    }
    usleep((useconds_t)(GAP * 1e6) + 20000);
    gate2 = true;
    usleep(30000);
    gate = true;
    stat(nt ? "backlogs_built" : "backlogs_not_built");
    Out o = w.finish(seed);
    o.nt = nt;
    return o;
}
// many tasks fail with an exception; the others are not affected
static Out run_throwers(uint64_t seed)
{
    Rng r(seed);
    World w;
    int hc = (int)std::max(1u, std::thread::hardware_concurrency());
    std::vector<ptr<delayed_task>> ts;
    int n = (int)r.range(hc, 2 * hc + 4);
    for (int i = 0; i < n; ++i)
    {
        std::shared_ptr<Rec> rc;
        int k = (int)r.below(3);
        ts.push_back(w.make(S("failing%d", i), [k] { if (k == 0) throw std::runtime_error("task"); if (k == 1) throw 5; throw std::system_error(std::make_error_code(std::errc::io_error)); }, &rc));
        sched(*w.svc, ts.back(), *rc, (int)r.below(20));
    }
    usleep(r.below(60) * 1000);
    for (int i = 0; i < 6; ++i)
    {
        std::shared_ptr<Rec> rc;
        ts.push_back(w.make(S("normal%d", i), nullptr, &rc));
        sched(*w.svc, ts.back(), *rc, (int)r.below(80));
    }
    return w.finish(seed);
}
int main(int argc, char** argv)
{
    return drive(argc, argv, {{"random", run_random}, {"backlog", run_backlog}, {"throwers", run_throwers}});
}
