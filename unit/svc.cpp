// Loggers and the life cycle of the service (C20).
#define UNIT_JITTER
#include "fake.hpp"
#include <arpa/inet.h>
#include <dirent.h>
#include <fstream>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
using namespace cornerstone;
using namespace unit;

// ---------------------------------------------------------------- live allocations
static std::atomic<long> g_live{0};
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); g_live.fetch_add(1, std::memory_order_relaxed); return p; }
void operator delete(void* p) noexcept { if (p) { g_live.fetch_sub(1, std::memory_order_relaxed); free(p); } }
void operator delete(void* p, size_t) noexcept { if (p) { g_live.fetch_sub(1, std::memory_order_relaxed); free(p); } }
void* operator new[](size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

static int count_dir(const char* d)
{
    int n = 0;
    DIR* p = opendir(d);
    while (p && readdir(p)) ++n;
    if (p) closedir(p);
    return n;
}
// ---------------------------------------------------------------- lines
static void emit(logger& l, int lev, const std::string& s)
{
    switch (lev) { case 0: l.debug(s); break; case 1: l.info(s); break; case 2: l.warn(s); break; default: l.err(s); }
}
struct Sent { int thread; int seq; int level; size_t len; bool before_stop; };
static std::string payload(uint64_t seed, int t, int q, size_t len)
{
    std::string s = S("<<%d:%d:", t, q);
    uint64_t x = seed * 31 + t * 131 + q + 1;
    while (s.size() < len) { x = x * 6364136223846793005ull + 1442695040888963407ull; s += (char)("abcdefghijklmnopqrstuvwxyz0123456789%s%d \t"[(x >> 33) % 42]); }
    return s + ">>";
}
static Out run_lines(uint64_t seed)
{
    Rng r(seed);
    g_jitter = r.chance(0.5) ? (int)r.below(30) : 0;
    int nl = (int)r.range(1, 3), nt = (int)r.range(1, 6);
    auto svc = std::make_shared<asio_service>();
    std::vector<ptr<logger>> ls;
    std::vector<int> level;
    std::vector<std::string> file;
    for (int i = 0; i < nl; ++i)
    {
        file.push_back(g_dir + S("/log%d-%llu.txt", i, (unsigned long long)seed));
        level.push_back((int)r.below(4));
        ls.push_back(svc->create_logger((asio_service::log_level)level[i], file[i]));
    }
    std::atomic<bool> stop_called{false}, quit{false};
    std::vector<std::vector<std::vector<Sent>>> sent(nl, std::vector<std::vector<Sent>>(nt));
    bool through_stop = r.chance(0.4), periodic = r.chance(0.08), gaps = r.chance(0.5);
    std::vector<std::thread> th;
    std::atomic<int> finished{0};
    for (int t = 0; t < nt; ++t)
    {
        uint64_t s = r.e();
        int n = (int)r.range(5, periodic ? 60 : 300);
        th.emplace_back([&, t, s, n] {
            Rng q(s);
            for (int k = 0; (k < n || (through_stop && k < 20000)) && !quit; ++k)
            {
                if (k == n) ++finished;
                int li = (int)q.below(nl), lev = (int)q.below(4);
                size_t len = q.chance(0.1) ? 0 : q.chance(0.05) ? q.range(1000, 9000) : q.below(120);
                std::string p = payload(seed, t, k, len);
                emit(*ls[li], lev, p);
                bool before = !stop_called.load();
                sent[li][t].push_back({t, k, lev, len, before});
                if (periodic) usleep((useconds_t)q.below(40000));
                else if ((gaps || k >= n) && q.chance(0.05)) usleep((useconds_t)q.below(300));
            }
            if (!through_stop) ++finished;
        });
    }
    if (!through_stop) for (auto& t : th) t.join();
    else { while (finished < nt) usleep(200); }
    stop_called = true;
    {
        Watchdog w(30, "time-stop", "stop() of the service does not return while lines are being logged");
        svc->stop();
    }
    // what was logged before stop() was called is in the files now
    std::vector<std::string> first(nl);
    for (int i = 0; i < nl; ++i) { std::ifstream f(file[i], std::ios::binary); first[i].assign(std::istreambuf_iterator<char>(f), {}); }
    quit = true;
    if (through_stop) for (auto& t : th) t.join();
    auto check = [&](int i, const std::string& text, bool final) {
        std::map<std::pair<int, int>, int> seen;
        std::vector<int> last(nt, -1);
        size_t p = 0;
        while (p < text.size())
        {
            size_t e = text.find('\n', p);
            if (e == std::string::npos)
            {
                if (through_stop && !final) break; // being written
                violate("log-incomplete", S("logger %d: the file does not end with a complete line", i));
                return;
            }
            std::string line = text.substr(p, e - p);
            p = e + 1;
            size_t a = line.find("<<");
            int t = -1, q = -1;
            if (a == std::string::npos || sscanf(line.c_str() + a, "<<%d:%d:", &t, &q) != 2 || t < 0 || t >= nt) { violate("log-mixed", S("logger %d: a line that nobody logged: %.200s", i, line.c_str())); return; }
            const Sent* m = nullptr;
            for (auto& x : sent[i][t]) if (x.seq == q) m = &x;
            if (!m) { violate("log-wrong-file", S("logger %d: has the line %d of thread %d, which was not logged there", i, q, t)); return; }
            if (line.substr(a) != payload(seed, t, q, m->len)) { violate("log-mixed", S("logger %d: line %d of thread %d is damaged: %.200s", i, q, t, line.c_str())); return; }
            if (m->level < level[i]) { violate("log-level", S("logger %d of level %d: has a line of level %d", i, level[i], m->level)); return; }
            if (seen[{t, q}]++) { violate("log-duplicate", S("logger %d: line %d of thread %d appears twice", i, q, t)); return; }
            if (q < last[t]) { violate("log-order", S("logger %d: line %d of thread %d comes after its line %d", i, q, t, last[t])); return; }
            last[t] = q;
            stat("lines_checked");
        }
        for (int t = 0; t < nt; ++t)
            for (auto& x : sent[i][t])
                if (x.before_stop && x.level >= level[i] && !seen.count({t, x.seq})) { violate("log-lost", S("logger %d: line %d of thread %d, logged before stop() was called, is missing%s", i, x.seq, t, final ? " for good" : " when stop() has returned")); return; }
    };
    for (int i = 0; i < nl; ++i) check(i, first[i], false);
    ls.clear();
    svc.reset();
    uint64_t h = seed;
    // the loggers are gone when the service's workers have ended
    for (int i = 0; i < nl && !g_viols; ++i)
    {
        size_t want = 0, have = 0;
        for (int t = 0; t < nt; ++t) for (auto& x : sent[i][t]) if (x.level >= level[i]) ++want;
        std::string text;
        double t0 = now();
        do
        {
            std::ifstream f(file[i], std::ios::binary);
            text.assign(std::istreambuf_iterator<char>(f), {});
            have = std::count(text.begin(), text.end(), '\n');
            if (have >= want) break;
            usleep(2000);
        } while (now() - t0 < 2);
        check(i, text, true);
        h = fnvv(have, h);
        stat("lines_logged", want);
    }
    for (auto& f : file) unlink(f.c_str());
    return {h};
}
// ---------------------------------------------------------------- stop
struct CountTask : delayed_task
{
    std::atomic<long>& alive;
    std::function<void()> f;
    CountTask(std::atomic<long>& a, std::function<void()> fn) : alive(a), f(fn) { ++alive; }
    ~CountTask() { --alive; }
    void exec() override { if (f) f(); }
};
static int listen_on(int& port)
{
    int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (bind(fd, (sockaddr*)&a, sizeof a) || listen(fd, 64)) { close(fd); return -1; }
    socklen_t n = sizeof a;
    getsockname(fd, (sockaddr*)&a, &n);
    port = ntohs(a.sin_port);
    return fd;
}
static std::atomic<long> tasks_alive{0}, handlers_alive{0}, done_alive{0};
struct Token { Token() { ++done_alive; } ~Token() { --done_alive; } };
static void cycle(Rng& r, uint64_t seed, int c)
{
    auto svc = std::make_shared<asio_service>();
    std::vector<ptr<delayed_task>> tasks;
    std::vector<ptr<rpc_client>> clients;
    std::vector<ptr<rpc_listener>> listeners;
    std::vector<int> fds;
    std::atomic<int> progress{0};
    ptr<logger> l = svc->create_logger(asio_service::log_level::error, g_dir + "/svc.txt");
    int shape = (int)r.below(6); // 0: nothing at all
    if (shape)
    {
        int nt = (int)r.below(12);
        for (int i = 0; i < nt; ++i)
        {
            int kind = (int)r.below(4);
            tasks.push_back(cs_new<CountTask>(tasks_alive, [kind, &progress] { ++progress; if (kind == 1) usleep(3000); }));
            svc->schedule(tasks.back(), kind == 0 ? 3600 * 1000 : (int)r.below(40));
            if (r.chance(0.2)) svc->cancel(tasks.back());
        }
    }
    if (shape >= 2)
    {
        // a listener with connected peers that say nothing, half a message, or a whole one
        int port = 0;
        int tmp = listen_on(port);
        close(tmp);
        auto h = std::make_shared<FakeHandler>(&handlers_alive);
        h->fn = [](req_msg& q) { return cs_new<resp_msg>(q.get_term(), msg_type::append_entries_response, q.get_dst(), q.get_src(), q.get_last_log_idx() + 1, true); };
        try
        {
            ptr<rpc_listener> li = svc->create_rpc_listener((ushort)port, l);
            ptr<raft_server> hp = as_handler(h);
            li->listen(hp);
            listeners.push_back(li);
            int np = (int)r.below(4);
            for (int i = 0; i < np; ++i)
            {
                int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
                sockaddr_in a{};
                a.sin_family = AF_INET;
                a.sin_port = htons((uint16_t)port);
                a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
                if (connect(fd, (sockaddr*)&a, sizeof a) == 0)
                {
                    char z[45] = {3};
                    if (write(fd, z, r.below(46)) < 0) {}
                }
                fds.push_back(fd);
            }
        }
        catch (const std::exception&) {} // the port was taken
    }
    if (shape >= 3)
    {
        // clients with requests that are answered, refused or never answered
        int port = 0;
        int silent = listen_on(port);
        if (silent >= 0) fds.push_back(silent);
        int ncl = (int)r.range(1, 4);
        for (int i = 0; i < ncl; ++i)
        {
            ptr<rpc_client> cl = svc->create_client(r.chance(0.7) ? S("tcp://127.0.0.1:%d", port) : "tcp://127.0.0.1:1");
            int nq = (int)r.range(1, 5);
            for (int k = 0; k < nq; ++k)
            {
                ptr<req_msg> q = cs_new<req_msg>(1, msg_type::append_entries_request, 1, 2, 0, 0, 0);
                auto tok = std::make_shared<Token>();
                rpc_handler done = [tok, &progress](ptr<resp_msg>&, const ptr<rpc_exception>&) { ++progress; };
                cl->send(q, done);
            }
            if (r.chance(0.7)) clients.push_back(cl);
        }
    }
    if (r.chance(0.7)) usleep((useconds_t)r.below(r.chance(0.3) ? 60000 : 4000));
    if (r.chance(0.4)) for (auto& x : listeners) x->stop();
    {
        Watchdog w(30, "time-stop", S("stop() of the service does not return (cycle %d, shape %d)", c, shape));
        std::vector<std::thread> th;
        int extra = r.chance(0.2) ? (int)r.range(1, 3) : 0;
        for (int i = 0; i < extra; ++i) th.emplace_back([&] { svc->stop(); });
        svc->stop();
        for (auto& t : th) t.join();
        if (r.chance(0.2)) svc->stop();
    }
    for (auto& x : listeners) x->stop();
    // peers are still connected; everything that was created is dropped, the service last
    if (r.chance(0.5)) { tasks.clear(); clients.clear(); listeners.clear(); }
    else { listeners.clear(); clients.clear(); tasks.clear(); }
    l.reset();
    svc.reset();
    double t0 = now();
    // only now may the peers' ends be closed: the service must not depend on it
    auto settled = [&] { return tasks_alive == 0 && handlers_alive == 0 && done_alive == 0; };
    while (!settled() && now() - t0 < 10) usleep(1000);
    if (!settled())
        violate("time-leak", S("10 s after the service was stopped and everything destroyed: %ld tasks, %ld message handlers, %ld completions are still there (cycle %d, shape %d)", tasks_alive.load(), handlers_alive.load(), done_alive.load(), c, shape));
    for (int fd : fds) close(fd);
    stat("stop_cycles");
}
static Out run_stop(uint64_t seed)
{
    g_jitter = seed % 3 ? 0 : 10;
    Rng r0(seed);
    std::thread([] {}).join(); // a sanitizer's own thread
    int threads = count_dir("/proc/self/task"), files = count_dir("/proc/self/fd");
    std::vector<long> live;
    uint64_t h = seed;
    for (int c = 0; c < 5 && !g_viols; ++c)
    {
        Rng r(seed); // the same again
        cycle(r, seed, c);
        double t0 = now();
        int t = 0, f = 0;
        do { t = count_dir("/proc/self/task"); f = count_dir("/proc/self/fd"); if (t <= threads && f <= files) break; usleep(1000); } while (now() - t0 < 10);
        if (t > threads) violate("time-leak-threads", S("10 s after the service was stopped and destroyed %d of its threads are still there", t - threads));
        else if (f > files) violate("time-leak-files", S("10 s after the service was stopped and destroyed %d of its file descriptors are still open", f - files));
        usleep(2000);
        live.push_back(g_live.load());
    }
    if (!g_viols && live.size() == 5)
    {
        bool grows = true;
        for (int i = 1; i < 5; ++i) if (live[i] <= live[i - 1]) grows = false;
        if (grows) violate("leak-memory", S("each stopped and destroyed service leaves memory behind: %ld, %ld, %ld, %ld, %ld live allocations", live[0], live[1], live[2], live[3], live[4]));
    }
    return {h};
}
int main(int argc, char** argv)
{
    return drive(argc, argv, {{"lines", run_lines}, {"stop", run_stop}});
}
