"""Checks decided by the component harnesses (file log store, buffers and codecs, transport, timers, results, logger, real-thread clusters)."""
import os, re, shutil, subprocess, tempfile, time
from . import common as c

WRAP = ["-Wl,--wrap=truncate64", "-Wl,--wrap=remove", "-Wl,--wrap=pthread_mutex_unlock", "-Wl,--wrap=pthread_rwlock_unlock"]


class Job:
    """a harness executable run over a range of seeds, in chunks"""
    def __init__(self, exe, mode, n, chunk, timeout, base=0, args=(), env=None, label=None, par=None):
        self.exe, self.mode, self.n, self.chunk, self.timeout, self.base = exe, mode, n, chunk, timeout, base
        self.args, self.env, self.label, self.par = list(args), env, label or mode, par


SAN_RE = re.compile(r"(ERROR: \w+Sanitizer: .*|WARNING: ThreadSanitizer: .*|runtime error: .*|terminate called.*(?:\n.*what.*)?|Assertion .* failed.*)")


def san_site(text):
    """function and file of the first frame inside the repository, for a stable key"""
    m = re.search(r"#\d+ (?:0x[0-9a-f]+ in )?(.*?) %s/(?:src|include)/([\w.]+):(\d+)" % re.escape(c.REPO), text)
    if m:
        return re.sub(r"\(.*", "", m.group(1))[-50:] + "@" + m.group(2)
    return ""


def run_jobs(prop, jobs, budget):
    res = c.Result()
    deadline = time.time() + budget
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    bad = []
    try:
        work = []
        for j in jobs:
            for a in range(0, j.n, j.chunk):
                f, t = j.base + a, j.base + min(j.n, a + j.chunk) - 1
                work.append((a / max(1, j.n), j, f, t))
        work.sort(key=lambda w: w[0])
        cmds = []
        for i, (_, j, f, t) in enumerate(work):
            d = os.path.join(scratch, str(i))
            os.makedirs(d)
            cmds.append([j.exe, j.mode, "--dir", d, "--from", str(f), "--to", str(t)] + j.args)

        def stop():
            return time.time() > deadline or len(bad) >= 3
        skipped = 0
        tmo = max(j.timeout for j in jobs)
        for i, rc, out, err in c.run_pool(cmds, tmo, stop=stop):
            j = work[i][1]
            if rc == "skipped":
                skipped += 1
                continue
            for line in out.splitlines():
                if line.startswith("DONE "):
                    kv = c.parse_kv(line)
                    res.evaluations += 1
                    if kv.get("nt", "1") != "0":
                        res.nontrivial.add(j.label + kv.get("hash", ""))
                    res.add_stats({"runs_" + j.label: 1})
                    if len(res.samples) < 6 and (len(res.samples) < 2 or res.evaluations % 53 == 0):
                        res.samples.append("%s %s" % (j.label, line[5:]))
                elif line.startswith("STAT"):
                    res.add_stats({k: int(v) for k, v in c.parse_kv(line).items()})
            viols = re.findall(r"VIOL seed=(\d+) mode=\S+ key=(\S+) msg=(.*)", out)
            if viols:
                s, k, m = viols[0]
                bad.append((k, "%s seed %s: %s" % (j.label, s, m), j, s, out[-3000:] + err[-3000:]))
            elif rc is None:
                s = re.findall(r"BEGIN seed=(\d+)", out)
                bad.append(("hang", "%s seed %s does not finish" % (j.label, s[-1] if s else "?"), j, s[-1] if s else None, (out + err)[-6000:]))
            elif rc != 0:
                s = re.findall(r"BEGIN seed=(\d+)", out)
                m = SAN_RE.search(err) or SAN_RE.search(out)
                bad.append(("crash" if not m or "ThreadSanitizer: data race" not in m.group(1) else "race",
                            "%s seed %s: %s %s" % (j.label, s[-1] if s else "?", m.group(1).strip() if m else "exit status %s" % rc, san_site(err)), j, s[-1] if s else None, err[-30000:]))
        if skipped:
            res.add_stats({"chunks_skipped_by_time_budget": skipped})
        hangs = 0
        timed = {}
        for key, msg, j, s, text in bad:
            if key.startswith("time-"):
                timed.setdefault(key, []).append((msg, j, s, text))
        for key, l in timed.items():
            # a bound on waiting time was exceeded: believed if it happens again with nothing else running, or all over the place
            again = None
            for n in range(3):
                msg, j, s, text = l[n % len(l)]
                d = os.path.join(scratch, "timed%d%s" % (n, key))
                os.makedirs(d, exist_ok=True)
                try:
                    r = subprocess.run([j.exe, j.mode, "--dir", d, "--seed", s] + j.args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=c.env_for(j.env), timeout=j.timeout, stdin=subprocess.DEVNULL)
                    if r.returncode != 0:
                        again = r.stdout.decode(errors="replace")[-6000:]
                except subprocess.TimeoutExpired as e:
                    again = (e.stdout or b"").decode(errors="replace")[-6000:] + "timeout"
                if again:
                    break
            if again or len(l) >= 3:
                msg, j, s, text = l[0]
                res.viol.append({"key": key, "msg": msg, "replay": "%s %s --dir <scratch> --seed %s --trace %s\n\n%s\n\nalone:\n%s" % (j.exe, j.mode, s, " ".join(j.args), text, again)})
            else:
                res.inconclusive.append(l[0][0] + " (once)")
        for key, msg, j, s, text in bad:
            if key.startswith("time-"):
                continue
            if key == "hang":
                # only if it does so again, alone
                hangs += 1
                if s is None or hangs > 2:
                    continue
                d = os.path.join(scratch, "again%d" % hangs)
                os.makedirs(d)
                try:
                    r = subprocess.run([j.exe, j.mode, "--dir", d, "--seed", s] + j.args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=c.env_for(j.env), timeout=j.timeout, stdin=subprocess.DEVNULL)
                    if r.returncode == 0:
                        res.inconclusive.append(msg + " (once)")
                        continue
                    text = r.stdout.decode(errors="replace")[-20000:]
                except subprocess.TimeoutExpired as e:
                    text = (e.stdout or b"").decode(errors="replace")[-20000:]
            res.viol.append({"key": key, "msg": msg, "replay": "%s %s --dir <scratch> --seed %s --trace %s\n\n%s" % (j.exe, j.mode, s, " ".join(j.args), text)})
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return res


def T(q, t):
    return t if c.tier() == "thorough" else q


def seedbase():
    return c.seed() * 10000000 + 1


def fslog(config):
    return c.build("fslog", config, ["fslog/fslog.cpp"], link=WRAP)


def c12():
    a = fslog("asan")
    b = seedbase()
    return [Job(a, "model", T(6000, 300000), 50, 300, b, label="sequential"), Job(a, "fault", T(600, 20000), 50, 300, b, label="failing-compact")], \
        "one execution = one random sequence of log-store operations (with reopenings, random in-memory buffer size, requests outside the range) on the real store, every answer and the whole contents compared with an array model, under AddressSanitizer and UBSan; distinct = different sequence of contents"


def c13():
    a = fslog("plain")
    z = fslog("asan")
    b = seedbase()
    return [Job(a, "kill", T(4000, 200000), 25, 300, b, label="kill"), Job(z, "kill", T(160, 4000), 10, 300, b + 5000000, label="kill-asan")], \
        "one execution = several rounds of: a process opens the directory, its contents are compared with the array model, operations run, SIGKILL right after the last one returned; distinct = different history of contents"


def c14():
    t = fslog("tsan")
    p = fslog("plain")
    z = fslog("asan")
    b = seedbase()
    return [Job(t, "conc", T(260, 12000), 4, 300, b, label="tsan"), Job(z, "conc", T(200, 8000), 5, 300, b + 3000000, label="asan"), Job(p, "conc", T(1200, 60000), 20, 300, b + 6000000, label="plain")], \
        "one execution = concurrent appenders, overwriter, compactor and readers on one store with random delays injected after every lock release; call/return intervals of all operations are judged offline (interval order, loss, duplication, torn entries), data races by ThreadSanitizer; distinct = different sequence of values read"


def unit(name, config):
    return c.build(name, config, ["unit/%s.cpp" % name])


def c15():
    a = unit("codec", "asan")
    return [Job(a, "buffer", T(60000, 3000000), 500, 300, seedbase(), label="buffers")], \
        "one execution = 20-150 random accesses (including ones that do not fit) to up to 4 real buffers, every result, position and content compared with a byte array, under AddressSanitizer and UBSan; distinct = different sequence of operations and positions"


def c16():
    a = unit("codec", "asan")
    b = seedbase()
    return [Job(a, "roundtrip", T(40000, 1500000), 500, 300, b, label="roundtrip"), Job(a, "garbage", T(14000, 600000), 200, 300, b, label="garbage"), Job(a, "pack", T(20000, 600000), 250, 300, b, label="pack")], \
        "one execution = one random value encoded, decoded at random places inside larger exact-size buffers and encoded again (fresh memory is filled with changing bytes), or 8 damaged encodings decoded, or one log pack (and damaged versions of it) applied to another store, under AddressSanitizer and UBSan; distinct = different encoded bytes"


def c19():
    k = c.build("asyncctl", "plain", [("unit/async.cpp", ["-O1", "-DCTL"]), ("sim/simrt.cpp", ["-O1"])])
    z = c.build("asyncctl", "asan", [("unit/async.cpp", ["-O1", "-DCTL", "-fsanitize=address"]), ("sim/simrt.cpp", ["-O1"])])
    t = unit("async", "tsan")
    p = unit("async", "plain")
    b = seedbase()
    return [Job(k, "ctl", T(30000, 2000000), 250, 300, b, label="controlled"), Job(z, "ctl", T(2000, 60000), 50, 300, b + 7000000, label="controlled-asan"),
            Job(t, "real", T(800, 30000), 20, 300, b, label="tsan"), Job(p, "real", T(3000, 200000), 50, 300, b + 3000000, label="threads")], \
        "one execution = one async_result with a setter, a registration and up to three waiters in a random arrangement, interleaved by the controlled runtime at every lock and condition-variable call (blocked for ever = deadlock of the whole system), or 10 of them on real threads; ledger of registrations, runs, waits and returns; distinct = different schedule and order of events"


JITTER = ["-Wl,--wrap=pthread_mutex_unlock"]


def c18():
    p, t, z = [c.build("timer", k, ["unit/timer.cpp"], link=JITTER) for k in ("plain", "tsan", "asan")]
    b = seedbase()
    return [Job(p, "random", T(1200, 60000), 10, 300, b, label="random"), Job(t, "random", T(400, 12000), 5, 300, b + 3000000, label="random-tsan"), Job(z, "random", T(300, 10000), 5, 300, b + 6000000, label="random-asan"),
            Job(p, "backlog", T(160, 6000), 4, 300, b, label="backlog"), Job(p, "throwers", T(60, 2000), 5, 300, b, label="failing-tasks")], \
        "one execution = up to 24 tasks scheduled, cancelled and re-scheduled by up to 4 threads on the real service (with self-rescheduling, slow and throwing tasks and injected delays), or an expiry queue deliberately built up behind a blocked worker; every call and run is time-stamped and judged offline by matching runs to schedules; distinct = different numbers of calls and runs per task"


HANDLER = JITTER + ["-Wl,--wrap=_ZN11cornerstone11raft_server11process_reqERNS_7req_msgE"]


def c20():
    p, t, z = [c.build("svc", k, ["unit/svc.cpp"], link=HANDLER) for k in ("plain", "tsan", "asan")]
    b = seedbase()
    return [Job(p, "lines", T(3000, 120000), 25, 300, b, label="lines"), Job(t, "lines", T(600, 20000), 10, 300, b + 3000000, label="lines-tsan"), Job(z, "lines", T(400, 20000), 10, 300, b + 6000000, label="lines-asan"),
            Job(p, "stop", T(1600, 60000), 20, 300, b, label="stop"), Job(t, "stop", T(500, 20000), 10, 300, b + 3000000, label="stop-tsan"), Job(z, "stop", T(500, 20000), 10, 300, b + 6000000, label="stop-asan")], \
        "one execution = up to 6 threads writing to up to 3 loggers (sometimes across stop), the files then compared with the ledger of issued lines; or 5 identical cycles of a service with timers, listeners, silent peers and pending calls that is stopped at a random moment and destroyed, then threads, descriptors, tasks, handlers and live allocations counted; distinct = different line counts or scenario"


CHECKS = {"C12": c12, "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C18": c18, "C20": c20, "C19": c19}
ASSUME = {
    "C12": ["the file system obeys POSIX; failing file operations are only injected into compact, which documents how it reports them"],
    "C13": ["kill means the process: the page cache survives (no power loss)", "the kill comes between operations; an operation that was interrupted half-way is outside the property"],
    "C15": ["strings do not contain NUL bytes, as the encoding is NUL-terminated"],
    "C16": ["strings do not contain NUL bytes", "a damaged pack that is well-formed may be applied; then only reading it safely is required"],
    "C20": ["objects made by the service (tasks, clients, listeners) are destroyed before the service object", "what is left behind is counted for up to 10 s"],
    "C18": ["calls for one task do not overlap each other (the interface does not promise that)", "a run that is due is given 4 s; a shorter lateness is not judged", "150 ms may pass between the decision to run a task and its first instruction"],
    "C14": ["data races are those ThreadSanitizer sees in the executed interleavings"],
}


def run(prop, t0):
    if prop not in CHECKS:
        raise c.CheckError("no check for " + prop)
    jobs, rule = CHECKS[prop]()
    c.log("built in %.0f s" % (time.time() - t0))
    res = run_jobs(prop, jobs, T(500, 5400))
    return c.finish(prop, "exploration", rule, res, t0, ASSUME.get(prop, []))
