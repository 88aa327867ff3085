"""Shared machinery of the checks: building from /repo's working tree, running workers, evidence, verdicts."""
import concurrent.futures, glob, hashlib, json, os, queue, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
NCPU = max(1, min(16, len(os.sched_getaffinity(0))))
BASE = ["-std=c++17", "-g1", "-w", "-fno-omit-frame-pointer", "-DASIO_STANDALONE", "-DASIO_HAS_STD_CHRONO", "-I" + REPO + "/include"]
CONFIGS = {
    # name: (compiler, compile flags, link flags)
    "asan": ("g++", ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined"], ["-fsanitize=address,undefined"]),
    "tsan": ("g++", ["-O1", "-fsanitize=thread"], ["-fsanitize=thread"]),
    "plain": ("g++", ["-O2"], []),
    "casan": ("clang++", ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=vptr,function", "-fno-sanitize-recover=undefined"], ["-fsanitize=address,undefined"]),
    "msan": ("clang++", ["-O1", "-fsanitize=memory"], ["-fsanitize=memory"]),
}


class CheckError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def headers_digest():
    h = hashlib.sha1()
    for d in (REPO + "/include",):
        for root, _, files in sorted(os.walk(d)):
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()


def _compile(cc, src, flags, extra_digest):
    h = hashlib.sha1()
    h.update(repr((cc, src, flags)).encode())
    h.update(open(src, "rb").read())
    h.update(extra_digest.encode())
    obj = os.path.join(BUILD, "obj", h.hexdigest() + ".o")
    if os.path.exists(obj):
        return obj
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run([cc] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise CheckError("compilation of %s failed:\n%s" % (src, r.stdout[-4000:]))
    os.replace(tmp, obj)
    return obj


def build(name, config, mine, repo_srcs="all", my_flags=(), link=(), my_san=True):
    """links the harness sources `mine` (paths under /verif; (path, sanitized?) or path) with the library's sources"""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    cc, cfl, lfl = CONFIGS[config]
    srcs = sorted(glob.glob(REPO + "/src/*.cxx")) if repo_srcs == "all" else [REPO + "/src/" + s for s in repo_srcs]
    if not srcs:
        raise CheckError("no sources in " + REPO + "/src")
    hd = headers_digest()
    mh = hashlib.sha1()
    for m in mine:
        p = m[0] if isinstance(m, tuple) else m
        for f in sorted(glob.glob(os.path.join(VERIF, os.path.dirname(p), "*.hpp"))):
            mh.update(open(f, "rb").read())
    jobs = []
    for s in srcs:
        jobs.append((cc, s, BASE + cfl, hd))
    for m in mine:
        p, fl = (m[0], list(m[1])) if isinstance(m, tuple) else (m, list(cfl))
        jobs.append((cc, os.path.join(VERIF, p), BASE + fl + list(my_flags), hd + mh.hexdigest()))
    jobs.sort(key=lambda j: -os.path.getsize(j[1]))
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(lambda j: _compile(*j), jobs))
    h = hashlib.sha1(repr((objs, lfl, list(link))).encode()).hexdigest()
    exe = os.path.join(BUILD, name + "-" + config + "-" + h[:12])
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run([cc] + lfl + ["-o", tmp] + objs + list(link) + ["-lpthread", "-ldl"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise CheckError("linking %s failed:\n%s" % (name, r.stdout[-4000:]))
        os.replace(tmp, exe)
    return exe


SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
    "TSAN_OPTIONS": "exitcode=66:halt_on_error=1:second_deadlock_stack=1",
}


def env_for(extra=None):
    e = dict(os.environ)
    e.update(SAN_ENV)
    if extra:
        e.update(extra)
    return e


class Result:
    def __init__(self):
        self.viol = []      # dicts: key, msg, replay (text)
        self.evaluations = 0
        self.nontrivial = set()
        self.stats = {}
        self.samples = []
        self.inconclusive = []

    def add_stats(self, d):
        for k, v in d.items():
            self.stats[k] = self.stats.get(k, 0) + v


def tier():
    return "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1


def known_findings(prop):
    """entries 'known: property=<id> key=<key> ...' of known-findings.txt"""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3).strip()))
    return out


def finish(prop, level, rule, res, t0, assumptions=()):
    known = known_findings(prop)
    real = []
    for v in res.viol:
        k = [x for x in known if x[0] == v["key"]]
        if k:
            v["known"] = True
        else:
            real.append(v)
    for key, text in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    ev = {
        "property": prop, "tier": tier(), "seed": seed(), "level": level,
        "coverage": {
            "evaluations": int(res.evaluations),
            "distinct_nontrivial": len(res.nontrivial) if isinstance(res.nontrivial, set) else int(res.nontrivial),
            "rule": rule,
            "samples": res.samples[:6] or ["none"],
            "observed": {k: res.stats[k] for k in sorted(res.stats)},
            "inconclusive": res.inconclusive[:5],
        },
        "assumptions": list(assumptions),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(real),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if real:
        v = real[0]
        rd = os.path.join(BUILD, "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-%s.txt" % (prop, re.sub(r"[^A-Za-z0-9_.-]", "_", v["key"])[:40]))
        with open(path, "w") as f:
            f.write("property %s\n%s: %s\n\n" % (prop, v["key"], v["msg"]))
            for w in real[1:20]:
                f.write("also: %s: %s\n" % (w["key"], w["msg"]))
            f.write("\n" + v.get("replay", "")[-400000:] + "\n")
        print("%s: %s" % (v["key"], v["msg"][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("%s held: %d executions, %d distinct non-trivial, %.0f s" % (prop, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"]))
    return 0


def run_pool(cmds, timeout, env=None, stop=None, pin=False):
    """runs the command lines, NCPU at a time (each on one CPU if pin); yields (index, rc or None on timeout, stdout, stderr)"""
    cpus = queue.Queue()
    for x in sorted(os.sched_getaffinity(0)):
        cpus.put(x)

    def one(i):
        if stop and stop():
            return i, "skipped", "", ""
        if pin:
            cpu = cpus.get()
            try:
                return one2(i, lambda: os.sched_setaffinity(0, {cpu}))
            finally:
                cpus.put(cpu)
        return one2(i, None)

    def one2(i, pre):
        try:
            r = subprocess.run(cmds[i], preexec_fn=pre, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env_for(env), timeout=timeout, stdin=subprocess.DEVNULL)
            return i, r.returncode, r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace")
        except subprocess.TimeoutExpired as e:
            return i, None, (e.stdout or b"").decode(errors="replace"), (e.stderr or b"").decode(errors="replace")
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        for f in concurrent.futures.as_completed([ex.submit(one, i) for i in range(len(cmds))]):
            yield f.result()


def parse_kv(line):
    return dict(x.split("=", 1) for x in line.split() if "=" in x)
