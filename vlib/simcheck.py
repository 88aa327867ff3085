"""Checks decided by the cluster simulator (sim/)."""
import os, re, subprocess, time
from . import common as c

RULE = ("one execution = one seeded episode of a real raft_server cluster under the controlled scheduler with virtual time and injected "
        "faults; non-trivial = the property's monitors were evaluated at least once in it; distinct = different schedule hash "
        "(sequence of scheduling decisions, deliveries and faults)")

#            profile: episodes of the quick tier
PLANS = {
    "C01": {"basic": 9000, "snap": 2000, "member": 2000, "lease": 600},
    "C02": {"basic": 6000, "snap": 5000, "member": 2000},
    "C03": {"basic": 7000, "snap": 3000, "member": 2000, "lease": 1000},
    "C04": {"basic": 7000, "snap": 3000, "member": 2000, "lease": 600},
    "C05": {"basic": 8000, "snap": 2400, "member": 1500},
    "C06": {"basic": 8000, "snap": 3000, "lease": 1000, "member": 1000},
    "C07": {"basic": 4000, "snap": 4000, "member": 1800, "lease": 800, "calm": 800, "destroy": 1000},
    "C08": {"snap": 10000, "member": 2000},
    "C09": {"member": 7000, "snap": 600},
    "C10": {"basic": 8000, "snap": 3600, "lease": 1000, "member": 500},
    "C11": {"lease": 3000, "basic": 4000, "calm": 1000},
}


def build_sim(config):
    san = ["-fsanitize=address"] if config == "asan" else []
    return c.build("sim", config, [("sim/sim.cpp", ["-O1"] + san), ("sim/simrt.cpp", ["-O1"])], link=["-rdynamic"])


def run(prop, plan=None, res=None, scale=None, budget=None):
    t0 = time.time()
    exes = {"plain": build_sim("plain"), "asan": build_sim("asan")}
    c.log("built in %.0f s" % (time.time() - t0))
    res = res or c.Result()
    plan = plan or PLANS[prop]
    th = c.tier() == "thorough"
    scale = scale or (40 if th else 1)
    budget = budget or (5400 if th else 560)
    deadline = time.time() + budget
    chunk = 25
    cmds = []
    for prof, n in sorted(plan.items()):
        n *= scale
        base = c.seed() * 100000000 + 1
        for a in range(0, n, chunk):
            cmds.append((prof, base + a, base + min(n, a + chunk) - 1, "plain"))
        for a in range(0, n // 16, chunk):
            cmds.append((prof, base + 50000000 + a, base + 50000000 + min(n // 16, a + chunk) - 1, "asan"))
    # interleave the profiles so that a cut by the time budget hits all of them alike
    cmds.sort(key=lambda x: (x[1] % 50000000 * (16 if x[3] == "asan" else 1), x[0]))
    args = [[exes[e], "--prop", prop, "--profile", p, "--from", str(a), "--to", str(b), "--timeout", "60"] for p, a, b, e in cmds]
    found = []
    deaths = []
    skipped = 0

    def stop():
        return time.time() > deadline or len(found) >= 3 or len(deaths) >= 4

    for i, rc, out, err in c.run_pool(args, 60 * chunk + 60, stop=stop, pin=True):
        if rc == "skipped":
            skipped += 1
            continue
        prof, conf = cmds[i][0], cmds[i][3]
        for line in out.splitlines():
            if line.startswith("STAT "):
                kv = c.parse_kv(line)
                res.evaluations += 1
                if int(kv.get("e." + prop, "0")) > 0:
                    res.nontrivial.add(kv.get("sched"))
                d = {}
                for k, v in kv.items():
                    if k.startswith("s.") or k in ("events", "steps", "switches", "states"):
                        d[k[2:] if k.startswith("s.") else k] = int(v)
                d["monitor_evaluations"] = int(kv.get("e." + prop, "0"))
                d["episodes_" + prof] = 1
                d["episodes_under_" + conf] = 1
                res.add_stats(d)
                if len(res.samples) < 6 and (not res.samples or res.evaluations % 97 == 0):
                    res.samples.append("%s seed %s: %s virtual ms, %s events, %s scheduling points, %s switches, schedule %s, %s evaluations of %s" % (
                        prof, kv.get("seed"), kv.get("vt_ms"), kv.get("events"), kv.get("steps"), kv.get("switches"), kv.get("sched"), kv.get("e." + prop, "0"), prop))
            elif line.startswith("VIOL "):
                m = re.match(r"VIOL seed=(\d+) profile=(\S+) tags=(.*?) key=(\S+) msg=(.*)", line)
                if m:
                    found.append((m.group(2), m.group(1), m.group(4), m.group(5), conf))
            elif line.startswith("DEATH "):
                kv = c.parse_kv(line)
                deaths.append((kv["profile"], kv["seed"], kv.get("signal"), kv.get("exit"), conf))
    if skipped:
        res.add_stats({"chunks_skipped_by_time_budget": skipped})

    def rerun(conf, prof, seed, trace):
        try:
            r = subprocess.run([exes[conf], "--prop", prop, "--profile", prof, "--seed", seed, "--nofork"] + (["--trace"] if trace else []),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=c.env_for(), timeout=180, stdin=subprocess.DEVNULL)
            return r.returncode, r.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired as e:
            return None, (e.stdout or b"").decode(errors="replace")

    for prof, seed, key, msg, conf in sorted(found, key=lambda f: (f[2], f[1])):
        rep = "replay: %s --prop %s --profile %s --seed %s --nofork --trace\n" % (exes[conf], prop, prof, seed)
        if not any(v["key"] == key for v in res.viol):
            rep += rerun(conf, prof, seed, True)[1][-200000:]
        res.viol.append({"key": key, "msg": "%s seed %s: %s" % (prof, seed, msg), "replay": rep})
    for prof, seed, sig, ex, conf in deaths:
        rc, out = rerun(conf, prof, seed, False)
        if sig == "14":
            # an episode that does not finish in real time: only if it does so again, alone, with three times the time
            if rc is not None:
                res.inconclusive.append("%s seed %s timed out once" % (prof, seed))
                continue
            res.viol.append({"key": "hang", "msg": "%s seed %s does not finish" % (prof, seed), "replay": out[-20000:]})
        elif rc not in (0, 3):
            m = re.search(r"(ERROR: AddressSanitizer: \S+|runtime error: .*|terminate called.*\n.*)", out)
            res.viol.append({"key": "crash", "msg": "%s seed %s: the process dies (%s)" % (prof, seed, m.group(1).replace("\n", " ") if m else "signal %s exit %s" % (sig, ex)), "replay": out[-100000:]})
        else:
            res.inconclusive.append("%s seed %s died once (signal %s exit %s) and not again" % (prof, seed, sig, ex))
    return res
