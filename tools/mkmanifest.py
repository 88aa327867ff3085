#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
SIM_T = "runtime monitoring: real raft_server clusters run under a controlled scheduler with virtual time and fault injection; online trace monitors judge every event; part of the episodes under AddressSanitizer/UBSan"
SIM_N = ("No violation in the seeded episodes explored (see evidence for episodes, distinct schedules, monitor evaluations). The library's code runs unmodified; log store, "
         "state manager, state machine and transport are the simulator's. Assumes crash-stop servers and that plain memory races are absent (C21).")
NOTES = {}
TECH = {}
def t(i, tech, note): TECH[i] = tech; NOTES[i] = note
t("C12", "runtime monitoring: model-based random operation sequences on the real fs_log_store against an in-memory reference model, under ASan/UBSan",
  "Exploration of generated operation sequences; trusts the reference model and the local file system.")
t("C13", "runtime monitoring: the real fs_log_store in a child process that is killed (SIGKILL/_exit) after chosen operations, reopened and compared with a reference model",
  "Kill points are operation boundaries; the page cache survives (process kill, not power loss).")
t("C14", "runtime monitoring: concurrent threads on the real fs_log_store under ThreadSanitizer and ASan with delays injected at lock and file calls; recorded histories checked offline against a sequential log",
  "Exploration of schedules; trusts ThreadSanitizer and the history checker.")
t("C15", "runtime monitoring: random operation sequences on real buffers against a byte-array model under ASan/UBSan and MemorySanitizer", "Exploration of operation sequences and capacities.")
t("C16", "runtime monitoring: generated values and mutated/truncated inputs through the real codecs under ASan/UBSan with exact-size heap inputs; round-trip oracle", "Exploration of values and corruptions.")
t("C17", "runtime monitoring: the real TCP transport on loopback against scripted well-behaved and hostile peers, completion/delivery ledger as oracle, under ASan/UBSan and ThreadSanitizer", "Exploration; loopback TCP only.")
t("C18", "runtime monitoring: recorded schedule/cancel/fire event log of the real timer service with injected delays, checked offline against the timing specification, under TSan/ASan", "Exploration; wall-clock lateness bound is generous.")
t("C19", "runtime monitoring: set/register/wait on real async_result objects under a controlled scheduler and under ThreadSanitizer; exactly-once ledger", "Exploration of interleavings at lock/condition operations plus TSan stress.")
t("C20", "runtime monitoring: concurrent loggers and service stop/start cycles on the real asio_service, file contents compared with the ledger of issued lines, watchdog for stop, ASan/LSan/TSan", "Exploration of schedules.")
t("C21", "runtime monitoring: real servers on real threads with TCP transport and fs_log_store under ThreadSanitizer and ASan/UBSan with elections, snapshots, membership changes, restarts and destruction; reports and watchdogs decide", "Exploration; trusts the sanitizers; unpinned real schedules.")
built = set(sys.argv[1:]) or None
checks, na = [], []
for p in props:
    i = p["id"]
    if built and i not in built:
        na.append({"property": i, "reason": "check under construction"})
        continue
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                   "evidence_file": "evidence/%s.json" % i, "technique": TECH.get(i, SIM_T), "level": "exploration", "level_note": NOTES.get(i, SIM_N)})
m = {"version": 1, "setup_cmd": "python3 -c 'import sys; sys.exit(0)'", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the library is observed through its public interfaces, by interposing pthread primitives and by sanitizers. Repairs of genuine defects are the 'fix:' commits listed in known-findings.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
