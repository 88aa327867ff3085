#!/usr/bin/env python3
"""usage: check.py <property id>   (VERIF_SEED, VERIF_TIER from the environment)"""
import os, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import common as c


def main():
    prop = sys.argv[1]
    t0 = time.time()
    try:
        from vlib import simcheck
        if prop in simcheck.PLANS:
            res = simcheck.run(prop)
            return c.finish(prop, "exploration", simcheck.RULE, res, t0, SIM_ASSUME)
        from vlib import units
        return units.run(prop, t0)
    except c.CheckError as e:
        print("ERROR: %s" % e)
        return 2


SIM_ASSUME = [
    "the application's log_store, state_mgr and state_machine are the simulator's durable models (the repository's own log store is checked by C12-C14)",
    "scheduling decisions are taken at lock, condition-variable, timer, RPC and application-interface calls; plain memory races are left to C21",
    "servers fail by stopping (crash at or between durable operations), messages may be lost, delayed, duplicated and reordered, not corrupted",
]

if __name__ == "__main__":
    sys.exit(main())
