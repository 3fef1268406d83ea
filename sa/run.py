#!/usr/bin/env python3
"""python3 sa/run.py <ID> [--tier quick|thorough]"""
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
import registry


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    r = core.Run(pid, tier)
    r.deadline = t0 + (1500 if tier == "thorough" else 300)
    c = registry.CHECKS[pid]
    try:
        c["fn"](r)
    except core.AnchorMissing as e:
        print("ERROR: %s: public anchor missing: %s" % (pid, e))
        return 2
    return core.finish(r, "other", c["explanation"], c.get("assumptions", []) + registry.COMMON, t0, c.get("floor", 1))


if __name__ == "__main__":
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = [3]

    def go():
        rc[0] = main()
    th = threading.Thread(target=go)
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(rc[0])
