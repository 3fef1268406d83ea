"""Check framework: obligations, scenarios (trace partitions), findings."""
import json
import os
import sys
import time
import traceback

sys.setrecursionlimit(12000)

import interp
import terms as T
from interp import Interp, AnchorMissing, AbsExc, Budget
from values import Data, Arr, ListV, DictV, ObjV, StrV, TopV, BoundV, ushow

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.json")


def brief(x, n=160):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n * 2 // 3] + " ... " + s[-n // 3:]


class Undecided(Exception):
    pass


class Run:
    """one check run"""

    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.obl = {}            # key -> {"status", "msg", "where"}
        self.findings = {}       # key -> dict
        self.functions = set()
        self.call_sites = set()
        self.paths = 0
        self.scenarios = []
        self.notes = []
        self.exceptions = {}
        self.steps = 0
        self.cur_cond = ()
        self.cur_exc = None
        self.paths_cut = 0
        self.deadline = None
        self.it = None
        self.start = time.time()

    @property
    def thorough(self):
        return self.tier == "thorough"

    # -- obligations
    def ob(self, key, ok, msg="", where=None, deps=None):
        """ok: True discharged / False violated / None undecided.
        On a path that assumes an equality the terms cannot be rewritten with, a
        violation counts only if it involves an input the equality does not constrain."""
        if ok is False and self.it is not None and self.it.opaque_eq:
            if not deps or not (frozenset(deps) - self.it.opaque_eq):
                ok, msg = None, "path assumes an unsolved equality: " + msg
        o = self.obl.setdefault(key, {"true": 0, "false": 0, "undecided": 0})
        if ok is True:
            o["true"] += 1
        elif ok is None:
            o["undecided"] += 1
            if msg:
                o.setdefault("why", brief(msg, 200))
        else:
            o["false"] += 1
            if key not in self.findings:
                self.findings[key] = {"key": key, "where": where, "msg": msg, "path": self.cur_cond}
        return ok

    def eq(self, key, got, want, msg="", where=None):
        """normal-form equality of two terms; violated only when separated"""
        if got is None or want is None:
            return self.ob(key, None, "no normal form: " + msg)
        if got is want or T.equal(got, want) is True:
            return self.ob(key, True)
        if T.definitely_different(got, want):
            dd = T.sym_names(got) ^ T.sym_names(want)
            return self.ob(key, False, "%s\n    found:    %s\n    required: %s" % (msg, brief(str(got), 600), brief(str(want), 600)), where, dd)
        return self.ob(key, None, "not separated: " + msg)

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    # -- scenarios
    def scenario(self, name, fn, paths=None, config=None, must_run=True, hooks=None, assume=None, key=None):
        """runs fn(it) over the trace partitions of the scenario"""
        maxp = paths if paths is not None else (24 if self.thorough else 8)
        todo = [()]
        done = completed = 0
        raised = []
        t0 = time.time()
        if self.findings and t0 - self.start > 100:
            self.note("scenarios after the first violations were skipped")
            return
        while todo and done < maxp:
            if self.deadline and time.time() > self.deadline or self.findings and time.time() - self.start > 100:
                self.paths_cut += len(todo)
                break
            script = todo.pop(0)
            it = Interp(script, hooks=hooks, assume=assume)
            it.config.update(config or {})
            self.it = it
            done += 1
            self.cur_exc = None
            try:
                fn(it)
                completed += 1
            except AnchorMissing:
                raise
            except AbsExc as e:
                self.cur_cond = cond_of(it)
                self.exceptions.setdefault(name, str(e))
                raised.append((e, self.cur_cond))
            except Budget:
                self.ob(name + "/completed", None, "analysis budget exhausted")
            except Undecided as e:
                self.ob(name + "/completed", None, str(e))
            except (RecursionError, MemoryError) as e:
                if os.environ.get("SA_DEBUG"): print("\n".join(traceback.format_exc().splitlines()[-60:]))
                self.ob(name + "/completed", None, "analysis stopped: %s" % type(e).__name__)
            except Exception as e:   # a construct the engine does not model
                tb = traceback.extract_tb(e.__traceback__)[-1]
                self.ob(name + "/completed", None, "not modelled: %s: %s (%s:%s)" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
                if os.environ.get("SA_DEBUG"):
                    traceback.print_exc()
            self.functions |= it.functions
            self.call_sites |= it.call_sites
            self.steps += it.steps
            for i in range(len(script), len(it.trace)):
                todo.append(tuple(x[1] for x in it.trace[:i]) + (not it.trace[i][1],))
            for u in it.unsupported[:5]:
                self.note("not modelled: %s at %s" % (u[0], u[1]))
        if raised:
            e, cond = raised[0]
            loc = e.loc or ("?", 0, "?")
            if must_run and not completed and len(raised) == done and not todo and e.definite is not False and loc[2] != "?" and "spec" not in str(loc[0]):
                self.cur_cond = cond
                self.ob((key or name) + "/raises:%s@%s" % (e.name, loc[2]), False,
                        "scenario '%s' ends in %s (%s) on every path" % (name, e.name, e.msg), loc)
            else:
                self.ob(name + "/completed", None if not completed else True, "raises " + str(e))
        elif completed:
            self.ob(name + "/completed", True)
        self.paths += done
        self.paths_cut += len(todo)
        self.scenarios.append({"name": name, "paths": done, "seconds": round(time.time() - t0, 2)})
        self.cur_cond = ()


def cond_of(it):
    return tuple("%s=%s @%s:%s" % (brief(str(k), 80), v, l[0], l[1]) for k, v, l, _ in it.trace if v != _)


def known():
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN) as f:
        return json.load(f)


def finish(run, level, explanation, assumptions, t0, floor):
    os.makedirs(EVID, exist_ok=True)
    kn = {(k["property"], k["key"]): k for k in known() if k.get("status", "open") == "open"}
    viol, kf = [], []
    for key, f in sorted(run.findings.items()):
        k = kn.get((run.pid, key))
        (kf if k else viol).append((f, k))
    d = sum(1 for o in run.obl.values() if o["true"] and not o["false"] and not o["undecided"])
    u = sum(1 for o in run.obl.values() if o["undecided"] and not o["false"])
    v = len(run.findings)
    cov = {
        "explanation": explanation,
        "obligations": len(run.obl),
        "discharged": d,
        "undecided": u,
        "violated_known": len(kf),
        "violated_new": len(viol),
        "trace_partitions": run.paths,
        "partitions_not_explored": run.paths_cut,
        "abstract_steps": run.steps,
        "functions_analysed": len(run.functions),
        "call_sites_analysed": len(run.call_sites),
        "functions": sorted(str(x) for x in run.functions)[:120],
        "scenarios": run.scenarios[:80],
        "samples": [{"obligation": k, "outcome": "violated" if o["false"] else "undecided" if o["undecided"] else "holds"}
                    for k, o in list(run.obl.items())[:40]],
        "undecided_list": [{"obligation": k, "why": o.get("why", "")} for k, o in run.obl.items() if o["undecided"]][:40],
        "notes": run.notes[:30],
        "scenario_exceptions": run.exceptions,
    }
    ev = {"property": run.pid, "tier": run.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": level,
          "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - t0, 2),
          "violations": len(viol)}
    with open(os.path.join(EVID, run.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %d obligations, %d discharged, %d undecided, %d violated (%d known); %d functions, %d call sites, %d trace partitions, %.1fs"
          % (run.pid, len(run.obl), d, u, v, len(kf), len(run.functions), len(run.call_sites), run.paths, time.time() - t0))
    for f, k in kf:
        print("KNOWN-FINDING: property=%s %s" % (run.pid, k["what"]))
    if viol:
        rp = os.path.join(EVID, run.pid + "-violations.txt")
        with open(rp, "w") as fh:
            for f, _ in viol:
                fh.write("rule/construct: %s\n  at: %s\n  %s\n" % (f["key"], f["where"], f["msg"]))
                if f["path"]:
                    fh.write("  on the branch: %s\n" % "; ".join(f["path"]))
        for f, _ in viol:
            print("  %s at %s: %s" % (f["key"], f["where"], brief(f["msg"].replace("\n", " "), 400)))
        print("VIOLATION property=%s replay=%s" % (run.pid, rp))
        return 1
    if len(run.obl) < floor or d == 0:
        print("ERROR: only %d obligations (%d discharged) were generated; at least %d are expected: the check decided nothing" % (len(run.obl), d, floor))
        return 2
    return 0
