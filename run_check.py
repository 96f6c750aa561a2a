#!/opt/veriftools/pyvenv/bin/python3
"""run_check.py PROPERTY   decides one property of /repo's current source.

exit 0: holds for every value within the stated bounds; 1: VIOLATION (replayed on the
real code); 2: the check could not decide.
"""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

import importlib
import json
import time

sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
REPO = os.environ.get("VERIF_REPO", "/repo")

from symx import core, explore, instrument, runtime  # noqa: E402

CLOSING = {
    "quick": 780, "thorough": 840,
}


def main():
    prop = sys.argv[1]
    only = sys.argv[2:] or None
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.monotonic()
    limit = float(os.environ.get("VERIF_LIMIT", CLOSING[tier]))
    runtime.install()
    core.ENGINE = core.Engine()
    instrument.install({"spine_json_lib": (REPO, True), "harness": (VERIF, False)})
    sys.setrecursionlimit(3000)
    module_name = "harness." + prop.lower()
    module = importlib.import_module(module_name)
    # what importing ran is part of the encoding too
    import_functions = set(core.ENGINE.functions)
    r = explore.explore(module_name, tier, seed, REPO, t0 + limit, only=only,
                        jobs=int(os.environ.get("VERIF_JOBS", "8")), log=lambda s: print(s, file=sys.stderr))
    wall = time.monotonic() - t0
    total = {}
    functions = set(import_functions)
    for c in r["per"]:
        for k, v in c["stats"].items():
            total[k] = total.get(k, 0) + v
        functions |= c["functions"]
    vacuous = []
    if not r["confirmed"] and not r["timed_out"]:
        for case, c in zip(r["cases"], r["per"]):
            if not c["checked_paths"]:
                vacuous.append("%s: no path reaches an assertion" % case.name)
            for label in case.must_reach:
                if not c["reached"].get(label):
                    vacuous.append("%s: never reaches '%s'" % (case.name, label))
    samples = []
    for case, c in zip(r["cases"], r["per"]):
        for s in c["samples"][:2]:
            samples.append(dict(case=case.name, inputs=s["assignment"]))
    evidence = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=total.get("paths", 0),
            transitions=total.get("branches", 0),
            traces_validated_against_impl=r["validated"],
            samples=samples[:12],
            exhaustive=not (r["timed_out"] or r["confirmed"] or r["inconclusive"]),
            explanation="states = feasible paths of the real code explored to their end "
            "(each stands for all values of its path condition); transitions = "
            "decisions on symbolic values put to the solver; forced = those with one "
            "feasible outcome.",
            solver_queries=total.get("queries", 0),
            solver_seconds=round(total.get("solver_s", 0.0), 3),
            assertions=total.get("checks", 0),
            assertions_decided_by_solver=total.get("checks_solver", 0),
            forced_decisions=total.get("forced", 0),
            infeasible_paths=total.get("infeasible", 0),
            functions_encoded=sorted(functions),
            cases=[
                dict(case=case.name, bounds=case.bounds,
                     paths=c["stats"].get("paths", 0),
                     queries=c["stats"].get("queries", 0),
                     reached=c["reached"], samples=len(c["samples"]))
                for case, c in zip(r["cases"], r["per"])
            ],
        ),
        assumptions=list(getattr(module, "ASSUMPTIONS", [])),
        wall_s=round(wall, 2),
        violations=1 if r["confirmed"] else 0,
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
        f.write("\n")

    for case, c in zip(r["cases"], r["per"]):
        print("%-28s paths=%-6d queries=%-6d checks=%-7d solver=%.1fs jobs=%d %s" % (
            case.name, c["stats"].get("paths", 0), c["stats"].get("queries", 0),
            c["stats"].get("checks", 0), c["stats"].get("solver_s", 0.0), c["jobs"],
            c["reached"]))
    print("%s %s: %d paths, %d queries, %d validated, wall %.1fs" % (
        prop, tier, total.get("paths", 0), total.get("queries", 0), r["validated"], wall))
    if r["confirmed"]:
        f = r["confirmed"]
        out = os.path.join(VERIF, "out")
        os.makedirs(out, exist_ok=True)
        path = os.path.join(out, "%s.json" % prop)
        with open(path, "w") as fh:
            json.dump(dict(property=prop, module=module_name, tier=tier, case=f["case"],
                           assignment=f["assignment"], message=f["replay"]["message"],
                           kind=f["kind"], partial=f.get("partial", False),
                           hashseed=f.get("hashseed", 0),
                           how="PYTHONHASHSEED=%d python3-vt %s/symx/replay.py %s %s" % (f.get("hashseed", 0), VERIF, REPO, path)),
                      fh, indent=1)
        print("case %s: %s" % (f["case"], f["replay"]["message"]))
        if f["replay"].get("traceback"):
            print(f["replay"]["traceback"])
        print("inputs: %s" % json.dumps(f["assignment"])[:2000])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    problems = []
    if r["timed_out"] and tier == "thorough" and not r["inconclusive"]:
        print("INCOMPLETE property=%s held on everything explored until the time limit "
              "(evidence: exhaustive=false)" % prop)
    elif r["timed_out"]:
        problems.append("time limit reached before the exploration was complete")
    problems += r["inconclusive"][:3]
    problems += ["counterexample does not reproduce: " + json.dumps(f, default=str)[:1500]
                 for f in r["unconfirmed"][:2]]
    problems += ["symbolic and real execution differ: " + json.dumps(f, default=str)[:3000]
                 for f in r["mismatches"][:2]]
    problems += vacuous
    if problems:
        for p in problems:
            print("UNDECIDED property=%s %s" % (prop, p))
        return 2
    return 0


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
