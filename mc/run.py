"""Entry point: run.py <property id> [--tier quick|thorough] [--replay FILE] [--procs N]

exit 0  the property held on everything explored
exit 1  and a line VIOLATION property=<id> replay=<path>
exit 2  the check itself failed
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")

if os.environ.get("PYTHONHASHSEED") != "0" or not sys.dont_write_bytecode:
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
    os.execve(sys.executable, [sys.executable, "-B"] + sys.argv, env)

import argparse
import gc
import importlib
import json
import time
import traceback

sys.path.insert(0, HERE)
sys.path.insert(0, REPO)


def load_known():
    """Committed list of genuine defects left in the tree: {property: [(key, text)]}."""
    res = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                # finding: property=C07 key=<key> <what fails>
                parts = line.split(None, 3)
                res.setdefault(parts[1].split("=", 1)[1], []).append((parts[2].split("=", 1)[1], parts[3]))
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--verbose", action="store_true")
    args = ap.parse_args()
    pid = args.property.upper()
    t0 = time.time()
    import core
    import catalog
    entry = catalog.BY_ID[pid]
    if entry.get("threads"):
        import sched
        sched.install()
    result = core.Result()
    result.verbose = args.verbose
    result.known_keys = {k: text for k, text in load_known().get(pid, [])}
    if args.replay:
        with open(args.replay) as f:
            core.REPLAY = eval(json.load(f)["violation"], {"__builtins__": {}}, {"inf": float("inf"), "nan": float("nan"), "set": set, "frozenset": frozenset})
    try:
        mod = importlib.import_module("props." + pid.lower())
        gc.collect()
        gc.disable()
        gc.freeze()
        mod.check(result, args.tier)
    except core.Violation as v:
        result.violations.append({"part": "check", "message": str(v)})
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        if any(f.filename.startswith(REPO + "/") for f in tb):
            result.violations.append({"part": "check", "message": "unexpected exception " + core.describe_exc(e)})
            traceback.print_exc(limit=-8)
        else:
            traceback.print_exc(limit=-8)
            print("ERROR: the check itself failed")
            sys.stdout.flush()
            os._exit(2)
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": args.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
        "coverage": {
            "states": result.states, "transitions": result.transitions, "traces_validated_against_impl": result.traces,
            "samples": result.samples or [{"part": p["part"]} for p in result.parts],
            "exhaustive": bool(result.exhaustive and not result.violations),
            "parts": result.parts,
            "how_validated": "every transition and every schedule explored is an execution of the real code in /repo, compared step by step with the reference model in /verif/mc/props/%s.py" % pid.lower(),
        },
        "assumptions": entry.get("assumptions", []) + result.notes,
        "wall_s": round(wall, 3), "violations": len(result.violations),
    }
    if not args.replay:
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=repr)
            f.write("\n")
    for p in result.parts:
        print("  %-42s states=%d transitions=%d traces=%d outcomes=%s%s %s" % (p["part"], p["states"], p["transitions"], p["traces"], p.get("distinct_outcomes"), "" if p["complete"] else " INCOMPLETE", p.get("bounds") or ""))
    for n in result.notes:
        print("  note: " + n)
    for key in sorted(result.known_hit):
        print("KNOWN-FINDING: property=%s %s" % (pid, result.known_keys[key]))
    print("%s %s: states=%d transitions=%d traces=%d wall=%.1fs" % (pid, args.tier, result.states, result.transitions, result.traces, wall))
    if result.violations:
        v = result.violations[0]
        if args.replay:
            path = args.replay
        else:
            rdir = os.path.join(ROOT, "evidence", "replay")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, pid + ".json")
            with open(path, "w") as f:
                json.dump({"property": pid, "tier": args.tier, "message": v["message"], "violation": repr(v),
                           "rerun": "/opt/venv/bin/python /verif/mc/run.py %s --tier %s --replay %s" % (pid, args.tier, path)}, f, indent=1, default=repr)
        print("violated: " + json.dumps(v, default=repr)[:1500])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.stdout.flush()
        os._exit(1)
    sys.stdout.flush()
    os._exit(0)


main()
