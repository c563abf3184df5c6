#!/usr/bin/env python3
"""python3 check.py <property id>: decide one property from the current source of /repo."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


def main():
    import front
    from run import Run
    from rep import Ctx
    import checks
    import allchecks  # noqa
    pid = sys.argv[1]
    repo = os.environ.get("VERIF_REPO", "/repo")
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    known = []
    p = os.path.join(HERE, "known_findings.json")
    if os.path.exists(p):
        known = [x for x in json.load(open(p)) if x.get("kind") == "known"]
    fn, explanation = checks.CHECKS[pid]
    try:
        run = Run(repo)
        ctx = Ctx(pid, run, tier, seed)
        try:
            n = min(8, os.cpu_count() or 1) if pid in checks.SPREAD else 1
            n = int(os.environ.get("VERIF_PROCS", n)) if n > 1 else 1
            ctx.spread(fn, n) if n > 1 else fn(ctx)
        except front.AnchorLost:
            raise
        except Exception as ex:    # an analyser that does not understand the tree has no verdict on the rest
            import traceback
            tb = traceback.extract_tb(ex.__traceback__)[-1]
            ctx.undecided("analysis", pid, f"stopped early: {type(ex).__name__}: {ex} ({os.path.basename(tb.filename)}:{tb.lineno})")
            ctx.notes.append("the analysis stopped early; obligations after that point were not looked at")
            print(f"{pid}: analysis stopped early: {type(ex).__name__}: {ex}")
        rc = ctx.finish(explanation, known)
    except front.AnchorLost as ex:
        print(f"{pid}: analysis broken: {ex}")
        rc = 2
    sys.exit(rc)


main()
