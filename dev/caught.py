#!/usr/bin/env python3
"""dev/caught.py [ID...]: runs the checks on every planted bug (scratch copies); prints which checks catch which"""
import json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
allp = "--all" in sys.argv
every = sorted(os.listdir("/verif/seeded"))
ids = [i for a in sys.argv[1:] if not a.startswith("--") for i in every if i.startswith(a)] or every
man = [c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]]
def one(i):
    m = json.load(open(f"/verif/seeded/{i}/meta.json"))
    d = tempfile.mkdtemp(prefix="c", dir="/tmp")
    shutil.copytree("/repo/dynetworkx", d + "/dynetworkx", ignore=shutil.ignore_patterns("__pycache__", "tests"))
    r = subprocess.run(["git", "apply", "--directory", "", f"/verif/seeded/{i}/patch.diff"], cwd=d, capture_output=True, text=True)
    if r.returncode:
        r = subprocess.run(f"patch -p1 < /verif/seeded/{i}/patch.diff", shell=True, cwd=d, capture_output=True, text=True)
    res = []
    for c in (man if allp else [m["property"]]):
        if c not in man: res.append(c + ":none"); continue
        r = subprocess.run([sys.executable, "check.py", c], cwd="/verif", env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + "/ev"), capture_output=True, text=True)
        u = [l for l in r.stdout.splitlines() if "obligations decided" in l]
        res.append(c + ":" + {0: "quiet", 1: "CAUGHT"}.get(r.returncode, "err%d" % r.returncode) + (" " + u[0].split(",")[1].strip() if not allp and u else ""))
    shutil.rmtree(d)
    return i, m["property"], res
with ThreadPoolExecutor(6) as ex:
    for i, p, res in ex.map(one, ids):
        print(i, p, " ".join(r for r in res if not allp or not r.endswith("quiet")), flush=True)
