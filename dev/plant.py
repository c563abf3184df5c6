#!/usr/bin/env python3
"""dev/plant.py: confirm and store planted bugs described in dev/plants/*.py (dicts in a list PLANTS).
usage: plant.py [ID ...]"""
import glob, json, os, re, shutil, subprocess, sys, tempfile
sys.path.insert(0, "/verif/dev/plants")
BASE = "9c230a6"
DEMO_SH = '#!/bin/bash\nexec env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
HEAD = 'import os, sys\nsys.path.insert(0, os.getcwd())\nimport dynetworkx as dnx\nimport networkx as nx\n\n'

def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)

def plants():
    out = []
    for f in sorted(glob.glob("/verif/dev/plants/p*.py")):
        ns = {}
        exec(open(f).read(), ns)
        out += ns["PLANTS"]
    return out

def stable():
    j = json.load(open("/opt/vp/BASELINE.json"))
    return j

def tests(d):
    r = sh("PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 dynetworkx 2>&1 | tail -40", cwd=d)
    return r.stdout

def main():
    want = sys.argv[1:]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(6) as ex:
        list(ex.map(lambda p: main1(want, p), plants()))

def main1(want, p):
    for _ in (0,):
        if want and p["id"] not in want:
            continue
        out = f"/verif/seeded/{p['id']}"
        if not want and os.path.exists(out):
            continue
        d = tempfile.mkdtemp(prefix="plant", dir="/tmp")
        try:
            sh(f"cp -a /repo/. {d}/")
            for f, old, new in p["edits"]:
                q = f"{d}/dynetworkx/{f}"
                s = open(q).read()
                k = p.get("nth", 0)
                if s.count(old) < 1:
                    print(p["id"], "NO MATCH", f, old[:80]); break
                if s.count(old) > 1 and "nth" not in p:
                    print(p["id"], "AMBIGUOUS", s.count(old), old[:80]); break
                i = -1
                for _ in range(k + 1):
                    i = s.index(old, i + 1)
                s = s[:i] + new + s[i + len(old):]
                open(q, "w").write(s)
            else:
                diff = sh("git diff", cwd=d).stdout
                # removed lines must be original
                bad = []
                for f in {e[0] for e in p["edits"]}:
                    bl = sh(f"git blame -l HEAD -- dynetworkx/{f}", cwd=d).stdout.splitlines()
                    hd = [l.split(" ", 1)[0].lstrip("^") for l in bl]
                    base = set(sh(f"git rev-list {BASE}", cwd=d).stdout.split())
                    dd = sh(f"git diff -U0 -- dynetworkx/{f}", cwd=d).stdout
                    for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", dd, re.M):
                        a, n = int(m[1]), int(m[2] or 1)
                        if n == 0: bad.append((f, a, "addition")) 
                        for i in range(a, a + n):
                            if not any(b.startswith(hd[i - 1][:39]) for b in base):
                                bad.append((f, i))
                mine = [b for b in bad if b[-1] != "addition"]
                if mine:
                    print(p["id"], "TOUCHES FIX LINES", mine)
                t = tests(d)
                st = {x.replace(".", "/").replace("::", ".py::") for x in stable()["stable"]}
                fl = set(re.findall(r"^(?:FAILED|ERROR) (\S+)", t, re.M))
                ok = "passed" in t and not (fl & st) and not any("::" not in f for f in fl)
                os.makedirs(d + "/_demo")
                open(d + "/_demo/demo.py", "w").write(HEAD + p["demo"].lstrip("\n"))
                open(d + "/_demo/demo.sh", "w").write(DEMO_SH)
                a = sh(f"bash {d}/_demo/demo.sh", cwd="/repo")
                b = sh(f"bash {d}/_demo/demo.sh", cwd=d)
                good = ok and a.returncode == 0 and b.returncode != 0 and not mine
                print(p["id"], "OK" if good else "REJECTED", "tests" if ok else "TESTS FAIL " + str(fl), a.returncode, a.stderr[-300:] if a.returncode else "", b.returncode, (b.stderr.strip().splitlines() or [""])[-1][:150])
                if good:
                    os.makedirs(out, exist_ok=True)
                    open(out + "/patch.diff", "w").write(diff)
                    open(out + "/demo.py", "w").write(HEAD + p["demo"].lstrip("\n"))
                    open(out + "/demo.sh", "w").write(DEMO_SH)
                    json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        finally:
            shutil.rmtree(d)
main()
