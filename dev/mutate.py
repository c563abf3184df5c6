#!/usr/bin/env python3
"""dev/mutate.py [--files F,..] [--n N] [--seed S] [--out FILE] [--skip FILE]: small syntactic mutants of /repo that pass the
stable tests, and whether the checks see them.  Writes one JSON line per surviving mutant to --out (default /root/mut/mut.jsonl)."""
import argparse, ast, collections, copy, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
ap = argparse.ArgumentParser()
ap.add_argument("--files"); ap.add_argument("--n", type=int, default=100000); ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--out", default="/root/mut/mut.jsonl"); ap.add_argument("--jobs", type=int, default=8); ap.add_argument("--ops")
ap.add_argument("--again", help="re-run the undetected ones of this file")
A = ap.parse_args()
ROOT = "/repo/dynetworkx"
FILES = A.files.split(",") if A.files else ["algorithms/count_temporal_motif.py", "classes/impulsedigraph.py", "classes/impulsegraph.py", "classes/intervaldigraph.py", "classes/intervalgraph.py", "classes/intervaltree.py", "classes/snapshotdigraph.py", "classes/snapshotgraph.py"]
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq, ast.Is], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot, ast.Eq], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
PAIRS = [("u", "v"), ("begin", "end"), ("_pred", "_succ"), ("left", "right"), ("min", "max"), ("in_degree", "out_degree"), ("_adj", "_pred"), ("start", "end"), ("inclusive", "True"), ("node", "None")]
SW = collections.defaultdict(list)
for a, b in PAIRS:
    if b[0].isupper(): continue
    SW[a].append(b); SW[b].append(a)

def seg(src, node):
    ls = src.encode().splitlines(keepends=True)
    off = [0]
    for l in ls: off.append(off[-1] + len(l))
    return off[node.lineno - 1] + node.col_offset, off[node.end_lineno - 1] + node.end_col_offset

def mutants(f):
    src = open(f"{ROOT}/{f}").read()
    tree = ast.parse(src)
    b = src.encode()
    out = []
    def put(fn, node, text, why):
        i, j = seg(src, node)
        new = (b[:i] + text.encode() + b[j:]).decode()
        if new == src: return
        out.append(dict(file=f, func=fn, line=node.lineno, op=why, old=b[i:j].decode(), new=text, src=new))
    def visit(node, fn, params):
        if isinstance(node, (ast.FunctionDef,)):
            fn = (fn + "." if fn else "") + node.name
            params = [a.arg for a in node.args.args if a.arg != "self"]
        elif isinstance(node, ast.ClassDef):
            fn = node.name
        if fn:
            mut(node, fn, params)
        for c in ast.iter_child_nodes(node):
            visit(c, fn, params)
    def mut(n, fn, params):
        if isinstance(n, ast.Compare):
            for i, o in enumerate(n.ops):
                for alt in CMP.get(type(o), []):
                    m = copy.deepcopy(n); m.ops[i] = alt(); put(fn, n, "(" + ast.unparse(m) + ")", "cmp")
        elif isinstance(n, ast.BoolOp):
            m = copy.deepcopy(n); m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And(); put(fn, n, "(" + ast.unparse(m) + ")", "bool")
            for i in range(len(n.values)):
                m = copy.deepcopy(n); del m.values[i]
                put(fn, n, "(" + ast.unparse(m if len(m.values) > 1 else m.values[0]) + ")", "dropterm")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(fn, n, "(" + ast.unparse(n.operand) + ")", "not")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            m = copy.deepcopy(n); m.op = ast.Sub() if isinstance(n.op, ast.Add) else ast.Add(); put(fn, n, "(" + ast.unparse(m) + ")", "arith")
        elif isinstance(n, ast.Constant) and isinstance(n.value, (bool, int)):
            put(fn, n, repr((not n.value) if isinstance(n.value, bool) else n.value + 1), "const")
            if n.value == 1 and n.value is not True: put(fn, n, "0", "const")
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            put(fn, n.test, "True", "iftrue") if not isinstance(n, ast.While) else None
            put(fn, n.test, "False", "iffalse")
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise, ast.Continue, ast.Break, ast.Delete)):
            put(fn, n, "pass", "delstmt")
        elif isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant):
            put(fn, n, "pass", "delstmt")
        elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            put(fn, n, "return None", "retnone")
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            for alt in SW.get(n.id, []):
                if alt in params or n.id not in params: put(fn, n, alt, "name")
        if isinstance(n, ast.Attribute):
            for alt in SW.get(n.attr, []):
                m = copy.deepcopy(n); m.attr = alt; put(fn, n, ast.unparse(m), "attr")
        if isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                m = copy.deepcopy(n); m.args[0], m.args[1] = m.args[1], m.args[0]; put(fn, n, ast.unparse(m), "argswap")
            for i in range(len(n.keywords)):
                m = copy.deepcopy(n); del m.keywords[i]; put(fn, n, ast.unparse(m), "dropkw")
            if n.args and not isinstance(n.args[-1], ast.Starred):
                m = copy.deepcopy(n); del m.args[-1]; put(fn, n, ast.unparse(m), "droparg")
            if isinstance(n.func, ast.Name) and n.func.id in ("list", "set", "sorted", "dict", "tuple", "abs", "iter") and len(n.args) == 1:
                put(fn, n, ast.unparse(n.args[0]), "unwrap")
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy",) and not n.args:
                put(fn, n, ast.unparse(n.func.value), "unwrap")
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int):
            pass
    visit(tree, "", [])
    return out

STABLE = {x.replace(".", "/").replace("::", ".py::") for x in json.load(open("/opt/vp/BASELINE.json"))["stable"]}
def scratch(m):
    d = tempfile.mkdtemp(prefix="mm", dir="/tmp")
    shutil.copytree(ROOT, d + "/dynetworkx", ignore=shutil.ignore_patterns("__pycache__"))
    open(f"{d}/dynetworkx/{m['file']}", "w").write(m["src"])
    return d
def tests(d):
    try:
        r = subprocess.run("timeout 60 env PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 /opt/venv/bin/python -m pytest -q -x --deselect dynetworkx/tests/test_count_temporal_motif.py::test_count_temporal_motif -p no:cacheprovider --timeout=30 dynetworkx 2>&1 | tail -5", shell=True, cwd=d, capture_output=True, text=True, timeout=100)
    except subprocess.TimeoutExpired:
        return False
    return "passed" in r.stdout and "failed" not in r.stdout and "error" not in r.stdout.lower()
COV = collections.defaultdict(set); COST = {}
for p in os.listdir("/verif/evidence"):
    if re.fullmatch(r"C\d+\.json", p):
        j = json.load(open("/verif/evidence/" + p))
        COST[p[:-5]] = j["wall_s"]
        for x in j["coverage"]["functions_analysed"]:
            fl, nm = x.split(" ", 1)
            COV[(fl.rsplit(":", 1)[0].replace("../verif/", ""), nm.split(".")[-1])].add(p[:-5])
def checks(m, d):
    shutil.rmtree(d + "/dynetworkx/tests")
    fn = m["func"].split(".")
    cs = set()
    for x in fn: cs |= COV.get(("dynetworkx/" + m["file"], x), set())
    res = {"caught": [], "ran": [], "und": {}}
    for c in sorted(cs, key=lambda c: COST[c]):
        try:
            r = subprocess.run([sys.executable, "check.py", c], cwd=V, env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=d + "/ev", VERIF_PROCS="1"), capture_output=True, text=True, timeout=900)
        except subprocess.TimeoutExpired:
            res["und"][c] = "timeout"; continue
        res["ran"].append(c)
        if r.returncode == 1: res["caught"].append(c); break
        u = re.search(r"(\d+) undecided", r.stdout)
        if r.returncode or (u and u[1] not in ("0",) and not (c == "C07" and u[1] == "32")): res["und"][c] = f"rc{r.returncode} {u and u[1]}"
    return res
def one(m):
    try: ast.parse(m["src"])
    except SyntaxError: return None
    d = scratch(m)
    try:
        if not tests(d): return None
        r = checks(m, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    r.update({k: m[k] for k in ("file", "func", "line", "op", "old", "new")})
    r["id"] = m["id"]
    return r
V = tempfile.mkdtemp(prefix="v", dir="/root/mut")      # the checks as they are now
for x in ("sa", "check.py", "known_findings.json"):
    (shutil.copytree if os.path.isdir("/verif/" + x) else shutil.copy)("/verif/" + x, V + "/" + x)
ms = []
for f in FILES: ms += mutants(f)
if A.ops: ms = [m for m in ms if m["op"] in A.ops.split(",")]
seen = set(); u = []
for m in ms:
    m["id"] = hashlib.sha1(f"{m['file']}{m['func']}{m['line']}{m['op']}{m['old']}{m['new']}".encode()).hexdigest()[:10]
    h = hashlib.sha1((m["file"] + m["src"]).encode()).digest()
    if h not in seen: seen.add(h); u.append(m)
ms = u
if A.again:
    want = {json.loads(l)["id"] for l in open(A.again) if '"caught": []' in l}
    ms = [m for m in ms if m["id"] in want]
random.Random(A.seed).shuffle(ms)
ms = ms[:A.n]
print(len(ms), "mutants", flush=True)
n = s = c = 0
with open(A.out, "w") as fh, ThreadPoolExecutor(A.jobs) as ex:
    for r in ex.map(one, ms):
        n += 1
        if r:
            s += 1; c += bool(r["caught"])
            fh.write(json.dumps(r) + "\n"); fh.flush()
        if n % 50 == 0: print(n, "tried", s, "pass the tests", c, "caught", flush=True)
print(n, "tried", s, "pass the tests", c, "caught")
shutil.rmtree(V)
