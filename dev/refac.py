"""dev: refac.py [TRANSFORM...] [--checks C01,..]: apply a behaviour-preserving rewrite to a whole scratch copy of the package,
run the stable tests on it and every check; report violations, broken checks and what became undecided."""
import ast, concurrent.futures, copy, json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def own(fn):
    st = list(ast.iter_child_nodes(fn))
    while st:
        n = st.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            st.extend(ast.iter_child_nodes(n))

def isgen(fn): return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own(fn))

class Rename(ast.NodeTransformer):
    """all locals that are no parameters"""
    def visit_FunctionDef(self, fn):
        params = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs} | {x.arg for x in (fn.args.vararg, fn.args.kwarg) if x}
        nested = [n for n in ast.walk(fn) if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn]
        if any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(fn)): return fn
        loc = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - params
        for k in nested:
            loc -= {a.arg for a in k.args.args}
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and n.id in loc: n.id += "_loc"
            if isinstance(n, ast.ExceptHandler) and n.name in loc: pass
        return fn

class Invert(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            t = n.test
            if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not): nt = t.operand
            elif isinstance(t, ast.Compare) and len(t.ops) == 1 and type(t.ops[0]) in NEG: nt = ast.Compare(t.left, [NEG[type(t.ops[0])]()], t.comparators)
            else: nt = ast.UnaryOp(ast.Not(), t)
            n.test, n.body, n.orelse = nt, n.orelse, n.body
        return n
    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
NEG = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt}

class ElseReturn(ast.NodeTransformer):
    """if c: return x; rest  ->  if c: return x else: rest"""
    def fix(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and s.body and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and i + 1 < len(body):
                s.orelse = self.fix(body[i + 1:])
                return body[:i + 1]
        return body
    def visit_FunctionDef(self, n):
        self.generic_visit(n); n.body = self.fix(n.body); return n
    def visit_For(self, n):
        self.generic_visit(n); n.body = self.fix(n.body); return n

class RetVar(ast.NodeTransformer):
    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)): return n
        return [ast.Assign([ast.Name("result_value", ast.Store())], n.value), ast.Return(ast.Name("result_value", ast.Load()))]

class Flip(ast.NodeTransformer):
    M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in self.M:
            return ast.Compare(n.comparators[0], [self.M[type(n.ops[0])]()], [n.left])
        return n

class Split(ast.NodeTransformer):
    """a <= b <= c -> a <= b and b <= c"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) > 1 and all(isinstance(x, (ast.Name, ast.Constant, ast.Subscript, ast.Attribute)) for x in n.comparators[:-1]):
            xs = [n.left] + n.comparators
            return ast.BoolOp(ast.And(), [ast.Compare(copy.deepcopy(xs[i]), [n.ops[i]], [copy.deepcopy(xs[i + 1])]) for i in range(len(n.ops))])
        return n

class DeMorgan(ast.NodeTransformer):
    def test(self, t):
        if isinstance(t, ast.BoolOp):
            return ast.UnaryOp(ast.Not(), ast.BoolOp(ast.Or() if isinstance(t.op, ast.And) else ast.And(), [ast.UnaryOp(ast.Not(), x) for x in t.values]))
        return t
    def visit_If(self, n):
        self.generic_visit(n); n.test = self.test(n.test); return n
    def visit_comprehension(self, n):
        self.generic_visit(n); n.ifs = [self.test(x) for x in n.ifs]; return n

class Nest(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            vs = n.test.values
            inner = ast.If(vs[1] if len(vs) == 2 else ast.BoolOp(ast.And(), vs[1:]), n.body, [])
            return ast.If(vs[0], [inner], [])
        return n

class Comp2Loop(ast.NodeTransformer):
    """x = [e for ... if ...] and return [..] -> loop"""
    def build(self, v, name):
        new = ast.Assign([ast.Name(name, ast.Store())], ast.List([], ast.Load()) if isinstance(v, ast.ListComp) else ast.Call(ast.Name("set", ast.Load()), [], []))
        body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(name, ast.Load()), "append" if isinstance(v, ast.ListComp) else "add", ast.Load()), [v.elt], []))]
        for g in reversed(v.generators):
            for c in reversed(g.ifs): body = [ast.If(c, body, [])]
            body = [ast.For(g.target, g.iter, body, [])]
        return [new] + body
    def visit_Assign(self, n):
        if isinstance(n.value, (ast.ListComp, ast.SetComp)) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            nm = n.targets[0].id
            if nm not in {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}:
                return self.build(n.value, nm)
        return n
    def visit_Return(self, n):
        if isinstance(n.value, (ast.ListComp, ast.SetComp)):
            return self.build(n.value, "collected_") + [ast.Return(ast.Name("collected_", ast.Load()))]
        return n

class Loop2Comp(ast.NodeTransformer):
    """x = []; for ...: [if c:] x.append(e)  ->  x = [..]"""
    def fix(self, body):
        out = []; i = 0
        while i < len(body):
            s = body[i]
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.List) and not s.value.elts and isinstance(s.targets[0], ast.Name) and i + 1 < len(body) and isinstance(body[i + 1], ast.For) and not body[i + 1].orelse:
                nm = s.targets[0].id; f = body[i + 1]; gens = []; ifs = []; cur = f; ok = False
                while True:
                    if isinstance(cur, ast.For) and not cur.orelse:
                        gens.append([cur.target, cur.iter, []])
                    elif isinstance(cur, ast.If) and not cur.orelse:
                        gens[-1][2].append(cur.test)
                    else: break
                    if len(cur.body) != 1: break
                    cur = cur.body[0]
                if isinstance(cur, ast.Expr) and isinstance(cur.value, ast.Call) and isinstance(cur.value.func, ast.Attribute) and cur.value.func.attr == "append" and isinstance(cur.value.func.value, ast.Name) and cur.value.func.value.id == nm:
                    e = cur.value.args[0]
                    names = {x.id for g in gens for y in [g[1]] + g[2] for x in ast.walk(y) if isinstance(x, ast.Name)} | {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}
                    if nm not in names:
                        out.append(ast.Assign(s.targets, ast.ListComp(e, [ast.comprehension(t, it, c, 0) for t, it, c in gens])))
                        i += 2; continue
            out.append(s); i += 1
        return out
    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ("body", "orelse"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt): setattr(n, f, self.fix(b))
        return n

class Noop(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        i = 1 if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body.insert(i, ast.parse("_unused = 0").body[0]); n.body.insert(len(n.body) - 1 if len(n.body) > i + 1 else i + 1, ast.Pass())
        return n

class Wrap(ast.NodeTransformer):
    """public method m -> m delegates to _m_impl"""
    def visit_ClassDef(self, c):
        new = []
        for f in c.body:
            if isinstance(f, ast.FunctionDef) and not f.name.startswith("_") and not f.decorator_list and f.args.args and f.args.args[0].arg == "self":
                g = copy.deepcopy(f); g.name = f"_{f.name}_impl_{c.name.lower()}"
                a = f.args
                call = ast.Call(ast.Attribute(ast.Name("self", ast.Load()), g.name, ast.Load()), [ast.Name(x.arg, ast.Load()) for x in a.args[1:]] + ([ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load())] if a.vararg else []),
                                [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs] + ([ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load()))] if a.kwarg else []))
                f.body = [ast.Return(call)]
                new += [f, g]
            else: new.append(f)
        c.body = new
        return c

class CondHelper(ast.NodeTransformer):
    """if conditions over names/self only are moved to private methods"""
    def visit_ClassDef(self, c):
        extra = []
        for f in c.body:
            if not (isinstance(f, ast.FunctionDef) and f.args.args and f.args.args[0].arg == "self") or f.decorator_list: continue
            fn_locals = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.arg for a in f.args.args + f.args.kwonlyargs} | {x.arg for x in (f.args.vararg, f.args.kwarg) if x}
            k = 0
            for s in own(f):
                if isinstance(s, ast.If) and isinstance(s.test, (ast.Compare, ast.BoolOp)) and not any(isinstance(x, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.NamedExpr)) for x in ast.walk(s.test)):
                    used = []
                    for x in ast.walk(s.test):
                        if isinstance(x, ast.Name) and x.id in fn_locals and x.id != "self" and x.id not in used: used.append(x.id)
                    k += 1
                    if k % 2: continue
                    nm = f"_cond_{f.name.strip('_')}_{c.name.lower()}_{k}"
                    extra.append(ast.FunctionDef(nm, ast.arguments([], [ast.arg("self")] + [ast.arg(u) for u in used], None, [], [], None, []), [ast.Return(s.test)], []))
                    s.test = ast.Call(ast.Attribute(ast.Name("self", ast.Load()), nm, ast.Load()), [ast.Name(u, ast.Load()) for u in used], [])
        c.body += extra
        return c

class ExprHelper(ast.NodeTransformer):
    """for-loop iterables of methods become private helpers"""
    def visit_ClassDef(self, c):
        extra = []
        for f in c.body:
            if not (isinstance(f, ast.FunctionDef) and f.args.args and f.args.args[0].arg == "self") or f.decorator_list: continue
            names = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.arg for a in f.args.args + f.args.kwonlyargs} | {x.arg for x in (f.args.vararg, f.args.kwarg) if x}
            for k, s in enumerate(x for x in own(f) if isinstance(x, ast.For)):
                if isinstance(s.iter, ast.Name) or any(isinstance(x, (ast.Lambda, ast.comprehension)) for x in ast.walk(s.iter)) or any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(s.iter)): continue
                used = []
                for x in ast.walk(s.iter):
                    if isinstance(x, ast.Name) and x.id in names and x.id != "self" and x.id not in used: used.append(x.id)
                nm = f"_items_{f.name.strip('_')}_{c.name.lower()}_{k}"
                extra.append(ast.FunctionDef(nm, ast.arguments([], [ast.arg("self")] + [ast.arg(u) for u in used], None, [], [], None, []), [ast.Return(s.iter)], []))
                s.iter = ast.Call(ast.Attribute(ast.Name("self", ast.Load()), nm, ast.Load()), [ast.Name(u, ast.Load()) for u in used], [])
        c.body += extra
        return c

class Append(ast.NodeTransformer):
    def visit_Expr(self, n):
        v = n.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "append" and isinstance(v.func.value, ast.Name) and len(v.args) == 1:
            return ast.AugAssign(ast.Name(v.func.value.id, ast.Store()), ast.Add(), ast.List(v.args, ast.Load()))
        return n

class TempTest(ast.NodeTransformer):
    """if <test>: -> flag = <test>; if flag:"""
    def stmts(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.If) and isinstance(s.test, (ast.Compare, ast.BoolOp, ast.UnaryOp)):
                self.n = getattr(self, "n", 0) + 1
                out.append(ast.Assign([ast.Name(f"flag{self.n}", ast.Store())], s.test)); s.test = ast.Name(f"flag{self.n}", ast.Load())
            out.append(s)
        return out
    def generic_visit(self, n):
        super().generic_visit(n)
        if isinstance(n, (ast.Module, ast.ClassDef)): return n
        for f in ("body", "orelse"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                if f == "orelse" and len(b) == 1 and isinstance(b[0], ast.If) and isinstance(n, ast.If): continue
                setattr(n, f, self.stmts(b))
        return n

class Items(ast.NodeTransformer):
    """for k, v in d.items() -> for k in d: v = d[k];  d.keys() -> d"""
    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and not it.args:
            if it.func.attr == "items" and isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2 and isinstance(n.target.elts[0], ast.Name) and isinstance(it.func.value, (ast.Name, ast.Attribute, ast.Subscript)):
                k, v = n.target.elts
                n.body.insert(0, ast.Assign([v], ast.Subscript(copy.deepcopy(it.func.value), ast.Name(k.id, ast.Load()), ast.Load())))
                n.target, n.iter = k, it.func.value
            elif it.func.attr == "keys":
                n.iter = it.func.value
        return n

class DictCtor(ast.NodeTransformer):
    def visit_Dict(self, n):
        self.generic_visit(n)
        if not n.keys: return ast.Call(ast.Name("dict", ast.Load()), [], [])
        return n
    def visit_List(self, n):
        self.generic_visit(n)
        if not n.elts and isinstance(n.ctx, ast.Load): return ast.Call(ast.Name("list", ast.Load()), [], [])
        return n

class Elif(ast.NodeTransformer):
    """elif -> else: if (same tree); and  a: X elif b: Y  ->  if a: X; if not a and b: Y  when X cannot change the tests: skipped.
    Here: swaps the operands of 'or'/'and' made of 'x is None' tests (no side effects)."""
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        if all(isinstance(v, ast.Compare) and all(isinstance(o, (ast.Is, ast.IsNot)) for o in v.ops) and isinstance(v.left, ast.Name) for v in n.values):
            n.values = n.values[::-1]
        return n

class Ternary(ast.NodeTransformer):
    """if c: return a else: return b / return a; return b -> return a if c else b"""
    def fix(self, body):
        out = []; i = 0
        while i < len(body):
            s = body[i]
            if isinstance(s, ast.If) and len(s.body) == 1 and isinstance(s.body[0], ast.Return) and s.body[0].value is not None:
                if not s.orelse and i + 2 == len(body) and isinstance(body[i + 1], ast.Return) and body[i + 1].value is not None:
                    out.append(ast.Return(ast.IfExp(s.test, s.body[0].value, body[i + 1].value))); return out
                if len(s.orelse) == 1 and isinstance(s.orelse[0], ast.Return) and s.orelse[0].value is not None:
                    out.append(ast.Return(ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))); i += 1; continue
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) for x in (s.body[0], s.orelse[0])) and s.body[0].targets[0].id == s.orelse[0].targets[0].id:
                out.append(ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value))); i += 1; continue
            out.append(s); i += 1
        return out
    def generic_visit(self, n):
        super().generic_visit(n)
        if isinstance(n, (ast.Module, ast.ClassDef)): return n
        for f in ("body", "orelse"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt): setattr(n, f, self.fix(b))
        return n

class SelfVar(ast.NodeTransformer):
    """the graph's dictionaries through local aliases: adj = self._adj at the top of methods that never rebind it"""
    def visit_FunctionDef(self, f):
        if f.decorator_list or not f.args.args or f.args.args[0].arg != "self" or f.name == "__init__": return f
        for attr in ("_adj", "_node", "edgeid", "_pred", "_succ", "snapshots"):
            if any(isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, (ast.Store, ast.Del)) for n in ast.walk(f)): continue
            if not any(isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.value, ast.Name) and n.value.id == "self" for n in ast.walk(f)): continue
            if attr == "_adj" and any(isinstance(n, ast.FunctionDef) and n is not f for n in ast.walk(f)): continue
            class R(ast.NodeTransformer):
                def visit_Attribute(s, n):
                    s.generic_visit(n)
                    if n.attr == attr and isinstance(n.value, ast.Name) and n.value.id == "self": return ast.Name("local" + attr, n.ctx)
                    return n
            i = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
            f.body = f.body[:i] + [ast.Assign([ast.Name("local" + attr, ast.Store())], ast.Attribute(ast.Name("self", ast.Load()), attr, ast.Load()))] + [R().visit(x) for x in f.body[i:]]
        return f

class WhileIndex(ast.NodeTransformer):
    """for x in <name list built locally>: -> index loop: only for loops over a local name that is a list display/comprehension in the same function"""
    def visit_FunctionDef(self, f):
        lists = {s.targets[0].id for s in own(f) if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and isinstance(s.value, (ast.List, ast.ListComp))}
        class R(ast.NodeTransformer):
            k = 0
            def visit_For(s, n):
                s.generic_visit(n)
                if isinstance(n.iter, ast.Name) and n.iter.id in lists and not any(isinstance(x, ast.Name) and x.id == n.iter.id for b in n.body for x in ast.walk(b)):
                    s.k += 1; i = f"pos{s.k}"
                    n.body.insert(0, ast.Assign([n.target], ast.Subscript(n.iter, ast.Name(i, ast.Load()), ast.Load())))
                    n.iter = ast.parse(f"range(len({n.iter.id}))", mode="eval").body
                    n.target = ast.Name(i, ast.Store())
                return n
        return R().visit(f)

TR = {"rename": Rename, "invert": Invert, "elsereturn": ElseReturn, "retvar": RetVar, "flip": Flip, "split": Split, "demorgan": DeMorgan, "nest": Nest,
      "comp2loop": Comp2Loop, "loop2comp": Loop2Comp, "noop": Noop, "wrap": Wrap, "cond": CondHelper, "items": ExprHelper, "append": Append, "temptest": TempTest,
      "dictitems": Items, "ctor": DictCtor, "swapnone": Elif, "ternary": Ternary, "selfvar": SelfVar, "whileindex": WhileIndex}

def make(names):
    d = tempfile.mkdtemp(prefix="ref", dir="/tmp")
    shutil.copytree("/repo", d + "/repo", ignore=shutil.ignore_patterns("__pycache__", ".git"))
    n = 0
    for r, _, fs in os.walk(d + "/repo/dynetworkx"):
        if "/tests" in r: continue
        for f in fs:
            if f.endswith(".py"):
                p = os.path.join(r, f); s = open(p).read(); t = ast.parse(s)
                base = ast.unparse(t)
                for nm in names: t = ast.fix_missing_locations(TR[nm]().visit(t))
                o = ast.unparse(t)
                if o != base:
                    n += 1; open(p, "w").write(o + "\n")
                    compile(o, p, "exec")
    return d, n

def tests(d):
    r = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-rf", "--timeout=300", "--continue-on-collection-errors", "--junitxml=" + d + "/r.xml", "dynetworkx"],
                       cwd=d + "/repo", env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=d + "/repo", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0"), capture_output=True, text=True)
    return r.stdout.strip().splitlines()[-1:], [l for l in r.stdout.splitlines() if l.startswith("FAILED")][:5]

def run(pid, d):
    r = subprocess.run([sys.executable, VERIF + "/check.py", pid], env=dict(os.environ, VERIF_REPO=d + "/repo", VERIF_TIER="quick", VERIF_EVIDENCE=d + "/ev"), capture_output=True, text=True, cwd=VERIF)
    u = {}
    try: u = json.load(open(f"{d}/ev/{pid}.json"))["coverage"]
    except Exception: pass
    return pid, r.returncode, r.stdout, r.stderr, u

def report(d, checks):
    with concurrent.futures.ThreadPoolExecutor(3) as ex:
        for pid, rc, o, e, u in ex.map(lambda p: run(p, d), sorted(checks, key=lambda c: c not in ("C16", "C17", "C18", "C02"))):
            nu = u.get("undecided", -1)
            if rc or nu and (pid, nu) != ("C07", 32):
                print(f"  {pid} rc={rc} undecided={nu}/{u.get('obligations')}", flush=True)
                if rc: print("    ", o[:600].replace("\n", "\n     "), e[-200:])
                seen = {}
                for k, v in u.get("undecided_reasons", {}).items():
                    seen.setdefault(": ".join(k.split(": ")[2:])[:150], [0, k.split(": ")[1]])[0] += v
                for k, v in sorted(seen.items(), key=lambda x: -x[1][0])[:4]: print("       ", v[0], v[1], k)

def claimed():
    return [c["property"] for c in json.load(open(VERIF + "/MANIFEST.json"))["checks"]]

def main():
    a = sys.argv[1:]
    checks = claimed()
    if "--checks" in a:
        i = a.index("--checks"); checks = a[i + 1].split(","); del a[i:i + 2]
    for group in (a or list(TR)):
        d, n = make(group.split("+"))
        print("==", group, n, "files", *tests(d), flush=True)
        report(d, checks)
        shutil.rmtree(d)
if __name__ == "__main__": main()
