"""Training the lookup model only reads the graph: an alias and effect analysis of generate_predictive_model and of every
method of the graph it reaches.

A local name *holds state* when everything that is assigned to it is a path into the graph (self.tree, self._adj[u], the
values or items of such a path, ...) and nothing is a copy.  Reported are definite writes: an assignment, deletion or in-place
method on a path into the graph's content or on a name that holds state, a call of one of the graph's own mutators, and a value
other than the fitted model stored as the model.  Anything else is left alone."""
import ast

MUT = {"add", "append", "extend", "insert", "pop", "popitem", "remove", "discard", "clear", "update", "setdefault", "sort", "reverse",
       "add_from", "difference_update", "intersection_update", "symmetric_difference_update", "__setitem__", "__delitem__"}
OWN = {"add_node", "add_nodes_from", "add_edge", "add_edges_from", "remove_node", "remove_edge"}
PART = {"values", "items", "get", "setdefault"}
CONTENT = {"tree", "graph", "_node", "_adj", "_pred", "_succ"}


def unmangled(cls, name):
    p = "_" + cls.lstrip("_")
    return name[len(p):] if name.startswith(p + "__") else name


def root(e, me, held):
    """the content field a path expression leads into, or None"""
    while True:
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Slice):
                return None
            e = e.value
        elif isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == me:
                return e.attr if e.attr in CONTENT else None
            e = e.value
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in PART:
            e = e.func.value
        elif isinstance(e, ast.Name):
            return held.get(e.id)
        else:
            return None


def targets(t):
    return [x.id for x in ast.walk(t) if isinstance(x, ast.Name)]


def holders(fn, me):
    """local name -> content field, for names that only ever hold parts of the graph"""
    binds = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    binds.setdefault(t.id, []).append(("is", n.value))
                elif isinstance(t, (ast.Tuple, ast.List)):
                    for x in targets(t):
                        binds.setdefault(x, []).append(("?", None))
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)) and isinstance(n.target, ast.Name):
            binds.setdefault(n.target.id, []).append(("is", n.value) if isinstance(n, ast.NamedExpr) else ("?", None))
        elif isinstance(n, (ast.For, ast.comprehension)):
            it, t = n.iter, n.target
            inner = it.func if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and not it.args else None
            if inner is not None and inner.attr == "values" and isinstance(t, ast.Name):
                binds.setdefault(t.id, []).append(("is", inner.value))
            elif inner is not None and inner.attr == "items" and isinstance(t, ast.Tuple) and len(t.elts) == 2:
                for x in targets(t.elts[0]):
                    binds.setdefault(x, []).append(("?", None))
                if isinstance(t.elts[1], ast.Name):
                    binds.setdefault(t.elts[1].id, []).append(("is", inner.value))
                else:
                    for x in targets(t.elts[1]):
                        binds.setdefault(x, []).append(("?", None))
            else:
                for x in targets(t):
                    binds.setdefault(x, []).append(("?", None))
        elif isinstance(n, (ast.With, ast.ExceptHandler, ast.Import, ast.ImportFrom, ast.FunctionDef, ast.Lambda)) and n is not fn:
            for x in ([n.name] if getattr(n, "name", None) else []) + [a.arg for a in getattr(getattr(n, "args", None), "args", [])]:
                binds.setdefault(x, []).append(("?", None))
    for a in fn.args.args + fn.args.kwonlyargs:
        binds.setdefault(a.arg, []).append(("?", None))
    held = {}
    for _ in range(len(binds) + 1):
        new = {}
        for x, bs in binds.items():
            r = [root(e, me, held) if k == "is" else None for k, e in bs]
            if r and all(r) and len(set(r)) == 1:
                new[x] = r[0]
        if new == held:
            break
        held = new
    return held


def writes(fn, me, cls):
    """(line, what) of the definite writes, and the names of the graph's own methods called"""
    held = holders(fn, me)
    out, calls = [], []
    for n in ast.walk(fn):
        ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(n, ast.AugAssign) else []
        for t in ts:
            for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                if isinstance(x, (ast.Subscript, ast.Attribute)) and root(x, me, held):
                    out.append((n.lineno, f"{'deletes' if isinstance(n, ast.Delete) else 'assigns'} {ast.unparse(x)}"))
                elif isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Slice) and root(x.value, me, held):
                    out.append((n.lineno, f"assigns {ast.unparse(x)}"))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            f = n.func
            if isinstance(f.value, ast.Name) and f.value.id == me:
                calls.append(unmangled(cls, f.attr))
                if f.attr in OWN:
                    out.append((n.lineno, f"calls {f.attr}"))
            elif f.attr in MUT and root(f.value, me, held):
                out.append((n.lineno, f"calls {ast.unparse(f)}()"))
            elif isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super":
                calls.append(f.attr)
    return out, calls


def training(prog, cname):
    """(functions analysed, [(file, line, function, what)])"""
    todo, seen, out = ["generate_predictive_model"], {}, []
    while todo:
        m = todo.pop()
        if m in seen:
            continue
        r = prog.find(cname, m)
        if not r:
            continue
        ci, fn = r
        seen[m] = (ci.mod.path, fn.lineno, f"{ci.name}.{fn.name}")
        if any(isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod") for d in fn.decorator_list) or not fn.args.args:
            continue
        w, calls = writes(fn, fn.args.args[0].arg, ci.name)
        out += [(ci.mod.path, l, f"{ci.name}.{fn.name}", what) for l, what in w]
        todo += [c for c in calls if c not in OWN]
    if "generate_predictive_model" not in seen:
        return None, []
    return list(seen.values()), out
