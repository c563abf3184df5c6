"""Evaluation of whole operations: compile once, evaluate per case."""
import ast

import front
from ev import Ev, Und, PyErr, Inst, Attr, G
import world


class Run:
    def __init__(self, repo="/repo"):
        self.prog = front.Program(repo)
        self.cache = {}
        self.inits = {}
        self.seen = {}
        self.functions = {}     # analysed functions: (file, line, name)
        self.unsupported = {}

    def summary(self, cname, meth):
        k = (cname, meth)
        if k not in self.cache:
            try:
                S = front.Compiler(self.prog, cname).compile(meth)
                self.cache[k] = S
                self.functions[(S.file, S.line, f"{S.cls}.{S.name}")] = True
                for site in S.sites:
                    self.functions[site] = True
            except front.Unsupported as ex:
                self.cache[k] = ex
                self.unsupported[k] = str(ex)
            except RecursionError:
                self.cache[k] = front.Unsupported("recursion limit")
                self.unsupported[k] = "recursion limit"
        S = self.cache[k]
        if isinstance(S, Exception):
            raise Und(f"not summarised: {S}")
        return S

    def bind(self, S, args, kw):
        """parameters as Python binds them, with the declared defaults"""
        fn_args = S.signature
        pr = {}
        args = list(args)
        pos = fn_args["pos"]
        if len(args) > len(pos):
            if fn_args["vararg"] is None:
                raise PyErr("TypeError", "too many arguments")
            pr[fn_args["vararg"]] = tuple(args[len(pos):])
            args = args[:len(pos)]
        elif fn_args["vararg"]:
            pr[fn_args["vararg"]] = ()
        for n, a in zip(pos, args):
            pr[n] = a
        rest = {}
        for k, v in kw.items():
            if k in pr:
                raise PyErr("TypeError", "repeated argument " + k)
            if k in pos or k in fn_args["kwonly"]:
                pr[k] = v
            else:
                rest[k] = v
        if fn_args["kwarg"]:
            pr[fn_args["kwarg"]] = Attr(rest)
        elif rest:
            raise PyErr("TypeError", "unexpected argument " + ", ".join(rest))
        for n in pos + fn_args["kwonly"]:
            if n not in pr:
                if n not in fn_args["defaults"]:
                    raise PyErr("TypeError", "missing argument " + n)
                d = fn_args["defaults"][n]
                if isinstance(d, tuple) and len(d) == 2 and d[0] == "?":
                    if not d[1].replace(".", "").isidentifier():
                        raise Und("default value " + d[1])
                    d = G(d[1].split(".")[-1])
                pr[n] = d
        return pr

    def evaluator(self, cname, meth, st, args=(), kw=None, depth=0, hooks=None):
        S = self.summary(cname, meth)
        ev = Ev(S, st, self.bind(S, args, kw or {}), self.prog, cname, hooks, run=self, depth=depth)
        ev.meth = meth
        return ev

    def invoke(self, cname, meth, st, args=(), kw=None, depth=0, hooks=None):
        try:
            ev = self.evaluator(cname, meth, st, args, kw, depth, hooks)
        except PyErr as ex:
            return ("pyraise", ex.kind, ex.msg, None)
        o = ev.outcome()
        self.last = ev
        return o

    def initial(self, cname, args=(), kw=None):
        """state right after construction"""
        if cname in ("SnapshotGraph", "SnapshotDiGraph"):
            st = {}
        else:
            st = world.build(cname, [])
        k = cname
        if k not in self.inits:
            ev = self.evaluator(cname, "__init__", st, (), {}, hooks={"init": True})
            o = ev.outcome()
            if o[0] != "ok":
                raise Und("constructor")
            self.inits[k] = o[3]
        import copy
        st = copy.deepcopy(self.inits[k])
        if self.live(cname):
            st["#grown"] = True
        if args or kw:
            if args:
                raise Und("constructor arguments")
            st["graph"] = dict(kw)
        return st

    def bucket(self, cname):
        """kind of container in which the class keeps the edges of one instant: that of its own add_edge"""
        k = ("bucket", cname)
        if k not in self.seen:
            self.seen[k] = set
            try:
                o = self.invoke(cname, "add_edge", world.build(cname, []) | self.initial(cname), ("a", "b", 0), {})
                if o[0] == "ok" and isinstance(dict.get(o[3]["tree"], 0), list):
                    self.seen[k] = list
            except (Und, PyErr, KeyError):
                pass
        return self.seen[k]

    def never_set(self, cname, attr):
        """no constructor that runs and no other method of the class sets this instance attribute"""
        k = ("never", cname, attr)
        if k not in self.seen:
            r = attr not in self.initial(cname)
            for ci in self.prog.mro(cname):
                for b in ci.node.body:
                    if isinstance(b, ast.FunctionDef) and b.name == "__init__":
                        continue
                    if isinstance(b, ast.FunctionDef) and b.name in ("__getattr__", "__getattribute__", "__setattr__", attr):
                        r = False
                    for n in ast.walk(b):
                        if isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Store) or \
                                isinstance(n, ast.Name) and n.id in ("setattr", "__dict__", "vars") or \
                                isinstance(n, ast.Attribute) and n.attr == "__dict__" or \
                                isinstance(n, ast.Name) and n.id == attr and isinstance(n.ctx, ast.Store) and not isinstance(b, ast.FunctionDef):
                            r = False
            if any(ci.bases and any(x not in self.prog.classes and x != "object" for x in ci.bases) for ci in self.prog.mro(cname)):
                r = False
            self.seen[k] = r
        return self.seen[k]

    KNOWN = {"graph", "_model", "_node", "_adj", "_pred", "_succ", "tree", "snapshots"}

    def live(self, cname):
        """instance attributes beyond the representation that methods other than the constructor set or use"""
        k = ("live", cname)
        if k not in self.seen:
            self.seen[k] = set()
            start = set(self.initial(cname))
            out, skip = set(), set(self.KNOWN)
            for ci in self.prog.mro(cname):
                skip |= set(ci.methods) | set(ci.consts)
                for b in ci.node.body:
                    if not isinstance(b, ast.FunctionDef) or b.name == "__init__":
                        continue
                    for n in ast.walk(b):
                        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
                            if isinstance(n.ctx, ast.Store) or n.attr in start:
                                out.add(n.attr)
                        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3 and \
                                isinstance(n.args[1], ast.Constant):
                            out.add(n.args[1].value)
            self.seen[k] = {a for a in out - skip if isinstance(a, str)}
        return self.seen[k]

    def grow(self, cname, edges, iso=(), model=None, node_attr=None, nodes_first=()):
        """the same graph built by the class's own operations, so that every further attribute has a reachable value"""
        st = self.initial(cname)
        todo = [("add_node", (n,), dict((node_attr or {}).get(n, {}))) for n in nodes_first]
        todo += [("add_edge", e, dict(a)) for e, a in edges]
        done = {n for e, _ in edges for n in e[:2]} | set(nodes_first)
        todo += [("add_node", (n,), dict((node_attr or {}).get(n, {}))) for n in iso]
        todo += [("add_node", (n,), dict(a)) for n, a in (node_attr or {}).items() if n in done and n not in nodes_first and n not in iso and a]
        for m, args, kw in todo:
            o = self.invoke(cname, m, st, args, kw)
            if o[0] != "ok":
                raise Und("build by operations")
            st = o[3]
        st["_model"] = model
        side = st.get("_pred") or st.get("_adj") or {}
        if {e for nb in side.values() for d in nb.values() for e in d} != {e for e, _ in edges}:
            raise Und("build by operations")
        return st

    def graph(self, cname, edges, **kw):
        """state holding exactly these edges (plus whatever else the constructor sets up)"""
        live = self.live(cname)
        if live:
            try:
                return self.grow(cname, edges, **kw)
            except (Und, PyErr):
                pass
            st = world.build(cname, edges, **kw)
            for a, v in self.initial(cname).items():
                if a not in live and a != "#grown":
                    st.setdefault(a, v)
            return st
        st = world.build(cname, edges, **kw)
        if not world.is_interval(cname) and edges and self.bucket(cname) is list:
            for t in list(st["tree"]):
                dict.__setitem__(st["tree"], t, [e[:2] for e, _ in edges if e[2] == t])
        for a, v in self.initial(cname).items():
            st.setdefault(a, v)
        return st
