"""Front end: Python AST -> relational summary.

A public function is compiled, in the context of the class it is called on,
to guarded facts:   fact  <-  loops (generic elements of a source), guard.
Private helpers, inherited methods, static/class methods and module-level
helpers are inlined; nothing is executed.  Whatever the compiler does not
understand raises Unsupported (the obligation is then 'undecided').
"""
import string
import builtins
import ast
import os

import norm

from ir import (T, const, NONE, TRUE, FALSE, truth, neg, conj, disj, ite,
                Loop, Fact, Obj, subterms, fresh)


def message_error(x):
    """exception of a message that cannot be built: "{} {}".format(one)"""
    for n in ast.walk(x):
        if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "format" and
                isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str)):
            continue
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            continue
        try:
            fields = [f for _, f, spec, conv in string.Formatter().parse(n.func.value.value) if f is not None]
        except ValueError:
            return "ValueError"
        if sum(f == "" for f in fields) > len(n.args) or any(f.isdigit() and int(f) >= len(n.args) for f in fields):
            return "IndexError"
        if any(f.isidentifier() and f not in {k.arg for k in n.keywords} for f in fields):
            return "KeyError"
    return None


class Unsupported(Exception):
    pass


class BadCall(Unsupported):
    """arguments that do not fit the signature"""


# ---------------------------------------------------------------- program
class ClassInfo:
    def __init__(self, name, node, mod):
        self.name = name
        self.node = node
        self.mod = mod
        self.methods = {}
        self.consts = {}
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if any(isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter") for d in s.decorator_list):
                    if any(isinstance(d, ast.Attribute) and d.attr == "setter" for d in s.decorator_list):
                        self.methods[s.name + ".setter"] = s
                    continue
                self.methods[s.name] = s
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                v = s.value
                if isinstance(v, ast.Name) and v.id in self.methods:
                    self.methods[s.targets[0].id] = self.methods[v.id]
                else:
                    self.consts[s.targets[0].id] = v
        self.bases = []
        for b in node.bases:
            self.bases.append(b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else None)


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.funcs, self.classes, self.imports, self.consts = {}, {}, {}, {}

    def undefined(self, x):
        """nothing in this module binds the name"""
        if not hasattr(self, "names"):
            s = set(dir(builtins)) | {"__name__", "__file__", "__doc__", "__package__", "__class__", "__spec__", "__path__"}
            for n in ast.walk(self.tree):
                if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
                    s.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    s.add(n.name)
                elif isinstance(n, ast.arg):
                    s.add(n.arg)
                elif isinstance(n, ast.alias):
                    s.add(n.asname or n.name.split(".")[0])
                elif isinstance(n, ast.ExceptHandler):
                    s.add(n.name)
                elif isinstance(n, (ast.Global, ast.Nonlocal)):
                    s.update(n.names)
                elif isinstance(n, (ast.MatchAs, ast.MatchStar)):
                    s.add(n.name)
                elif isinstance(n, ast.MatchMapping):
                    s.add(n.rest)
            self.names = s
        return x not in self.names and "*" not in self.names


class Program:
    def __init__(self, repo="/repo", pkg="dynetworkx"):
        self.repo = repo
        self.modules = {}
        self.classes = {}
        self.tables = {}
        base = os.path.join(repo, pkg)
        for d, sub, files in os.walk(base):
            sub[:] = sorted(x for x in sub if x not in ("tests", "__pycache__"))
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, repo)
                name = rel[:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-9]
                with open(p, encoding="utf-8") as fh:
                    tree = norm.normalise(ast.parse(fh.read(), rel))
                self.load(name, rel, tree)
        for c in self.classes.values():
            self.unwrap(c)

    def unwrap(self, c):
        """a method that only hands its parameters on to a private method of its class has that method's body"""
        for name in list(c.methods):
            for _ in range(8):
                f = c.methods[name]
                t = forwards(f, c.name)
                g = c.methods.get(t[0]) if t else None
                if g is None or g is f or t[0] == name or not t[0].startswith("_") or t[0].startswith("__"):
                    break
                if any(t[0] in d.methods for d in self.classes.values() if d is not c and (self.is_sub(d.name, c.name) or self.is_sub(c.name, d.name))):
                    break
                n = renamed(f, g, t[1])
                if n is None:
                    break
                c.methods[name] = n
                if f in c.node.body:
                    c.node.body[c.node.body.index(f)] = n

    def load(self, name, rel, tree):
        m = Module(name, rel, tree)
        self.modules[name] = m
        for s in tree.body:
            self.top(s, m)

    def top(self, s, m):
        if isinstance(s, ast.FunctionDef):
            m.funcs[s.name] = s
        elif isinstance(s, ast.ClassDef):
            ci = ClassInfo(s.name, s, m)
            m.classes[s.name] = ci
            self.classes.setdefault(s.name, ci)
        elif isinstance(s, ast.Import):
            for a in s.names:
                m.imports[a.asname or a.name.split(".")[0]] = (a.name if a.asname else a.name.split(".")[0], None)
        elif isinstance(s, ast.ImportFrom):
            src = s.module or ""
            if s.level:
                parts = m.name.split(".")
                if not m.path.endswith("__init__.py"):
                    parts = parts[:-1]
                parts = parts[:len(parts) - (s.level - 1)]
                src = ".".join(parts + ([s.module] if s.module else []))
            for a in s.names:
                m.imports[a.asname or a.name] = (src, a.name)
        elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            m.consts[s.targets[0].id] = s.value
        elif isinstance(s, (ast.If, ast.Try)):
            for x in s.body:
                self.top(x, m)

    def mro(self, cname):
        out = []
        todo = [cname]
        while todo:
            c = todo.pop(0)
            if c in self.classes and self.classes[c] not in out:
                out.append(self.classes[c])
                todo = [b for b in self.classes[c].bases if b] + todo
        return out

    def is_sub(self, a, b):
        return any(c.name == b for c in self.mro(a))

    def find(self, cname, meth, start=None):
        """(ClassInfo, FunctionDef) in the MRO of cname."""
        mro = self.mro(cname)
        if start is not None:
            names = [c.name for c in mro]
            mro = mro[names.index(start) + 1:] if start in names else []
        for c in mro:
            if meth in c.methods:
                return c, c.methods[meth]
        return None

    def anchor(self, cname, meth):
        r = self.find(cname, meth)
        if r is None:
            raise AnchorLost(f"{cname}.{meth} no longer exists")
        return r


def forwards(f, cname):
    """(target, [wrapper's argument per position / keyword]) when the body is one call handing the parameters on"""
    body = [s for s in f.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    if len(body) != 1 or f.decorator_list or not f.args.args or f.args.args[0].arg != "self":
        return None
    s = body[0]
    c = s.value if isinstance(s, (ast.Return, ast.Expr)) else None
    if isinstance(c, ast.YieldFrom) and isinstance(s, ast.Expr):
        c = c.value
    elif isinstance(s, ast.Expr):
        return None
    if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id == "self"):
        return None
    return c.func.attr, c


def renamed(f, g, call):
    """g's body under f's signature, or None"""
    if g.decorator_list or g.args.posonlyargs or f.args.posonlyargs or not g.args.args or g.args.args[0].arg != "self":
        return None
    m, given = {}, []
    gp = [a.arg for a in g.args.args][1:]
    gk = [a.arg for a in g.args.kwonlyargs]
    star = kwstar = None
    for i, a in enumerate(call.args):
        if isinstance(a, ast.Starred):
            if not (isinstance(a.value, ast.Name) and f.args.vararg and a.value.id == f.args.vararg.arg and g.args.vararg) or i != len(gp) or star:
                return None
            star = m[g.args.vararg.arg] = a.value.id
            continue
        if not isinstance(a, ast.Name) or i >= len(gp):
            return None
        m[gp[i]] = a.id
    for k in call.keywords:
        if not isinstance(k.value, ast.Name):
            return None
        if k.arg is None:
            if not (f.args.kwarg and k.value.id == f.args.kwarg.arg and g.args.kwarg):
                return None
            kwstar = m[g.args.kwarg.arg] = k.value.id
        elif k.arg in gp + gk and k.arg not in m:
            m[k.arg] = k.value.id
        else:
            return None
    if bool(g.args.vararg) != bool(star) or bool(g.args.kwarg) != bool(kwstar):
        return None
    fp = [a.arg for a in f.args.args[1:] + f.args.kwonlyargs] + [x.arg for x in (f.args.vararg, f.args.kwarg) if x]
    if set(m) != set(gp + gk) | {x.arg for x in (g.args.vararg, g.args.kwarg) if x} or sorted(m.values()) != sorted(fp):
        return None
    if any(k != v for k, v in m.items()):
        names = {n.id for n in ast.walk(g) if isinstance(n, ast.Name)} - set(m)
        if names & set(m.values()) or any(isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not g for n in ast.walk(g)):
            return None
    import copy
    out = copy.copy(f)
    body = copy.deepcopy(g.body)
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and n.id in m:
                n.id = m[n.id]
    recs = [n for s in body for n in ast.walk(s) if isinstance(n, ast.Attribute) and n.attr == g.name and
            isinstance(n.value, ast.Name) and n.value.id == "self"]
    if recs:        # the recursion goes on under the public name, if the parameters come in the same order
        if [m[x] for x in gp] != [a.arg for a in f.args.args[1:]] or gk or star or kwstar:
            return None
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Call) and n.func in recs and n.keywords:
                    return None
        for n in recs:
            n.attr = f.name
    out.body = body
    return out


class AnchorLost(Exception):
    pass


def is_generator(fn):
    for n in walk_scope(fn):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def walk_scope(fn):
    """Walk the nodes of a function without entering nested functions."""
    st = list(ast.iter_child_nodes(fn))
    while st:
        n = st.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            st.extend(ast.iter_child_nodes(n))


def decos(fn):
    return {d.id if isinstance(d, ast.Name) else getattr(d, "attr", "") for d in fn.decorator_list}


# ---------------------------------------------------------------- values
class FnVal:
    """A callable value known at compile time."""

    def __init__(self, fn, mod, cls=None, selfv=None, env=None, name="", recv_cls=None):
        self.fn, self.mod, self.cls, self.selfv, self.env, self.name = fn, mod, cls, selfv, env, name
        self.recv_cls = recv_cls


class SelfRef:
    """A repo-class instance known statically: the receiver, or self.tree."""

    def __init__(self, cname, prefix):
        self.cname, self.prefix = cname, prefix

    def __eq__(self, o):
        return isinstance(o, SelfRef) and (o.cname, o.prefix) == (self.cname, self.prefix)

    def __hash__(self):
        return hash((self.cname, self.prefix))


class ClassRef:
    def __init__(self, name, kind="repo"):
        self.name, self.kind = name, kind

    def __eq__(self, o):
        return isinstance(o, ClassRef) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Frame:
    def __init__(self, fn, mod, cls, name):
        self.fn, self.mod, self.cls, self.name = fn, mod, cls, name
        self.env = {}
        self.live = TRUE
        self.rets = []
        self.raised = []
        self.gen = None
        self.loopbase = 0
        self.guardbase = 0
        self.recv = None
        self.closure = None


MUTATORS = {"append", "extend", "insert", "remove", "pop", "popitem", "clear", "update", "setdefault", "add",
            "discard", "sort", "reverse", "__setitem__", "__delitem__", "appendleft", "move_to_end",
            "difference_update", "intersection_update", "symmetric_difference_update"}
PUREFN = {"len", "list", "set", "frozenset", "tuple", "dict", "sorted", "reversed", "min", "max", "sum", "any", "all",
          "zip", "range", "enumerate", "isinstance", "type", "str", "int", "float", "bool", "abs", "round", "iter",
          "next", "map", "filter", "repr", "hash", "callable", "hasattr", "getattr", "issubclass", "open", "id",
          "slice", "divmod", "pow", "object", "vars", "super", "format", "chr", "ord"}
OPS = {"__le__": "<=", "__lt__": "<", "__ge__": ">=", "__gt__": ">", "__eq__": "==", "__ne__": "!=",
       "le": "<=", "lt": "<", "ge": ">=", "gt": ">", "eq": "==", "ne": "!=",
       "is_": "is", "is_not": "is not"}
ARITH = {"add": "+", "sub": "-", "mul": "*", "truediv": "/", "floordiv": "//", "mod": "%"}
EXTLOG = {"Graph", "DiGraph", "MultiGraph", "MultiDiGraph"}
BINOP = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
         ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^"}
CMP = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is",
       ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}


class Summary:
    def __init__(self):
        self.objs = {}
        self.loops = {}
        self.rets = []        # Fact kind 'return'
        self.raises = []
        self.effects = []     # Fact kind 'eff'
        self.prints = []
        self.value = None
        self.fell = TRUE
        self.params = []
        self.name = ""
        self.cls = ""
        self.notes = []
        self.sites = []       # (file, line, func) of every inlined function
        self.defaults = {}
        self.extcalls = []
        self.tries = {}
        self.file = ""
        self.line = 0

    def obj(self, t):
        return self.objs[t.a[0]]

    def factobj(self):
        """id of a fact about a local object -> the object"""
        if getattr(self, "_factobj", None) is None:
            self._factobj = {id(f): o for o in self.objs.values() for f in o.facts}
        return self._factobj


class TryInfo:
    """a try statement with handlers: what is evaluated in its body, in order, and what each handler catches"""
    HIER = {"KeyError": ("LookupError",), "IndexError": ("LookupError",), "UnicodeDecodeError": ("ValueError",),
            "UnboundLocalError": ("NameError",), "ZeroDivisionError": ("ArithmeticError",), "OverflowError": ("ArithmeticError",),
            "NetworkXPointlessConcept": ("NetworkXException",), "NetworkXError": ("NetworkXException",)}

    def __init__(self, loops, handlers, frame):
        self.id = fresh()
        self.loops = tuple(l.id for l in loops)
        self.handlers = handlers
        self.frame = frame
        self.probes = []
        self.marked = 0

    def catches(self, kind):
        """index of the handler that takes an exception of that class, or None"""
        names = {kind, "Exception", "BaseException"} | set(self.HIER.get(kind, ()))
        for j, h in enumerate(self.handlers):
            if h is None or h & names:
                return j
        return None


class Compiler:
    MAXSEQ = 20000

    def __init__(self, prog, cname, opaque_tree=True):
        self.p = prog
        self.cname = cname
        self.S = Summary()
        self.seq = 0
        self.loops = []
        self.guards = []
        self.stack = []
        self.frames = []
        self.trystack = []
        self.tabling = []
        self.lasteff = {}
        self.state_types = self.init_types(cname)
        self.rec_tree = []

    # ------------------------------------------------------------ set-up
    def init_types(self, cname):
        """attr -> ('inst', class) | ('cont', ctor) from every assignment self.x = <ctor>() in __init__."""
        out = {}
        r = self.p.find(cname, "__init__")
        seen = set()
        while r and r[0].name not in seen:
            ci, fn = r
            seen.add(ci.name)
            for n in walk_scope(fn):
                tgt = []
                if isinstance(n, ast.Assign):
                    tgt = n.targets
                elif isinstance(n, ast.AnnAssign) and n.value is not None:
                    tgt = [n.target]
                for t in tgt:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == "self":
                        v = n.value
                        if isinstance(v, ast.Call) and isinstance(v.func, (ast.Name, ast.Attribute)):
                            nm = v.func.id if isinstance(v.func, ast.Name) else v.func.attr
                            if nm in self.p.classes:
                                out.setdefault(t.attr, ("inst", nm))
                            else:
                                out.setdefault(t.attr, ("cont", nm))
            sup = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "__init__"
                      for n in walk_scope(fn))
            r = self.p.find(cname, "__init__", start=ci.name) if sup else None
        return out

    # ------------------------------------------------------------ helpers
    def tick(self):
        self.seq += 1
        if self.seq > self.MAXSEQ:
            raise Unsupported("summary too large")
        return self.seq

    @property
    def fr(self):
        return self.frames[-1]

    def guard(self):
        return conj(*self.guards, self.fr.live)

    def fact(self, kind, args, node, guard=None):
        fr = self.fr
        f = Fact(self.loops, self.guard() if guard is None else guard, kind, args,
                 getattr(node, "lineno", 0), fr.name, fr.mod.path, self.tick(), self.seq)
        if self.trystack:
            f.tries = tuple(t.id for t in reversed(self.trystack))
            if kind in ("eff", "order"):
                self.trystack[-1].probes.append(f)
        return f

    def probe(self, v, node, kind="value", guard=None):
        """the value is computed here: in a try body its exceptions are caught"""
        if not self.trystack or kind == "value" and not isinstance(v, T):
            return
        if kind == "value":
            v = self.use(v)
            if v.op in ("const", "param", "lv", "global"):
                return
            if v.op == "obj" and self.S.objs[v.a[0]].kind in ("gen", "ext"):
                return
        f = self.fact(kind, (v,), node, guard)
        self.trystack[-1].probes.append(f)

    def excterm(self, tr, j):
        return T("exc", tr.id, tuple(l.id for l in self.loops), self.tick(), j)

    def mark(self):
        """what follows in the try body happens only when nothing has been raised so far"""
        tr = self.trystack[-1]
        if len(tr.probes) == tr.marked or self.fr.live is FALSE:
            return
        tr.marked = len(tr.probes)
        live = self.fr.live
        parts = live.a if live.op == "and" else (live,)
        keep = [x for x in parts if not (x.op == "not" and x.a[0].op == "exc" and x.a[0].a[0] == tr.id)]
        self.fr.live = conj(*keep, neg(self.excterm(tr, -1)))

    def newobj(self, kind, node, cls=None):
        o = Obj(kind, self.loops, self.guard(), getattr(node, "lineno", 0), cls)
        self.S.objs[o.id] = o
        return o

    def oref(self, o):
        return T("obj", o.id, 0)

    def use(self, t):
        """Version the object references of a term that is read now."""
        if not isinstance(t, T):
            return t
        if t.op == "obj" and t.a[1] == 0:
            return T("obj", t.a[0], self.seq + 1)
        if t.op == "ite":
            return ite(t.a[0], self.use(t.a[1]), self.use(t.a[2]))
        if t.op in ("item", "sd") and isinstance(t.a[0], T):
            b = self.use(t.a[0])
            if b is not t.a[0]:
                return T(t.op, b, *[self.use(x) if isinstance(x, T) else x for x in t.a[1:]])
        if t.op in ("call", "mcall", "tuple", "item", "cmp", "bin"):
            # only re-version bare references nested in fresh terms
            if any(isinstance(x, T) and x.op == "obj" and x.a[1] == 0 for x in t.a):
                return T(t.op, *[self.use(x) if isinstance(x, T) else x for x in t.a])
        return t

    def state(self, attr):
        v = self.lasteff.get(attr, 0)
        if v:
            for L in self.S.loops.values():
                if L.endseq is not None and L.seq < v < L.endseq:
                    v = L.endseq
        if self.loops:
            v = max(v, self.loops[-1].seq)
        return T("state", attr, v + 0.5 if v else 0)

    # ------------------------------------------------------------ entry
    def compile(self, meth, cls_start=None, bind=None):
        ci, fn = self.p.anchor(self.cname, meth) if isinstance(meth, str) else meth
        S = self.S
        S.name, S.cls = fn.name, self.cname
        S.file, S.line = ci.mod.path, fn.lineno
        fr = Frame(fn, ci.mod, ci, f"{ci.name}.{fn.name}")
        self.frames.append(fr)
        d = decos(fn)
        args = fn.args
        names = [a.arg for a in args.posonlyargs + args.args]
        if "staticmethod" in d:
            fr.recv = None
        elif "classmethod" in d:
            fr.env[names[0]] = ClassRef(self.cname)
            fr.recv = ClassRef(self.cname)
            names = names[1:]
        else:
            fr.recv = SelfRef(self.cname, "")
            fr.env[names[0]] = fr.recv
            names = names[1:]
        names += [a.arg for a in args.kwonlyargs]
        for n in names:
            fr.env[n] = (bind or {}).get(n, T("param", n))
        if args.vararg:
            fr.env[args.vararg.arg] = T("param", args.vararg.arg)
        if args.kwarg:
            fr.env[args.kwarg.arg] = T("param", args.kwarg.arg)
            names.append(args.kwarg.arg)
        S.params = names
        pos = args.posonlyargs + args.args
        for a, dv in list(zip(pos[len(pos) - len(args.defaults):], args.defaults)) + \
                [(a, b) for a, b in zip(args.kwonlyargs, args.kw_defaults) if b is not None]:
            try:
                S.defaults[a.arg] = ast.literal_eval(dv)
            except Exception:
                S.defaults[a.arg] = ("?", ast.unparse(dv))
        skip = 0 if "staticmethod" in d else 1
        S.signature = {"pos": [a.arg for a in pos][skip:], "kwonly": [a.arg for a in args.kwonlyargs],
                       "vararg": args.vararg.arg if args.vararg else None,
                       "kwarg": args.kwarg.arg if args.kwarg else None, "defaults": S.defaults}
        self.stack.append((ci.name, fn.name, ""))
        S.sites.append((ci.mod.path, fn.lineno, fr.name))
        self.body(fn, fr)
        S.value = self.retvalue(fr)
        S.fell = fr.live
        return S

    def body(self, fn, fr):
        if is_generator(fn):
            fr.gen = self.newobj("gen", fn)
            fr.gen.lazy = True
        self.block(fn.body)

    def retvalue(self, fr):
        if fr.gen is not None:
            return self.oref(fr.gen)
        val = NONE
        for loops, g, v, line in reversed(fr.rets):
            if loops:
                val = T("loopret", tuple(l.id for l in loops), g, v if isinstance(v, T) else T("static", v), val)
            else:
                val = self.vite(g, v, val)
        return val

    def vite(self, c, a, b):
        if a is b or (not isinstance(a, T) and a == b):
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if not isinstance(a, T):
            a = T("static", a)
        if not isinstance(b, T):
            b = T("static", b)
        return ite(c, a, b)

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts:
            if self.fr.live is FALSE:
                return
            self.stmt(s)
            if self.trystack:
                self.mark()

    def stmt(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} line {s.lineno}")
        m(s)

    def s_Pass(self, s):
        pass

    def s_Import(self, s):
        for a in s.names:
            self.fr.env[a.asname or a.name.split(".")[0]] = T("global", a.name if a.asname else a.name.split(".")[0])

    def s_ImportFrom(self, s):
        for a in s.names:
            self.fr.env[a.asname or a.name] = self.global_name(a.name, (s.module or "", a.name))

    def s_Global(self, s):
        raise Unsupported("global")

    s_Nonlocal = s_Global

    def s_Expr(self, s):
        v = s.value
        if isinstance(v, ast.Constant):
            return
        if isinstance(v, ast.Yield):
            t = self.e(v.value) if v.value else NONE
            self.probe(t, v)
            self.do_yield(t, v)
            return
        if isinstance(v, ast.YieldFrom):
            src = self.e(v.value)
            self.probe(src, v)
            L = self.enter_loop(src, v)
            if L is not None:
                self.do_yield(self.loopval(L), v)
                self.leave_loop(L)
            return
        self.probe(self.e(v), v)

    def do_yield(self, t, node):
        g = self.fr.gen
        f = self.fact("add", (t,), node)
        g.facts.append(f)

    def s_Assert(self, s):
        c = truth(self.e(s.test))
        self.raise_("AssertionError", s, neg(c))

    def s_Return(self, s):
        fr = self.fr
        v = self.e(s.value) if s.value is not None else NONE
        if self.trystack:
            self.probe(v, s)
            self.mark()
        loops = tuple(self.loops[fr.loopbase:])
        g = conj(*self.guards[fr.guardbase:], fr.live)
        fr.rets.append((loops, g, v, s.lineno))
        if len(self.frames) == 1:
            f = self.fact("return", (v,), s)
            self.S.rets.append(f)
        if loops:
            loops[-1].exits.append(fr.live)
        fr.live = FALSE

    def raise_(self, exc, node, cond):
        """raise under cond (relative to the current live path)."""
        fr = self.fr
        g = conj(self.guard(), cond)
        if g is FALSE:
            return
        rel = conj(fr.live, cond)
        here = False
        if self.trystack:
            by = [t for t in reversed(self.trystack) if t.catches(exc) is not None]
            if exc == "?":
                raise Unsupported("re-raise inside try")
        if self.trystack and by:
            self.probe(exc, node, "raise", g)
            here = by[0].frame is fr
        else:
            f = self.fact("raise", (exc,), node, guard=g)
            self.S.raises.append(f)
        loops = self.loops[fr.loopbase:]
        if here:
            pass
        elif loops:
            loops[-1].exits.append(rel)
        else:
            fr.raised.append((conj(*self.guards[fr.guardbase:], rel), exc))
        fr.live = conj(fr.live, neg(cond)) if cond is not TRUE else FALSE

    def s_Raise(self, s):
        exc = "?"
        x = s.exc
        bad = x is not None and message_error(x)
        if bad:
            return self.raise_(bad, s, TRUE)
        if isinstance(x, ast.Call):
            x = x.func
        if isinstance(x, ast.Name):
            exc = x.id
        elif isinstance(x, ast.Attribute):
            exc = x.attr
        self.raise_(exc, s, TRUE)

    def s_FunctionDef(self, s):
        self.fr.env[s.name] = FnVal(s, self.fr.mod, self.fr.cls, None, self.fr, s.name)

    def s_Assign(self, s):
        v = self.e(s.value)
        self.probe(v, s)
        for t in s.targets:
            self.assign(t, v, s)

    def s_AnnAssign(self, s):
        if s.value is not None:
            v = self.e(s.value)
            self.probe(v, s)
            self.assign(s.target, v, s)

    def assign(self, t, v, s):
        if isinstance(t, ast.Name):
            self.fr.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            if any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unsupported("starred target")
            parts = self.unpack(v, n)
            for x, p in zip(t.elts, parts):
                if not (isinstance(v, T) and v.op == "tuple"):
                    self.probe(p, s)
                self.assign(x, p, s)
        elif isinstance(t, ast.Subscript):
            base = self.e(t.value)
            k = self.index(t.slice)
            self.mutate(base, "__setitem__", (k, v), s)
        elif isinstance(t, ast.Attribute):
            base = self.e(t.value)
            self.setattr_(base, t.attr, v, s)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n):
        if isinstance(v, T):
            if v.op == "tuple" and len(v.a) == n:
                return list(v.a)
            if v.op == "const" and isinstance(v.a[0], tuple) and len(v.a[0]) == n:
                return [const(x) for x in v.a[0]]
            if v.op == "ite":
                a, b = self.unpack(v.a[1], n), self.unpack(v.a[2], n)
                return [ite(v.a[0], x, y) for x, y in zip(a, b)]
            u = self.use(v)
            return [self.mkitem(u, const(i)) for i in range(n)]
        raise Unsupported("unpacking")

    def setattr_(self, base, attr, v, node):
        if isinstance(base, SelfRef):
            v = v if isinstance(v, T) else T("static", v)
            f = self.fact("eff", ("setattr", base.prefix + attr, v), node)
            self.S.effects.append(f)
            self.lasteff[base.prefix + attr] = f.seq
            return
        if isinstance(base, T):
            if base.op == "obj" or self.is_param_rooted(base):
                self.mutate(base, "__setattr__", (const(attr), v), node)
                return
        raise Unsupported("attribute store")

    def s_AugAssign(self, s):
        op = BINOP.get(type(s.op))
        if op is None:
            raise Unsupported("augassign")
        t = s.target
        rhs = self.e(s.value)
        self.probe(rhs, s)
        if isinstance(t, ast.Name):
            cur = self.name(t.id, s)
            if isinstance(cur, T) and cur.op == "obj" and self.S.objs[cur.a[0]].kind in ("list", "set"):
                k = self.S.objs[cur.a[0]].kind
                if k == "list" and op == "+":
                    self.mutate(cur, "extend", (rhs,), s)
                    return
                if k == "set" and op == "|":
                    self.mutate(cur, "update", (rhs,), s)
                    return
                raise Unsupported("augassign on object")
            self.fr.env[t.id] = self.binop(op, cur, rhs)
            self.probe(self.fr.env[t.id], s)
            return
        cur = self.e(ast.copy_location(_load(t), t))
        v = self.binop(op, cur, rhs)
        self.assign(t, v, s)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                self.mutate(self.e(t.value), "__delitem__", (self.index(t.slice),), s)
            elif isinstance(t, ast.Name):
                self.fr.env.pop(t.id, None)
            else:
                raise Unsupported("del")

    def s_If(self, s):
        fr = self.fr
        c = truth(self.e(s.test))
        if self.trystack:
            self.probe(c, s)
            self.mark()
        if c is TRUE:
            return self.block(s.body)
        if c is FALSE:
            return self.block(s.orelse)
        live0, env0 = fr.live, fr.env
        fr.env = dict(env0)
        fr.live = conj(live0, c)
        self.block(s.body)
        liveA, envA = fr.live, fr.env
        fr.env = dict(env0)
        fr.live = conj(live0, neg(c))
        self.block(s.orelse)
        liveB, envB = fr.live, fr.env
        self.merge(c, live0, liveA, envA, liveB, envB)

    def merge(self, c, live0, liveA, envA, liveB, envB):
        fr = self.fr
        if liveA is FALSE:
            fr.live, fr.env = liveB, envB
            return
        if liveB is FALSE:
            fr.live, fr.env = liveA, envA
            return
        env = {}
        for k in list(envA) + [k for k in envB if k not in envA]:
            a, b = envA.get(k), envB.get(k)
            if a is None or b is None:
                env[k] = a if a is not None else b
            else:
                env[k] = self.vite(c, a, b)
        fr.env = env
        if liveA is conj(live0, c) and liveB is conj(live0, neg(c)):
            fr.live = live0
        else:
            # exits inside one of the branches: live0 and not(exits)
            ra = self.residual(live0, c, liveA)
            rb = self.residual(live0, neg(c), liveB)
            fr.live = conj(live0, disj(conj(c, ra), neg(c)) if rb is TRUE else
                           disj(c, rb) if ra is TRUE else disj(conj(c, ra), conj(neg(c), rb)))

    @staticmethod
    def residual(live0, c, live):
        base = set()
        for t in (live0, c):
            base |= set(t.a) if t.op == "and" else {t}
        parts = live.a if live.op == "and" else (live,)
        return conj(*[x for x in parts if x not in base])

    def s_With(self, s):
        for it in s.items:
            v = self.e(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, s)
        self.block(s.body)

    def s_Try(self, s):
        fr = self.fr
        if not s.handlers:
            self.block(s.body)
            self.block(s.orelse)
            self.block(s.finalbody)
            return
        kinds = []
        for h in s.handlers:
            ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            kinds.append(None if h.type is None else {x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else "?" for x in ts})
        tr = TryInfo(self.loops, kinds, fr)
        self.S.tries[tr.id] = tr
        env0, live0 = dict(fr.env), fr.live
        self.trystack.append(tr)
        try:
            self.block(s.body)
            if fr.live is not FALSE:
                self.mark()
        finally:
            self.trystack.pop()
        if not tr.probes:
            self.block(s.orelse)
            self.block(s.finalbody)
            return
        if not any(isinstance(x, (ast.Return, ast.Raise, ast.Break, ast.Continue)) for b in s.body for x in [b] + list(walk_scope(b))) and fr.live is not FALSE \
                and not fr.raised:
            fr.live = conj(live0, neg(self.excterm(tr, -1)))
        if self.trystack:
            self.probe(tr.id, s, "try", guard=conj(*self.guards, live0))
        self.block(s.orelse)
        for j, h in enumerate(s.handlers):
            liveA, envA = fr.live, fr.env
            c = self.excterm(tr, j)
            fr.env, fr.live = dict(env0), conj(live0, c)
            if h.name:
                fr.env[h.name] = T("unknown", "exc")
            self.block(h.body)
            self.merge(neg(c), live0, liveA, envA, fr.live, fr.env)
        self.block(s.finalbody)

    # ---- loops
    def assigned(self, node):
        out = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                out.add(n.id)
        # 's |= …' on a set (or 'l += …' on a list) alters the object the name is bound to
        for x in sorted(out):
            v = self.fr.env.get(x)
            k = self.S.objs[v.a[0]].kind if isinstance(v, T) and v.op == "obj" else None
            if k in ("set", "list"):
                ops = [n for n in ast.walk(node) if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == x
                       and isinstance(n.op, ast.BitOr if k == "set" else ast.Add)]
                stores = [n for n in ast.walk(node) if isinstance(n, ast.Name) and n.id == x and isinstance(n.ctx, (ast.Store, ast.Del))]
                if ops and len(ops) == len(stores):
                    out.discard(x)
        return out

    def enter_loop(self, src, node, assigned=(), target=None):
        src = self.iterable(src, node)
        fr = self.fr
        L = Loop(src, "for", getattr(node, "lineno", 0), self.seq, fr.name)
        L.seq = self.tick()
        L.guard = self.guard()
        L.file = fr.mod.path
        self.S.loops[L.id] = L
        L.parents = tuple(l.id for l in self.loops)
        L.init, L.step = {}, {}
        L.saved = fr.live
        L.env0 = dict(fr.env)
        L.targets = set()
        if target is not None:
            L.targets = {n.id for n in ast.walk(target) if isinstance(n, ast.Name)}
        L.assigned = set(assigned)
        self.guards.append(fr.live)
        self.loops.append(L)
        fr.live = TRUE
        L.inits = {}
        for x in L.assigned:
            if x in fr.env and x not in L.targets:
                L.inits[x] = fr.env[x]
                if isinstance(fr.env[x], T):
                    fr.env[x] = T("phi", L.id, x)
        L.conts = []
        return L

    def leave_loop(self, L):
        fr = self.fr
        self.loops.pop()
        self.guards.pop()
        # merge continue environments
        env = fr.env
        live = fr.live
        for c, e in reversed(L.conts):
            if live is FALSE:
                env, live = e, c
            else:
                env = {k: (self.vite(c, e[k], env[k]) if k in e and k in env else e.get(k, env.get(k)))
                       for k in set(env) | set(e)}
                live = disj(c, live)
        after = dict(L.env0)
        for x in sorted(L.assigned | L.targets):
            init = L.inits.get(x)
            step = env.get(x)
            if init is None and x in L.env0:
                init = L.env0[x]
            if step is None:
                continue
            if isinstance(step, T):
                L.step[x] = step
                L.init[x] = init if isinstance(init, T) else T("undef", x)
            after[x] = self.after_value(L, x, init, step)
        fr.env = after
        ex = disj(*L.exits) if L.exits else FALSE
        fr.live = L.saved
        L.endseq = self.tick()
        if ex is not FALSE:
            ext = T("exists", L.id, ex)
            outer = self.loops[fr.loopbase:]
            if outer:
                outer[-1].exits.append(conj(L.saved, ext))
            fr.live = conj(L.saved, neg(ext))

    def after_value(self, L, x, init, step):
        if isinstance(step, T):
            return T("carried", L.id, x)
        return step

    def alternatives(self, t, g=TRUE):
        if t.op == "ite":
            return self.alternatives(t.a[1], conj(g, t.a[0])) + self.alternatives(t.a[2], conj(g, neg(t.a[0])))
        return [(g, t)]

    def loopval(self, L):
        """Value of the loop variable, destructuring what is statically known about the source."""
        return L.var

    def iterable(self, src, node):
        if isinstance(src, SelfRef):
            r = self.p.find(src.cname, "__iter__")
            if r:
                return self.use(self.call_fn(FnVal(r[1], r[0].mod, r[0], src, None, "__iter__"), [], {}, node))
            raise Unsupported("iterating an instance")
        if not isinstance(src, T):
            raise Unsupported("iterating a static value")
        return self.use(src)

    def s_For(self, s):
        asg = set()
        for b in s.body:
            asg |= self.assigned(b)
        src = self.e(s.iter)
        if self.trystack:
            self.probe(src, s)
            self.mark()
        if isinstance(src, T) and src.op == "tuple" and len(src.a) <= 6 and not self.has_break(s):
            return self.unroll(s, list(src.a))
        if isinstance(src, T) and src.op == "obj":
            lit = self.literal_list(src)
            if lit is not None and not self.has_break(s):
                return self.unroll(s, lit)
        tn = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        L = self.enter_loop(src, s, asg | tn, s.target)
        self.assign(s.target, self.loopval(L), s)
        self.block(s.body)
        brk = list(L.breaks)
        self.leave_loop(L)
        if s.orelse:
            if brk:
                ext = T("exists", L.id, disj(*brk))
                fr = self.fr
                live0, env0 = fr.live, dict(fr.env)
                fr.live = conj(live0, neg(ext))
                self.block(s.orelse)
                self.merge(neg(ext), live0, fr.live, fr.env, conj(live0, ext), env0)
            else:
                self.block(s.orelse)

    def literal_list(self, src):
        """Elements of a list/tuple literal object that is never mutated elsewhere (all facts at one place)."""
        o = self.S.objs[src.a[0]]
        if o.kind != "list" or o.init != "literal" or len(o.facts) > 6:
            return None
        if any(f.kind != "add" or f.loops != o.loops or f.line != o.line for f in o.facts):
            return None
        return [f.args[0] for f in o.facts]

    def has_break(self, s):
        st = list(s.body)
        while st:
            n = st.pop()
            if isinstance(n, (ast.Break, ast.Continue)):
                return True
            if not isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.Lambda)):
                st.extend(ast.iter_child_nodes(n))
        return bool(s.orelse)

    def unroll(self, s, elts):
        for x in elts:
            if self.fr.live is FALSE:
                return
            self.assign(s.target, x, s)
            self.block(s.body)

    def s_Break(self, s):
        fr = self.fr
        L = self.loops[-1]
        L.breaks.append(fr.live)
        L.conts.append((fr.live, dict(fr.env)))
        fr.live = FALSE

    def s_Continue(self, s):
        fr = self.fr
        L = self.loops[-1]
        L.conts.append((fr.live, dict(fr.env)))
        fr.live = FALSE

    def s_While(self, s):
        # index loop:  i = a; while i < n: ...; i += 1   (i only changed by the increment)
        r = self.index_while(s)
        if r is None:
            r = self.worklist(s)
            if r:
                return
            raise Unsupported(f"while loop line {s.lineno}")
        name, hi, body = r
        lo = self.name(name, s)
        L = self.enter_loop(T("call", "range", lo, hi), s, set().union(*[self.assigned(b) for b in body]) - {name})
        self.fr.env[name] = L.var
        self.block(body)
        self.leave_loop(L)
        self.fr.env[name] = T("call", "max", lo, hi)

    def index_while(self, s):
        t = s.test
        if s.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Lt)
                            and isinstance(t.left, ast.Name)):
            return None
        i = t.left.id
        if not s.body:
            return None
        inc = s.body[-1]
        ok = isinstance(inc, ast.AugAssign) and isinstance(inc.target, ast.Name) and inc.target.id == i and \
            isinstance(inc.op, ast.Add) and isinstance(inc.value, ast.Constant) and inc.value.value == 1
        if not ok:
            return None
        body = s.body[:-1]
        for b in body:
            if i in self.assigned(b):
                return None
            for n in ast.walk(b):
                if isinstance(n, (ast.Continue, ast.Break)):
                    return None
        hi = self.e(t.comparators[0])
        if not isinstance(hi, T):
            return None
        return i, self.use(hi), body

    def worklist(self, s):
        return False

    # ------------------------------------------------------------ expressions
    def e(self, n):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__} line {getattr(n, 'lineno', 0)}")
        return m(n)

    def et(self, n):
        """expression as a term that is read now"""
        v = self.e(n)
        return self.term(v)

    def term(self, v):
        if isinstance(v, T):
            return self.use(v)
        return T("static", v)

    def e_Constant(self, n):
        return const(n.value)

    def e_Name(self, n):
        return self.name(n.id, n)

    def name(self, x, node):
        fr = self.fr
        f = fr
        while f is not None:
            if x in f.env:
                v = f.env[x]
                return self.refresh(v) if isinstance(v, T) and v.op in ("item", "sd", "ite", "state", "mcall") else v
            f = f.closure
        m = fr.mod
        if x in m.funcs:
            return FnVal(m.funcs[x], m, None, None, None, x)
        if x in m.classes:
            return ClassRef(x)
        if x in m.consts:
            try:
                return const(ast.literal_eval(m.consts[x]))
            except Exception:
                return self.module_value(m, x)
        if x in m.imports:
            return self.global_name(x, m.imports[x])
        # mangled module-level name used inside a class is not resolved by Python either
        if m.undefined(x):
            self.raise_("NameError", node, TRUE)
            return NONE
        return T("global", x)

    def module_value(self, m, x):
        """a module-level table, or another name for a function"""
        v = m.consts[x]
        k = (m.name, x)
        if k not in self.p.tables:
            stores = [n for n in ast.walk(m.tree) if isinstance(n, ast.Name) and n.id == x and not isinstance(n.ctx, ast.Load)]
            touched = any(isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(n.value, ast.Name) and n.value.id == x and (
                not isinstance(n.ctx, ast.Load) or isinstance(n, ast.Attribute) and n.attr in MUTATORS) for n in ast.walk(m.tree))
            self.p.tables[k] = len(stores) == 1 and not touched and isinstance(v, (ast.Dict, ast.Tuple, ast.List, ast.Attribute, ast.Name, ast.Lambda))
        if not self.p.tables[k] or (x in self.tabling):
            return T("global", x)
        fr = Frame(self.fr.fn, m, None, self.fr.name)
        fr.live, fr.loopbase, fr.guardbase = self.fr.live, len(self.loops), len(self.guards)
        self.tabling.append(x)
        self.frames.append(fr)
        try:
            return self.e(v)
        finally:
            self.frames.pop()
            self.tabling.pop()

    def refresh(self, t):
        """A name bound to (a part of) the state denotes the live container, not its value when it was bound."""
        if t.op == "ite":
            return ite(t.a[0], self.refresh(t.a[1]), self.refresh(t.a[2]))
        keys, r = [], t
        while r.op in ("item", "sd") or r.op == "mcall" and r.a[0] == "get":
            g = r.op == "mcall"
            keys.append((r.op,) + r.a[1 + g:])
            r = r.a[g]
            if not isinstance(r, T):
                return t
        if r.op == "obj" and keys:
            return self.refresh_obj(t, r, keys)
        if r.op != "state":
            return t
        attr, v = r.a
        cur = self.state(attr)
        if cur is r or cur.a[1] <= v:
            return t
        d = len(keys)
        for f in self.S.effects:
            if f.seq <= v:
                continue
            if f.args[0] == "setattr":
                if f.args[1] == attr:
                    return t
                continue
            if f.args[0] in ("setdefault", "append", "add", "insert", "extend", "treeop") or not isinstance(f.args[1], T):
                continue
            e, b = 0, f.args[1]
            while b.op in ("item", "sd", "getd", "attr") or b.op == "mcall" and b.a[0] == "get":
                e, b = e + 1, b.a[b.op == "mcall"]
            if b.op == "state" and b.a[0] == attr and e < d:
                return t
        out = cur
        for k in reversed(keys):
            out = self.mkitem(out, k[1]) if k[0] == "item" else T("mcall", "get", out, *k[1:]) if k[0] == "mcall" else T("sd", out, *k[1:])
        return out

    def refresh_obj(self, t, r, keys):
        d, v = len(keys), r.a[1]
        for f in self.S.objs[r.a[0]].facts:
            if f.seq <= v or f.kind in ("add", "add1"):
                continue
            if f.kind != "eff":
                return t
            if f.args[0] in ("setdefault", "append", "add", "insert", "extend") or not isinstance(f.args[1], T):
                continue
            e, b = 0, f.args[1]
            while b.op in ("item", "sd", "getd", "attr") or b.op == "mcall" and b.a[0] == "get":
                e, b = e + 1, b.a[b.op == "mcall"]
            if b.op != "obj" or e < d:
                return t
        out = self.oref(self.S.objs[r.a[0]])
        for k in reversed(keys):
            out = T("mcall", "get", out, *k[1:]) if k[0] == "mcall" else T(k[0], out, *k[1:])
        return out

    def global_name(self, x, imp):
        src, nm = imp
        if nm is None:
            return T("global", src)
        if nm in self.p.classes and src.startswith("dynetworkx"):
            return ClassRef(nm)
        if src in self.p.modules:
            m = self.p.modules[src]
            if nm in m.funcs:
                return FnVal(m.funcs[nm], m, None, None, None, nm)
            if nm in m.consts:
                try:
                    return const(ast.literal_eval(m.consts[nm]))
                except Exception:
                    pass
            if nm in m.imports:
                return self.global_name(nm, m.imports[nm])
        return T("global", nm)

    def e_Tuple(self, n):
        if any(isinstance(x, ast.Starred) for x in n.elts):
            out = []
            for x in n.elts:
                if isinstance(x, ast.Starred):
                    v = self.e(x.value)
                    if isinstance(v, T) and v.op == "tuple":
                        out.extend(v.a)
                    else:
                        out.append(T("star", self.term(v)))
                else:
                    out.append(self.tt(self.e(x)))
            if any(x.op == "star" for x in out):
                return T("tuplecat", *out)
            return T("tuple", *out)
        return T("tuple", *[self.tt(self.e(x)) for x in n.elts])

    def tt(self, v):
        return v if isinstance(v, T) else T("static", v)

    def e_List(self, n):
        return self.literal("list", n)

    def e_Set(self, n):
        return self.literal("set", n)

    def literal(self, kind, n):
        o = self.newobj(kind, n)
        vals = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                src = self.e(x.value)
                vals.append(("ext", src))
            else:
                vals.append(("add", self.tt(self.e(x))))
        o.init = "literal" if all(k == "add" for k, _ in vals) else None
        for k, v in vals:
            if k == "add":
                o.facts.append(self.fact("add", (v,), n))
            else:
                self.mutate(self.oref(o), "extend" if kind == "list" else "update", (v,), n)
        return self.oref(o)

    def e_Dict(self, n):
        o = self.newobj("dict", n)
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.mutate(self.oref(o), "update", (self.e(v),), n)
            else:
                kk, vv = self.tt(self.e(k)), self.tt(self.e(v))
                o.facts.append(self.fact("eff", ("__setitem__", self.oref(o), kk, vv), n))
        return self.oref(o)

    def e_JoinedStr(self, n):
        parts = []
        for x in n.values:
            if isinstance(x, ast.Constant):
                parts.append(const(x.value))
            else:
                if x.format_spec is not None:
                    parts.append(T("call", "format", self.et(x.value), self.et(x.format_spec)))
                else:
                    parts.append(T("call", "str", self.et(x.value)))
        if not parts:
            return const("")
        t = parts[0]
        for p in parts[1:]:
            t = T("bin", "+", t, p)
        return t

    def e_FormattedValue(self, n):
        return T("call", "str", self.et(n.value))

    def e_Lambda(self, n):
        return FnVal(n, self.fr.mod, self.fr.cls, None, self.fr, "<lambda>")

    def e_IfExp(self, n):
        c = truth(self.e(n.test))
        if c is TRUE:
            return self.e(n.body)
        if c is FALSE:
            return self.e(n.orelse)
        fr = self.fr
        live0 = fr.live
        fr.live = conj(live0, c)
        a = self.e(n.body)
        la = fr.live
        fr.live = conj(live0, neg(c))
        b = self.e(n.orelse)
        lb = fr.live
        if la is conj(live0, c) and lb is conj(live0, neg(c)):
            fr.live = live0
        else:
            fr.live = disj(la, lb)
        return self.vite(c, a, b)

    def e_BoolOp(self, n):
        fr = self.fr
        vals = []
        live0 = fr.live
        pre = TRUE
        for x in n.values:
            fr.live = conj(live0, pre)
            keep = fr.live
            v = self.e(x)
            if fr.live is not keep:
                raise Unsupported("exit inside boolean operand")
            vals.append(v)
            if isinstance(v, T):
                pre = conj(pre, truth(v) if isinstance(n.op, ast.And) else neg(v))
        fr.live = live0
        # value semantics when operands are not booleans
        ts = [self.term(v) for v in vals]
        isb = [t.op in ("cmp", "not", "and", "or", "exists", "truth") or (t.op == "const" and isinstance(t.a[0], bool))
               or (t.op == "call" and t.a[0] in ("isinstance", "any", "all")) for t in ts]
        if all(isb):
            return conj(*ts) if isinstance(n.op, ast.And) else disj(*ts)
        out = vals[-1]
        for v, t in list(zip(vals, ts))[-2::-1]:
            c = truth(t)
            out = self.vite(c, out, v) if isinstance(n.op, ast.And) else self.vite(c, v, out)
        return out

    def e_UnaryOp(self, n):
        v = self.e(n.operand)
        if isinstance(n.op, ast.Not):
            if not isinstance(v, T):
                return FALSE
            return neg(self.use(v))
        v = self.term(v)
        if isinstance(n.op, ast.USub):
            if v.op == "const" and isinstance(v.a[0], (int, float)):
                return const(-v.a[0])
            return T("bin", "-", const(0), v)
        if isinstance(n.op, ast.UAdd):
            return v
        raise Unsupported("unary operator")

    def binop(self, op, a, b):
        a, b = self.term(a), self.term(b)
        if a.op == "const" and b.op == "const" and op in "+-*" and \
                isinstance(a.a[0], (int, float, str)) and type(a.a[0]) is type(b.a[0]) and not isinstance(a.a[0], bool):
            try:
                return const(eval_arith(op, a.a[0], b.a[0]))
            except Exception:
                pass
        if op == "+" and a.op == "tuple" and b.op == "tuple":
            return T("tuple", *(a.a + b.a))
        return T("bin", op, a, b)

    def e_BinOp(self, n):
        op = BINOP.get(type(n.op))
        if op is None:
            raise Unsupported("operator")
        a, b = self.e(n.left), self.e(n.right)
        if op == "%" and isinstance(a, T) and a.op == "const" and isinstance(a.a[0], str):
            return T("call", "strformat", a, self.term(b))
        return self.binop(op, a, b)

    def e_Compare(self, n):
        out = []
        left = self.term(self.e(n.left))
        for o, r in zip(n.ops, n.comparators):
            right = self.term(self.e(r))
            out.append(self.cmp(CMP[type(o)], left, right))
            left = right
        return conj(*out)

    def cmp(self, op, a, b):
        if op == "not in":
            return neg(T("cmp", "in", a, b))
        if op == "is not":
            return neg(self.cmp("is", a, b))
        if op == "!=":
            return neg(self.cmp("==", a, b))
        if op in ("is", "=="):
            if a is NONE:
                a, b = b, a
            if b is NONE:
                op = "is"
                if a.op == "const":
                    return const(a.a[0] is None)
                if a.op in ("tuple", "obj", "static", "call") and not (a.op == "call"):
                    return FALSE
            if a.op == "static" and b.op == "static":
                return const(a.a[0] == b.a[0])
            if a.op == "const" and b.op == "const":
                return const(a.a[0] == b.a[0] if op == "==" else a.a[0] is b.a[0])
            if op == "is" and b.op == "const" and isinstance(b.a[0], bool) and a.op == "const":
                return const(a.a[0] is b.a[0])
        if op in (">", ">="):
            return T("cmp", {">": "<", ">=": "<="}[op], b, a)
        return T("cmp", op, a, b)

    def e_NamedExpr(self, n):
        v = self.e(n.value)
        self.assign(n.target, v, n)
        return v

    def index(self, s):
        if isinstance(s, ast.Slice):
            lo = self.term(self.e(s.lower)) if s.lower else NONE
            hi = self.term(self.e(s.upper)) if s.upper else NONE
            if s.step is not None:
                return T("slice", lo, hi, self.term(self.e(s.step)))
            return T("slice", lo, hi)
        return self.tt(self.e(s))

    def e_Slice(self, s):
        return self.index(s)

    def e_Subscript(self, n):
        base = self.e(n.value)
        k = self.index(n.slice)
        if isinstance(base, SelfRef):
            r = self.p.find(base.cname, "__getitem__")
            if r is None:
                raise Unsupported("subscript of instance")
            return self.call_fn(FnVal(r[1], r[0].mod, r[0], base, None, "__getitem__"), [k], {}, n)
        if not isinstance(base, T):
            raise Unsupported("subscript of static")
        d = self.dispatch(base, k)
        return self.mkitem(self.use(base), self.use(k)) if d is None else d

    def dispatch(self, b, k):
        """indexing a literal table of functions: one alternative per key"""
        if b.op == "tuple":
            pairs = list(zip(map(const, range(len(b.a))), b.a))
        elif b.op == "obj" and b.a[1] == 0:
            o = self.S.objs[b.a[0]]
            if o.kind == "list":
                v = self.literal_list(b)
                pairs = list(zip(map(const, range(len(v))), v)) if v is not None else []
            elif o.kind == "dict" and not o.init and o.facts and all(
                    f.kind == "eff" and f.args[0] == "__setitem__" and f.args[2].op == "const" and f.line == o.line for f in o.facts):
                pairs = [(f.args[2], f.args[3]) for f in o.facts]
            else:
                return None
        else:
            return None
        if not pairs or len(pairs) > 8 or not any(v.op in ("static", "global") for _, v in pairs) or k.op == "slice":
            return None
        t = T("unknown", "key")
        for c, v in pairs:
            t = ite(self.cmp("==", self.term(k), c), v, t)
        return t

    def mkitem(self, b, k):
        if b.op == "ite":
            return ite(b.a[0], self.mkitem(b.a[1], k), self.mkitem(b.a[2], k))
        if k.op == "const" and isinstance(k.a[0], int) and not isinstance(k.a[0], bool):
            i = k.a[0]
            if b.op == "tuple" and -len(b.a) <= i < len(b.a):
                return b.a[i]
            if b.op == "const" and isinstance(b.a[0], tuple) and -len(b.a[0]) <= i < len(b.a[0]):
                return const(b.a[0][i])
        if k.op == "slice" and b.op == "tuple":
            if all(x.op == "const" for x in k.a):
                return T("tuple", *b.a[slice(*[x.a[0] for x in k.a])])
        return T("item", b, k)

    def e_Attribute(self, n):
        base = self.e(n.value)
        return self.getattr_(base, n.attr, n)

    def mangle(self, attr):
        if attr.startswith("__") and not attr.endswith("__") and self.fr.cls is not None:
            return attr, self.fr.cls
        return attr, None

    def getattr_(self, base, attr, n):
        if isinstance(base, SelfRef):
            a, priv = self.mangle(attr)
            if priv is not None:
                if a in priv.methods:
                    return self.bind(priv, priv.methods[a], base, a)
            else:
                r = self.p.find(base.cname, a)
                if r:
                    d = decos(r[1])
                    if "property" in d or "cached_property" in d:
                        return self.call_fn(FnVal(r[1], r[0].mod, r[0], base, None, a), [], {}, n)
                    return self.bind(r[0], r[1], base, a)
                for ci in self.p.mro(base.cname):
                    if a in ci.consts:
                        try:
                            return const(ast.literal_eval(ci.consts[a]))
                        except Exception:
                            pass
            if a == "__class__":
                return ClassRef(base.cname)
            ty = self.types_of(base).get(a)
            if ty and ty[0] == "inst":
                return SelfRef(ty[1], base.prefix + a + ".")
            return self.state(base.prefix + a)
        if isinstance(base, ClassRef):
            a, priv = self.mangle(attr)
            if a == "__name__":
                return const(base.name)
            r = (priv, priv.methods[a]) if priv is not None and a in priv.methods else self.p.find(base.name, a)
            if r:
                d = decos(r[1])
                if "classmethod" in d:
                    return FnVal(r[1], r[0].mod, r[0], base, None, a)
                return FnVal(r[1], r[0].mod, r[0], None, None, a)
            return T("attr", T("global", base.name), attr)
        if isinstance(base, T):
            if base.op == "global":
                g = base.a[0]
                if g in ("operator",) and (attr in OPS or attr in ARITH):
                    return T("global", "operator." + attr)
                if g == "dynetworkx" or g.startswith("dynetworkx"):
                    if attr in self.p.classes:
                        return ClassRef(attr)
                    mod = self.p.modules.get(g + "." + attr)
                    if mod:
                        return T("global", g + "." + attr)
                    m = self.p.modules.get(g)
                    if m and attr in m.funcs:
                        return FnVal(m.funcs[attr], m, None, None, None, attr)
                    if m and attr in m.imports:
                        return self.global_name(attr, m.imports[attr])
                return T("global", g + "." + attr)
            if base.op == "slice" and attr in ("start", "stop"):
                return base.a[0 if attr == "start" else 1]
            if base.op == "ite":
                return self.vite(base.a[0], self.getattr_(self.unstatic(base.a[1]), attr, n),
                                 self.getattr_(self.unstatic(base.a[2]), attr, n))
            if base.op == "static":
                return self.getattr_(base.a[0], attr, n)
            return T("attr", self.use(base), attr)
        if isinstance(base, _Super):
            r = self.p.find(base.cname, attr, start=base.start)
            if r is None:
                raise Unsupported("super attribute")
            return self.bind(r[0], r[1], base.recv, attr)
        raise Unsupported("attribute of static value")

    def unstatic(self, t):
        return t.a[0] if isinstance(t, T) and t.op == "static" else t

    def bind(self, ci, fn, recv, name):
        d = decos(fn)
        if "staticmethod" in d:
            return FnVal(fn, ci.mod, ci, None, None, name)
        if "classmethod" in d:
            return FnVal(fn, ci.mod, ci, ClassRef(recv.cname) if isinstance(recv, SelfRef) else recv, None, name)
        return FnVal(fn, ci.mod, ci, recv, None, name)

    def types_of(self, ref):
        if ref.prefix == "" and ref.cname == self.cname:
            return self.state_types
        return self.init_types(ref.cname)

    # ---- comprehensions
    def e_ListComp(self, n):
        return self.comp(n, "list", n.elt)

    def e_SetComp(self, n):
        return self.comp(n, "set", n.elt)

    def e_GeneratorExp(self, n):
        r = self.comp(n, "gen", n.elt)
        self.S.objs[r.a[0]].lazy = True
        return r

    def e_DictComp(self, n):
        return self.comp(n, "dict", (n.key, n.value))

    def comp(self, n, kind, elt):
        fr = self.fr
        o = self.newobj(kind, n)
        saved = dict(fr.env)
        opened = []
        live0 = fr.live
        for g in n.generators:
            src = self.e(g.iter)
            names = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            L = self.enter_loop(src, n, (), g.target)
            opened.append(L)
            self.assign(g.target, self.loopval(L), n)
            for c in g.ifs:
                fr.live = conj(fr.live, truth(self.et(c)))
        if kind == "dict":
            k, v = self.tt(self.e(elt[0])), self.tt(self.e(elt[1]))
            o.facts.append(self.fact("eff", ("__setitem__", self.oref(o), self.use(k), v), n))
        else:
            v = self.tt(self.e(elt))
            o.facts.append(self.fact("add", (v,), n))
        live = live0
        for L in reversed(opened):
            self.loops.pop()
            self.guards.pop()
            L.endseq = self.tick()
            live = L.saved
            if L.exits:
                ext = T("exists", L.id, disj(*L.exits))
                outer = self.loops[fr.loopbase:]
                if outer:
                    outer[-1].exits.append(conj(L.saved, ext))
                live = conj(L.saved, neg(ext))
        fr.env = saved
        fr.live = live
        return self.oref(o)

    # ---- calls
    def e_Call(self, n):
        f = n.func
        # super()
        if isinstance(f, ast.Name) and f.id == "super":
            if n.args:
                a0 = self.e(n.args[0])
                return _Super(self.cname if isinstance(self.fr.recv, SelfRef) else self.fr.recv.name,
                              a0.name, self.fr.recv)
            rc = self.fr.recv
            return _Super(rc.cname if isinstance(rc, SelfRef) else rc.name, self.fr.cls.name, rc)
        if isinstance(f, ast.Attribute):
            base = self.e(f.value)
            if isinstance(base, T) and base.op not in ("global",):
                args, kw = self.callargs(n)
                return self.method(base, f.attr, args, kw, n)
            fv = self.getattr_(base, f.attr, f)
        else:
            fv = self.e(f)
        args, kw = self.callargs(n)
        return self.call(fv, args, kw, n)

    def callargs(self, n):
        args, kw = [], {}
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.e(a.value)
                if isinstance(v, T) and v.op == "tuple":
                    args.extend(v.a)
                elif isinstance(v, T) and v.op == "obj" and self.literal_list(v) is not None:
                    args.extend(self.literal_list(v))
                else:
                    args.append(T("star", self.term(v)))
            else:
                args.append(self.e(a))
        for k in n.keywords:
            kw[k.arg if k.arg is not None else "**"] = self.e(k.value)
        return args, kw

    def either(self, c, yes, no):
        """both alternatives of a call whose shape depends on a condition"""
        fr, live0 = self.fr, self.fr.live
        fr.live = conj(live0, c)
        a = yes() if fr.live is not FALSE else NONE
        la = fr.live
        fr.live = conj(live0, neg(c))
        b = no() if fr.live is not FALSE else NONE
        fr.live = live0 if la is conj(live0, c) and fr.live is conj(live0, neg(c)) else disj(la, fr.live)
        return self.vite(c, a, b)

    def call(self, fv, args, kw, n):
        if isinstance(fv, FnVal):
            v = kw.get("**")
            if isinstance(v, T) and v.op == "ite":
                return self.either(v.a[0], lambda: self.call(fv, args, dict(kw, **{"**": v.a[1]}), n),
                                   lambda: self.call(fv, args, dict(kw, **{"**": v.a[2]}), n))
            return self.call_fn(fv, args, kw, n)
        if isinstance(fv, ClassRef):
            return self.construct(fv, args, kw, n)
        if isinstance(fv, T):
            if fv.op == "static":
                return self.call(fv.a[0], args, kw, n)
            if fv.op == "ite":
                return self.either(fv.a[0], lambda: self.call(fv.a[1], args, kw, n), lambda: self.call(fv.a[2], args, kw, n))
            if fv.op == "global":
                return self.builtin(fv.a[0], args, kw, n)
            if fv.op == "cmpfn":
                return self.cmp(fv.a[0], self.term(args[0]), self.term(args[1]))
            return T("dyncall", self.use(fv), *[self.term(a) for a in args], *self.kwterms(kw))
        raise Unsupported("call of unknown value")

    def kwterms(self, kw):
        return [T("kw", k, self.tt(v) if not isinstance(v, T) else self.use(v)) for k, v in kw.items()]

    def construct(self, c, args, kw, n):
        o = self.newobj("ext", n, c.name)
        o.facts.append(self.fact("call", ("__init__", tuple(self.term(a) for a in args), tuple(self.kwterms(kw))), n))
        return self.oref(o)

    def call_fn(self, fv, args, kw, n):
        """a call whose arguments do not fit the signature raises TypeError"""
        try:
            return self.call_known(fv, args, kw, n)
        except BadCall:
            pass
        self.raise_("TypeError", n, TRUE)
        return NONE

    def call_known(self, fv, args, kw, n):
        fn, ci = fv.fn, fv.cls
        if isinstance(fn, ast.Lambda):
            return self.inline(fv, args, kw, n)
        key = (ci.name if ci else "", fn.name, fv.selfv.prefix if isinstance(fv.selfv, SelfRef) else "")
        # tree mutators are effects with a role (their own contract is another property)
        if isinstance(fv.selfv, SelfRef) and fv.selfv.prefix and not is_generator(fn):
            role = tree_role(self.p, fv.selfv.cname, fn.name)
            if role:
                a = self.bindargs(fv, args, kw)
                pn = [x.arg for x in fn.args.args][1]
                arg = a[pn]
                f = self.fact("eff", ("treeop", fv.selfv.prefix, role, self.tt(arg)), n)
                self.S.effects.append(f)
                for k in ("root", "begin", "end", "number_of_edges", "nodes", ""):
                    self.lasteff[fv.selfv.prefix + k] = f.seq
                return NONE
        if key in self.stack:
            if isinstance(fv.selfv, SelfRef) and is_generator(fn) and fv.selfv.prefix:
                raise _TreeRec(key, self.bindargs(fv, args, kw), fn)
            a = self.bindargs(fv, args, kw)
            if isinstance(fv.selfv, SelfRef) and fv.selfv.prefix == "":
                return T("rcall", fn.name, *[T("kw", k, self.term(v)) for k, v in a.items()])
            raise Unsupported("recursion")
        if isinstance(fv.selfv, SelfRef) and is_generator(fn) and fv.selfv.prefix and self.is_recursive(fn):
            r = self.tree_traversal(fv, self.bindargs(fv, args, kw), n)
            return r
        if len(self.stack) > 24:
            raise Unsupported("call depth")
        return self.inline(fv, args, kw, n)

    def is_recursive(self, fn):
        return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == fn.name
                   for x in walk_scope(fn))

    def bindargs(self, fv, args, kw):
        fn = fv.fn
        A = fn.args
        names = [a.arg for a in A.posonlyargs + A.args]
        env = {}
        args = list(args)
        if fv.selfv is not None:
            args = [fv.selfv] + args
        if any(isinstance(a, T) and a.op == "star" for a in args):
            raise Unsupported("star argument")
        extra = []
        for i, a in enumerate(args):
            if i < len(names):
                env[names[i]] = a
            else:
                extra.append(a)
        if extra and not A.vararg:
            raise BadCall("too many arguments")
        if A.vararg:
            env[A.vararg.arg] = T("tuple", *[self.tt(x) for x in extra])
        kwo = [a.arg for a in A.kwonlyargs]
        rest = {}
        if "**" in kw:
            kw = self.expand(kw)
        for k, v in kw.items():
            if k == "**":
                rest["**"] = v
            elif k in names or k in kwo:
                env[k] = v
            else:
                rest[k] = v
        if A.kwarg:
            node = fn
            o = self.newobj("dict", node, "dict")
            if "**" in rest:
                o.facts.append(self.fact("eff", ("update", self.oref(o), self.term(rest["**"])), node))
            for k, v in rest.items():
                if k != "**":
                    o.facts.append(self.fact("eff", ("__setitem__", self.oref(o), const(k), self.tt(v)), node))
            env[A.kwarg.arg] = self.oref(o)
        elif rest:
            raise (Unsupported if "**" in rest else BadCall)("keyword expansion")
        for a, d in list(zip(names[len(names) - len(A.defaults):], A.defaults)):
            if a not in env:
                env[a] = self.default(d)
        for a, d in zip(kwo, A.kw_defaults):
            if a not in env and d is not None:
                env[a] = self.default(d)
        for a in names + kwo:
            if a not in env:
                raise (Unsupported if "**" in rest else BadCall)(f"missing argument {a}")
        return env

    def expand(self, kw):
        """f(**options) for a dict whose keys are known here"""
        v = kw["**"]
        if not (isinstance(v, T) and v.op == "obj"):
            return kw
        o = self.S.objs[v.a[0]]
        if o.kind != "dict" or o.init not in (None, "literal"):
            return kw
        out = {}
        for f in o.facts:
            if f.kind != "eff" or f.args[0] != "__setitem__" or f.args[1].op != "obj" or not self.is_string(f.args[2]) or \
                    len(f.loops) != len(o.loops) or f.guard is not o.guard:
                return kw
            out[f.args[2].a[0]] = f.args[3]
        rest = {k: x for k, x in kw.items() if k != "**"}
        if set(rest) & set(out):
            return kw
        return dict(rest, **out)

    def default(self, d):
        try:
            v = ast.literal_eval(d)
        except Exception:
            return self.e(d)
        if isinstance(v, tuple):
            return const(v)
        if isinstance(v, (list, dict, set)):
            return self.e(d)
        return const(v)

    def inline(self, fv, args, kw, n):
        fn = fv.fn
        env = self.bindargs(fv, args, kw) if not isinstance(fn, ast.Lambda) else self.bindargs(fv, args, kw)
        nm = f"{fv.cls.name}.{fv.name}" if fv.cls else fv.name
        fr = Frame(fn, fv.mod, fv.cls, nm)
        fr.closure = fv.env
        fr.recv = fv.selfv if fv.selfv is not None else (fv.env.recv if fv.env is not None else None)
        fr.env = env
        caller = self.fr
        self.guards.append(caller.live)
        fr.loopbase = len(self.loops)
        fr.guardbase = len(self.guards)
        if isinstance(fn, ast.Lambda):
            self.frames.append(fr)
            try:
                v = self.e(fn.body)
            finally:
                self.frames.pop()
                self.guards.pop()
            return v
        self.frames.append(fr)
        self.stack.append((fv.cls.name if fv.cls else "", fn.name,
                           fv.selfv.prefix if isinstance(fv.selfv, SelfRef) else ""))
        site = (fv.mod.path, fn.lineno, nm)
        if site not in self.S.sites:
            self.S.sites.append(site)
        try:
            self.body(fn, fr)
            v = self.retvalue(fr)
        finally:
            self.frames.pop()
            self.stack.pop()
            self.guards.pop()
        # raising exits of the callee end the caller's path too
        for r, kind in fr.raised:
            if r is FALSE:
                continue
            loops = self.loops[caller.loopbase:]
            rel = conj(caller.live, r)
            if any(t.frame is caller and t.catches(kind) is not None for t in self.trystack):
                pass
            elif loops:
                loops[-1].exits.append(rel)
            else:
                caller.raised.append((conj(*self.guards[caller.guardbase:], rel), kind))
            if fr.gen is None:
                caller.live = conj(caller.live, neg(r))
        return v

    # ---- tree traversals
    def tree_traversal(self, fv, env, n):
        """A recursive generator over tree nodes: every node reachable through the recursive calls,
        filtered by the guard of its own yield.  The pruning guards are another property's business."""
        fn = fv.fn
        params = [a.arg for a in fn.args.args][1:]
        sp = fv.selfv.prefix
        rec = analyse_traversal(self.p, fv.selfv.cname, fn.name)
        if rec is None:
            raise Unsupported("tree traversal not recognised")
        nodep = rec["node"]
        o = self.newobj("gen", n)
        o.lazy = True
        start = self.term(env[nodep])
        isroot = lambda x: x is NONE or (x.op == "state" and x.a[0] == sp + "root")
        if not all(isroot(x) for g, x in self.alternatives(start)):
            raise Unsupported("traversal does not start at the root")
        L = self.enter_loop(T("treenodes", sp, self.state(sp).a[1]), n, ())
        fr = Frame(fn, fv.mod, fv.cls, f"{fv.cls.name}.{fn.name}")
        fr.recv = fv.selfv
        fr.env = dict(env)
        fr.env[nodep] = L.var
        caller = self.fr
        self.guards.append(caller.live)
        fr.loopbase = len(self.loops)
        fr.guardbase = len(self.guards)
        self.frames.append(fr)
        self.stack.append((fv.cls.name, "#" + fn.name, sp))
        fr.gen = o
        site = (fv.mod.path, fn.lineno, fr.name)
        if site not in self.S.sites:
            self.S.sites.append(site)
        try:
            self.block(rec["own"])
        finally:
            self.frames.pop()
            self.stack.pop()
            self.guards.pop()
        self.leave_loop(L)
        return self.oref(o)

    # ---- methods on terms
    def method(self, base, name, args, kw, n):
        if base.op == "static":
            return self.call(self.getattr_(base.a[0], name, n), args, kw, n)
        if base.op == "ite" and (any(x.op in ("obj", "static") for _, x in self.alternatives(base))):
            fr = self.fr
            live0 = fr.live
            c = base.a[0]
            fr.live = conj(live0, c)
            a = self.method(base.a[1], name, args, kw, n)
            fr.live = conj(live0, neg(c))
            b = self.method(base.a[2], name, args, kw, n)
            fr.live = live0
            return self.vite(c, a, b)
        if base.op == "obj":
            o = self.S.objs[base.a[0]]
            if o.kind == "ext":
                targs = tuple(self.term(a) for a in args)
                kws = tuple(self.kwterms(kw))
                f = self.fact("call", (name, targs, kws), n)
                o.facts.append(f)
                # reads of a locally built object
                return T("extread", o.id, f.seq, name, *targs, *kws)
        owners = [ci for ci in self.p.classes.values() if name in ci.methods]
        if len(owners) == 1 and not any(hasattr(c, name) for c in (dict, list, set, str)) and base.op in ("lv", "item", "attr") and self.plain_values(owners[0]):
            ci = owners[0]
            return self.call_fn(FnVal(ci.methods[name], ci.mod, ci, base, None, name), args, kw, n)
        if name in MUTATORS and not (name == "pop" and base.op == "const") and not self.is_string(base):
            return self.mutate(base, name, tuple(args), n, kw)
        targs = [self.term(a) for a in args]
        if name in ("setdefault",):
            return self.mutate(base, name, tuple(args), n, kw)
        b = self.use(base)
        if name == "copy" and not args and not kw:
            return self.copyof(b, n)
        if base.op != "obj":
            f = self.fact("call", (name, tuple(targs), tuple(self.kwterms(kw)), b), n)
            self.S.extcalls.append(f)
        return T("mcall", name, b, *targs, *self.kwterms(kw))

    def plain_values(self, ci):
        """a helper class whose instances are stored in the index (not a graph)"""
        return not [b for b in ci.bases if b != "object"] and "add_edge" not in ci.methods and "add_snapshot" not in ci.methods

    def copyof(self, t, n, deep=False):
        o = self.newobj("any", n, "deep" if deep else "shallow")
        o.init = ("copyof", t)
        return self.oref(o)

    def is_string(self, t):
        return t.op == "const" and isinstance(t.a[0], str)

    def is_param_rooted(self, t):
        while isinstance(t, T) and t.op in ("item", "attr", "mcall"):
            t = t.a[0] if t.op != "mcall" else t.a[1]
        return isinstance(t, T) and t.op in ("param", "lv")

    def root_of(self, t):
        while isinstance(t, T):
            if t.op in ("item", "attr", "sd", "getd"):
                t = t.a[0]
            elif t.op == "mcall" and t.a[0] == "get":
                t = t.a[1]
            elif t.op in ("use",):
                t = t.a[0]
            else:
                return t
        return t

    def mutate(self, base, name, args, n, kw=None):
        if isinstance(base, SelfRef):
            r = self.p.find(base.cname, name)
            if r:
                return self.call_fn(FnVal(r[1], r[0].mod, r[0], base, None, name), list(args), kw or {}, n)
            raise Unsupported("mutating instance")
        if not isinstance(base, T):
            raise Unsupported("mutation of static")
        if base.op == "ite":
            fr = self.fr
            live0, c = fr.live, base.a[0]
            fr.live = conj(live0, c)
            a = self.mutate(base.a[1], name, args, n, kw)
            fr.live = conj(live0, neg(c))
            b = self.mutate(base.a[2], name, args, n, kw)
            fr.live = live0
            return self.vite(c, a, b) if isinstance(a, T) and isinstance(b, T) else NONE
        root = self.root_of(base)
        kwt = tuple(self.kwterms(kw or {}))
        if root.op == "obj":
            o = self.S.objs[root.a[0]]
            if o.kind == "ext":
                if base.op == "item" and base.a[0].op == "attr" and base.a[0].a[0].op == "obj" and base.a[0].a[1] == "nodes":
                    args = (self.term(base.a[1]),) + tuple(args)
                    name = "nodes[]." + name
                elif base.op != "obj":
                    name = "part." + name
                f = self.fact("call", (name, tuple(self.term(a) for a in args), kwt), n)
                o.facts.append(f)
                return T("extread", o.id, f.seq, name, *[self.term(a) for a in args])
            if base.op == "obj":
                return self.objmut(o, base, name, args, n, kwt)
            targs = tuple(self.tt(a) for a in args)
            f = self.fact("eff", (name, base) + targs + kwt, n)
            o.facts.append(f)
            if name == "setdefault":
                return T("sd", base, targs[0], targs[1] if len(targs) > 1 else NONE)
            if name == "pop":
                return T("popped", f.seq, base, *targs)
            return NONE
        if root.op in ("state", "param", "lv", "treenodes", "mcall", "call", "popped", "global", "phi", "last",
                       "anyof", "getd", "extread", "rcall", "loopret"):
            targs = tuple(self.tt(a) if not isinstance(a, T) else (a if name in ("setdefault",) else self.use(a))
                          for a in args)
            f = self.fact("eff", (name, base) + targs + kwt, n)
            self.S.effects.append(f)
            if root.op == "state":
                self.lasteff[root.a[0]] = f.seq
            else:
                for k in list(self.lasteff):
                    pass
            if name == "setdefault":
                return T("sd", base, targs[0], targs[1] if len(targs) > 1 else NONE)
            if name in ("pop", "popitem"):
                return T("popped", f.seq, base, *targs)
            return NONE
        if root.op in ("tuple", "const", "bin", "unknown", "tuplecat", "carried"):
            raise Unsupported(f"mutation of {root.op}")
        raise Unsupported(f"mutation of {root.op}")

    def objmut(self, o, base, name, args, n, kwt):
        ref = self.oref(o)
        if o.init == "literal":
            o.init = None
        if o.kind in ("list", "set", "gen"):
            if name in ("append", "add"):
                self.addfact(o, self.tt(args[0]), n)
                return NONE
            if name == "appendleft":
                name, args = "insert", (const(0), args[0])
            if name in ("extend", "update"):
                for a in args:
                    L = self.enter_loop(a, n)
                    o.facts.append(self.fact("add", (self.loopval(L),), n))
                    self.leave_loop(L)
                return NONE
            if name in ("sort", "reverse"):
                f = self.fact("order", (name,) + kwt, n)
                o.facts.append(f)
                return NONE
        targs = tuple(self.tt(a) for a in args)
        f = self.fact("eff", (name, ref) + targs + kwt, n)
        o.facts.append(f)
        if name == "setdefault":
            return T("sd", ref, targs[0], targs[1] if len(targs) > 1 else NONE)
        if name in ("pop", "popitem"):
            return T("popped", f.seq, ref, *targs)
        return NONE

    def addfact(self, o, v, n):
        g = self.guard()
        # de-duplication idiom: 'if x not in S: S.add(x)'
        keep, dedup = [], False
        for c in (g.a if g.op == "and" else (g,)):
            if c.op == "not" and c.a[0].op == "cmp" and c.a[0].a[0] == "in" and c.a[0].a[1] is self.use(v) and \
                    c.a[0].a[2].op == "obj" and c.a[0].a[2].a[0] == o.id:
                dedup = True
                continue
            keep.append(c)
        f = self.fact("add1" if dedup else "add", (v,), n, guard=conj(*keep))
        o.facts.append(f)

    # ---- builtins
    def builtin(self, f, args, kw, n):
        short = f.split(".")[-1]
        if f.startswith("operator."):
            if short in OPS:
                return self.cmp(OPS[short], self.term(args[0]), self.term(args[1]))
            if short in ARITH:
                return self.binop(ARITH[short], args[0], args[1])
            if short == "contains":
                return T("cmp", "in", self.term(args[1]), self.term(args[0]))
        if f in ("list", "set", "dict", "tuple", "frozenset", "SortedDict", "OrderedDict", "SortedList", "SortedSet",
                 "deque", "collections.deque", "collections.OrderedDict") or short in ("SortedDict", "OrderedDict",
                                                                                       "defaultdict"):
            kind = {"list": "list", "set": "set", "frozenset": "set", "tuple": "tuple", "deque": "list",
                    "SortedList": "list", "SortedSet": "set"}.get(short, "dict")
            if kind == "tuple":
                if not args:
                    return T("tuple")
                a = self.term(args[0])
                if a.op == "tuple":
                    return a
                return T("call", "tuple", a)
            if short == "defaultdict":
                o = self.newobj("dict", n, "defaultdict")
                if args and isinstance(args[0], T) and args[0].op == "global":
                    o.init = ("default", args[0].a[0])
                else:
                    raise Unsupported("defaultdict factory")
                return self.oref(o)
            o = self.newobj(kind, n, short)
            if kind in ("list", "set") and args:
                L = self.enter_loop(args[0], n)
                o.facts.append(self.fact("add", (self.loopval(L),), n))
                self.leave_loop(L)
            elif kind == "dict":
                if args:
                    o.facts.append(self.fact("eff", ("update", self.oref(o), self.term(args[0])), n))
                for k, v in kw.items():
                    if k == "**":
                        o.facts.append(self.fact("eff", ("update", self.oref(o), self.term(v)), n))
                    else:
                        o.facts.append(self.fact("eff", ("__setitem__", self.oref(o), const(k), self.tt(v)), n))
            return self.oref(o)
        if short in EXTLOG:
            o = self.newobj("ext", n, short)
            o.facts.append(self.fact("call", ("__init__", tuple(self.term(a) for a in args),
                                              tuple(self.kwterms(kw))), n))
            return self.oref(o)
        if f == "isinstance":
            x = args[0]
            if isinstance(x, SelfRef):
                cs = args[1]
                if isinstance(cs, ClassRef):
                    return const(self.p.is_sub(x.cname, cs.name))
            return T("call", "isinstance", self.term(x), self.term(args[1]))
        if f == "type" and len(args) == 1 and isinstance(args[0], SelfRef):
            return ClassRef(args[0].cname)
        if f == "len" and isinstance(args[0], SelfRef):
            r = self.p.find(args[0].cname, "__len__")
            if r is None:
                raise Unsupported("len of instance")
            return self.call_fn(FnVal(r[1], r[0].mod, r[0], args[0], None, "__len__"), [], {}, n)
        if f == "print" or f.endswith("stdout.write") or f.endswith("stderr.write"):
            self.S.prints.append(self.fact("print", (), n))
            return NONE
        if f in ("any", "all") and len(args) == 1:
            a = args[0]
            if isinstance(a, T) and a.op == "obj":
                o = self.S.objs[a.a[0]]
                if o.kind in ("gen", "list") and len(o.facts) == 1 and o.facts[0].kind == "add" and \
                        len(o.facts[0].loops) == len(o.loops) + 1:
                    fa = o.facts[0]
                    L = fa.loops[-1]
                    body = truth(fa.args[0])
                    g = self.rel_guard(fa.guard, L)
                    if f == "any":
                        return T("exists", L.id, conj(g, body))
                    return neg(T("exists", L.id, conj(g, neg(body))))
        if f in ("filter", "map") and len(args) == 2:
            o = self.newobj("gen", n)
            o.lazy = True
            L = self.enter_loop(args[1], n)
            fr = self.fr
            if f == "filter":
                c = truth(self.term(self.call(args[0], [self.loopval(L)], {}, n)))
                fr.live = conj(fr.live, c)
                o.facts.append(self.fact("add", (self.loopval(L),), n))
                fr.live = TRUE
            else:
                o.facts.append(self.fact("add", (self.tt(self.call(args[0], [self.loopval(L)], {}, n)),), n))
            self.leave_loop(L)
            return self.oref(o)
        if f == "setattr" and len(args) == 3 and isinstance(args[1], T) and args[1].op == "const":
            self.setattr_(args[0], args[1].a[0], args[2], n)
            return NONE
        if f == "getattr" and len(args) >= 2 and isinstance(args[1], T) and args[1].op == "const":
            v = self.getattr_(args[0], args[1].a[0], n)
            if len(args) == 3 and isinstance(v, T) and v.op == "state":
                return self.vite(T("hasstate", *v.a), v, args[2])
            return v
        if f == "hasattr" and len(args) == 2 and isinstance(args[0], SelfRef) and isinstance(args[1], T) and args[1].op == "const":
            v = self.getattr_(args[0], args[1].a[0], n)
            if isinstance(v, T) and v.op == "state":
                return T("hasstate", *v.a)
            return TRUE
        if short in ("itemgetter", "attrgetter", "methodcaller") and args and f in (short, "operator." + short):
            return _Getter(short, list(args), dict(kw))
        if f in ("sorted", "min", "max", "heapq.nlargest") and "key" in kw and len(args) == 1 and set(kw) <= {"key", "reverse", "default"}:
            key = kw.pop("key")
            if not (isinstance(key, T) and key is NONE):
                o = self.newobj("list", n)
                L = self.enter_loop(args[0], n)
                x = self.loopval(L)
                o.facts.append(self.fact("add", (T("tuple", self.tt(self.call(key, [x], {}, n)), self.tt(x)),), n))
                self.leave_loop(L)
                return T("call", "keyed_" + f, self.use(self.oref(o)), *self.kwterms(kw))
        if short == "Counter" and f in ("Counter", "collections.Counter") and not kw:
            if not args:
                o = self.newobj("dict", n, "defaultdict")
                o.init = ("default", "int")
                return self.oref(o)
            return self.copyof(T("call", "count_items", self.term(args[0])), n)
        if short == "partial" and args:
            base, pre, pkw = args[0], list(args[1:]), dict(kw)
            return _Partial(self, base, pre, pkw)
        if f in ("dict.fromkeys", "OrderedDict.fromkeys", "collections.OrderedDict.fromkeys"):
            o = self.newobj("dict", n, "OrderedDict")
            L = self.enter_loop(args[0], n)
            o.facts.append(self.fact("eff", ("__setitem__", self.oref(o), self.loopval(L),
                                             self.tt(args[1]) if len(args) > 1 else NONE), n))
            self.leave_loop(L)
            return self.oref(o)
        if short in ("copy", "deepcopy") and len(args) == 1 and f in ("copy", "deepcopy", "copy.copy", "copy.deepcopy"):
            return self.copyof(self.term(args[0]), n, short == "deepcopy")
        targs = [self.term(a) for a in args]
        return T("call", f if f in PUREFN or "." not in f else f, *targs, *self.kwterms(kw))

    def rel_guard(self, g, L):
        pre = set()
        lg = L.guard
        pre |= set(lg.a) if lg.op == "and" else {lg}
        return conj(*[x for x in (g.a if g.op == "and" else (g,)) if x not in pre])


class _Partial(FnVal):
    def __init__(self, comp, base, pre, kw):
        self.comp, self.base, self.pre, self.kw = comp, base, pre, kw
        FnVal.__init__(self, getattr(base, "fn", None), getattr(base, "mod", None))


_orig_call = Compiler.call


class _Getter(FnVal):
    """operator.itemgetter / attrgetter / methodcaller"""
    def __init__(self, kind, args, kw):
        self.kind, self.args, self.kw = kind, args, kw
        FnVal.__init__(self, None, None)

    def get(self, comp, x, n):
        if self.kind == "methodcaller":
            name = self.args[0]
            if not (isinstance(name, T) and name.op == "const"):
                raise Unsupported("methodcaller")
            if isinstance(x, T) and x.op not in ("static", "global"):
                return comp.method(x, name.a[0], self.args[1:], self.kw, n)
            return comp.call(comp.getattr_(x, name.a[0], n), self.args[1:], self.kw, n)
        out = []
        for k in self.args:
            if self.kind == "itemgetter":
                if not isinstance(x, T):
                    raise Unsupported("itemgetter of an instance")
                out.append(comp.mkitem(comp.use(x), comp.use(k)))
            else:
                if not (isinstance(k, T) and k.op == "const"):
                    raise Unsupported("attrgetter")
                y = x
                for part in k.a[0].split("."):
                    y = comp.getattr_(y, part, n)
                out.append(comp.tt(y))
        return out[0] if len(out) == 1 else T("tuple", *out)


def _call(self, fv, args, kw, n):
    if isinstance(fv, _Getter):
        if len(args) != 1 or kw:
            raise Unsupported("getter call")
        return fv.get(self, args[0], n)
    if isinstance(fv, _Partial):
        k = dict(fv.kw)
        k.update(kw)
        return _orig_call(self, fv.base, fv.pre + list(args), k, n)
    return _orig_call(self, fv, args, kw, n)


Compiler.call = _call


class _Super:
    def __init__(self, cname, start, recv):
        self.cname, self.start, self.recv = cname, start, recv


class _TreeRec(Exception):
    pass


def eval_arith(op, a, b):
    return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b}[op]()


def _load(t):
    import copy
    t = copy.deepcopy(t)
    for n in ast.walk(t):
        if hasattr(n, "ctx"):
            n.ctx = ast.Load()
    return t


# ---------------------------------------------------------------- tree roles
def tree_role(prog, cname, meth, seen=None):
    """'add' / 'remove' when the method stores its parameter into / deletes it from a node's edge list."""
    seen = seen or set()
    if meth in seen:
        return None
    seen.add(meth)
    r = prog.find(cname, meth)
    if r is None:
        return None
    fn = r[1]
    params = [a.arg for a in fn.args.args][1:]
    if not params:
        return None
    role = None
    for n in walk_scope(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            f = n.func
            if isinstance(f.value, ast.Attribute) and f.value.attr == "edges" and n.args and \
                    isinstance(n.args[0], ast.Name) and n.args[0].id in params:
                if f.attr in ("append", "add"):
                    role = role or "add"
                elif f.attr in ("remove", "discard", "pop"):
                    role = "remove"
    if role:
        return role
    for n in walk_scope(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                n.func.value.id == "self" and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id in params:
            x = tree_role(prog, cname, n.func.attr, seen)
            if x:
                return x
    return None


def analyse_traversal(prog, cname, meth):
    """Recursive generator  M(node, ...): own statements + recursive 'yield from self.M(node.left|right, ...)'.

    Returns {'node': param, 'own': stmts without recursion, 'rec': [(child, guard conjuncts, stmt, order)]}
    """
    r = prog.find(cname, meth)
    if r is None:
        return None
    fn = r[1]
    params = [a.arg for a in fn.args.args][1:]
    if not params:
        return None
    recs = []

    def rec_call(x):
        """the recursive generator call in a 'yield from' / 'for y in ...: yield y'"""
        if isinstance(x, ast.Expr) and isinstance(x.value, ast.YieldFrom):
            c = x.value.value
        elif isinstance(x, ast.For) and len(x.body) == 1 and isinstance(x.body[0], ast.Expr) and \
                isinstance(x.body[0].value, ast.Yield) and isinstance(x.target, ast.Name) and \
                isinstance(x.body[0].value.value, ast.Name) and x.body[0].value.value.id == x.target.id:
            c = x.iter
        else:
            return None
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == meth:
            return c
        return None

    nodep = None
    own = []
    order = 0

    def bind(c):
        b = {}
        for i, a in enumerate(c.args):
            if i < len(params):
                b[params[i]] = a
        for k in c.keywords:
            b[k.arg] = k.value
        return b

    def walk(stmts, guards, alias):
        nonlocal nodep, order
        out = []
        for s in stmts:
            order += 1
            c = rec_call(s)
            if c is not None:
                b = bind(c)
                hit = None
                for p, a in b.items():
                    if isinstance(a, ast.Name) and a.id in alias:
                        a = alias[a.id]
                    if isinstance(a, ast.Attribute) and a.attr in ("left", "right") and isinstance(a.value, ast.Name) \
                            and a.value.id == p:
                        hit = (p, a.attr)
                if hit is None:
                    return None
                if nodep is not None and nodep != hit[0]:
                    return None
                nodep = hit[0]
                for p, a in b.items():
                    if p != nodep and not (isinstance(a, ast.Name) and a.id == p):
                        return None
                recs.append((hit[1], list(guards), s, order))
                continue
            if isinstance(s, ast.If) and len(s.body) == 1 and isinstance(s.body[0], ast.Return) and s.body[0].value is None and not s.orelse:
                # pruning on the greatest end below a node hides nothing of the node's own: C03 decides that it does not
                ds = s.test.values if isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.Or) else [s.test]
                keep = [x for x in ds if not any(isinstance(y, ast.Attribute) and y.attr == "max" and isinstance(y.value, ast.Name) and
                                                 y.value.id in params for y in ast.walk(x))]
                if len(keep) < len(ds):
                    guards = guards + [(s.test, False)]
                    if keep:
                        out.append(ast.copy_location(ast.If(keep[0] if len(keep) == 1 else ast.BoolOp(ast.Or(), keep), s.body, []), s))
                        ast.fix_missing_locations(out[-1])
                    continue
            if isinstance(s, ast.If):
                a = walk(s.body, guards + [(s.test, True)], alias)
                b = walk(s.orelse, guards + [(s.test, False)], alias)
                if a is None or b is None:
                    return None
                if a or b:
                    n = ast.copy_location(ast.If(test=s.test, body=a or [ast.copy_location(ast.Pass(), s)], orelse=b), s)
                    out.append(n)
                # an early exit guards what follows
                if s.body and isinstance(s.body[-1], (ast.Return,)) and not s.orelse:
                    guards = guards + [(s.test, False)]
                continue
            if any(rec_call(x) is not None for x in ast.walk(s) if isinstance(x, ast.stmt) and x is not s):
                return None
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and \
                    isinstance(s.value, ast.Attribute):
                alias[s.targets[0].id] = s.value
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and \
                    len(s.targets[0].elts) == len(s.value.elts):
                for x, y in zip(s.targets[0].elts, s.value.elts):
                    if isinstance(x, ast.Name) and isinstance(y, ast.Attribute):
                        alias[x.id] = y
            out.append(s)
        return out

    own = walk(fn.body, [], {})
    if own is None or nodep is None or not recs:
        return None
    # leading null test of the node parameter is not part of the own guard
    return {"node": nodep, "own": own, "rec": recs, "fn": fn, "cls": r[0]}
