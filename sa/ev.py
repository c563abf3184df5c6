"""Evaluation of a relational summary under one abstract case.

A case fixes the order type of all times, the identity pattern of all nodes and
the None-ness / flag values of the parameters.  Terms are looked up, facts are
enumerated over the tracked elements; nothing here executes repository code.
"""
import copy
import itertools
import math
import re
import string

from ir import T
import front


class Und(Exception):
    """not decided"""


class ParamEffect(Und):
    """an operation changes an object its caller passed in"""


class PyErr(Exception):
    """the evaluated term raises in Python"""

    def __init__(self, kind, msg=""):
        self.kind, self.msg = kind, msg
        Exception.__init__(self, f"{kind} {msg}")


class G:
    """a global name (type, external function)"""

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, G) and o.n == self.n

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return self.n


class SD(dict):
    """sorted mapping"""

    def __iter__(self):
        return iter(self.sorted())

    def sorted(self):
        try:
            return sorted(dict.keys(self))
        except TypeError:
            raise PyErr("TypeError", "unorderable keys")

    def keys(self):
        return self.sorted()

    def values(self):
        return [dict.__getitem__(self, k) for k in self.sorted()]

    def items(self):
        return [(k, dict.__getitem__(self, k)) for k in self.sorted()]


class TNode:
    def __init__(self, low, high, edges, idx):
        self.low, self.high, self.edges, self.idx = low, high, edges, idx

    def __eq__(self, o):
        return isinstance(o, TNode) and o.idx == self.idx

    def __hash__(self):
        return hash(("TNode", self.idx))


class Ext:
    """an external object built by the function: class name and logged calls"""

    def __init__(self, cls, calls):
        self.cls, self.calls = cls, calls

    def __repr__(self):
        return f"{self.cls}{self.calls}"


class NX:
    """a networkx graph (an external class with known semantics)"""
    CLS = {"Graph": (False, False), "DiGraph": (True, False), "MultiGraph": (False, True), "MultiDiGraph": (True, True)}

    def __init__(self, cls, nodes=None, edges=None):
        self.cls = cls
        self.directed, self.multi = self.CLS[cls]
        self.nodes = nodes if nodes is not None else {}
        self.edges = edges if edges is not None else []

    def key(self):
        ek = sorted(((e[:2] if self.directed else tuple(sorted(e[:2], key=repr))) + (dict(e[2]),) for e in self.edges),
                    key=repr)
        return (self.cls, {n: dict(a) for n, a in self.nodes.items()}, ek)

    def __eq__(self, o):
        return isinstance(o, NX) and self.key() == o.key()

    __hash__ = object.__hash__

    def __repr__(self):
        return f"{self.cls}(nodes={self.nodes}, edges={self.edges})"

    def __deepcopy__(self, memo):
        c = NX(self.cls, {n: dict(a) for n, a in self.nodes.items()}, [(u, v, dict(a)) for u, v, a in self.edges])
        memo[id(self)] = c
        return c

    def addnode(self, n, **attr):
        self.nodes.setdefault(hashable(n), {}).update(attr)

    def addedge(self, u, v, d):
        if u is None or v is None:
            raise PyErr("ValueError", "None cannot be a node")
        self.addnode(u)
        self.addnode(v)
        if not self.multi:
            for e in self.edges:
                if e[:2] == (u, v) or (not self.directed and e[:2] == (v, u)):
                    e[2].update(d)
                    return
        self.edges.append((u, v, dict(d)))

    def call(self, ev, name, args, kw):
        if name == "__init__":
            if args or set(kw) - {"name"}:
                raise Und("graph constructor arguments")
        elif name == "add_edge" and len(args) == 2 and not self.multi:
            self.addedge(args[0], args[1], kw)
        elif name == "add_edge" and len(args) == 2 and not set(kw) & {"key"}:
            self.addedge(args[0], args[1], kw)
        elif name == "add_node" and len(args) == 1:
            self.addnode(args[0], **kw)
        elif name == "add_edges_from" and len(args) == 1:
            for e in ev.iterlist(args[0]):
                e = ev.iterlist(e)
                if len(e) == 2 or (len(e) == 3 and isinstance(e[2], dict)):
                    d = dict(kw)
                    d.update(e[2] if len(e) == 3 else {})
                    self.addedge(e[0], e[1], d)
                else:
                    raise Und("edge tuple form")
        elif name == "add_nodes_from" and len(args) == 1:
            for n in ev.iterlist(args[0]):
                if isinstance(n, (tuple, list)) and len(n) == 2 and isinstance(n[1], dict):
                    self.addnode(n[0], **dict(kw, **n[1]))
                else:
                    self.addnode(n, **kw)
        elif name == "edges":
            d = kw.get("data", args[1] if len(args) > 1 else False)
            if (args and args[0] is not None) or set(kw) - {"data"}:
                raise Und("edges arguments")
            if d is True:
                return [(u, v, a) for u, v, a in self.edges]
            if d is False:
                return [(u, v) for u, v, a in self.edges]
            return [(u, v, a.get(d)) for u, v, a in self.edges]
        elif name == "nodes":
            if args or set(kw) - {"data"}:
                raise Und("nodes arguments")
            return list(self.nodes.items()) if kw.get("data") is True else list(self.nodes)
        elif name == "nodes[].update":
            if args[0] not in self.nodes:
                raise PyErr("KeyError", repr(args[0]))
            self.nodes[args[0]].update(*args[1:], **kw)
        elif name == "nodes[].__setitem__":
            if args[0] not in self.nodes:
                raise PyErr("KeyError", repr(args[0]))
            self.nodes[args[0]][hashable(args[1])] = args[2]
        elif name in ("number_of_nodes", "order", "__len__") and not args:
            return len(self.nodes)
        elif name == "is_directed":
            return self.directed
        elif name == "is_multigraph":
            return self.multi
        elif name == "has_node":
            return args[0] in self.nodes
        elif name in ("number_of_edges", "size") and not args and not kw:
            return len(self.edges)
        elif name == "has_edge" and len(args) == 2 and not kw:
            p = tuple(args)
            return any(e[:2] == p or (not self.directed and e[1::-1] == p) for e in [x[:2] for x in self.edges])
        elif name in ("degree", "in_degree", "out_degree") and len(args) == 1 and not kw and not isinstance(args[0], (list, set, dict)):
            n = args[0]
            if n not in self.nodes:
                raise Und("degree of a missing node")
            if name != "degree" and not self.directed:
                raise PyErr("AttributeError", name)
            out = sum(e[0] == n for e in self.edges)
            inn = sum(e[1] == n for e in self.edges)
            return inn if name == "in_degree" else out if name == "out_degree" else inn + out
        elif name in ("neighbors", "successors", "predecessors") and len(args) == 1 and not kw:
            n = args[0]
            if n not in self.nodes:
                raise PyErr("NetworkXError", "not in the graph")
            if name != "neighbors" and not self.directed:
                raise PyErr("AttributeError", name)
            fw = [e[1] for e in self.edges if e[0] == n] if name != "predecessors" else []
            bw = [e[0] for e in self.edges if e[1] == n] if name == "predecessors" or not self.directed else []
            return Gen(dict.fromkeys(fw + bw))
        else:
            raise Und(f"graph method {name}")
        return None


class Inst:
    """an instance of a class of this repository"""

    def __init__(self, cls, state):
        self.cls, self.state = cls, state

    def __repr__(self):
        return f"<{self.cls} {self.state}>"


TOKENS = []


def token(v):
    """the text form of a value, as one opaque character"""
    if isinstance(v, str):
        return v
    for i, x in enumerate(TOKENS):
        if type(x) is type(v) and x == v:
            return chr(0xE000 + i)
    if len(TOKENS) > 6000:
        raise Und("too many tokens")
    TOKENS.append(v)
    return chr(0xE000 + len(TOKENS) - 1)


def untoken(s):
    s = s.strip()
    if len(s) == 1 and 0xE000 <= ord(s) < 0xE000 + len(TOKENS):
        return TOKENS[ord(s) - 0xE000]
    return None


STRM = {"split", "rsplit", "strip", "rstrip", "lstrip", "find", "rfind", "index", "replace", "join", "startswith",
        "endswith", "partition", "rpartition", "splitlines", "count", "lower", "upper", "isspace", "removeprefix",
        "removesuffix", "isdigit"}


class TNodes(list):
    """the nodes of an interval tree at the start of a walk"""


class Gen(list):
    """an iterator / generator (has no len, always true, not indexable)"""


class Mat(list):
    """a dense or sparse matrix, as a list of rows"""


class View(list):
    """dict view: iterable, no indexing"""


class Model:
    """fitted predictor; which = 0/1 selects the cheaper route"""

    def __init__(self, which):
        self.which = which

    def __repr__(self):
        return f"<model {self.which}>"


class Attr(dict):
    """an attribute dictionary with identity"""

    def __deepcopy__(self, memo):
        c = Attr(self)
        memo[id(self)] = c
        return c


class Opaque:
    """an unknown value; equal only to itself (or to the same operation on the same values)"""

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Opaque) and o.name == self.name

    def __hash__(self):
        return hash(("Opaque", self.name))

    def __lt__(self, o):
        raise TypeError

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return f"<{self.name}>"


def hashable(v):
    if isinstance(v, (list, dict, set)) and not isinstance(v, (tuple, frozenset)):
        raise PyErr("TypeError", "unhashable")
    return v


def _at(t, old, new):
    if t is old:
        return new
    return T(t.op, _at(t.a[0], old, new), *t.a[1:])


ARITY = {
    list: dict(append=(1, 1), extend=(1, 1), insert=(2, 2), pop=(0, 1), remove=(1, 1), index=(1, 3), count=(1, 1), copy=(0, 0),
               clear=(0, 0), reverse=(0, 0), sort=(0, 0)),
    dict: dict(get=(1, 2), keys=(0, 0), values=(0, 0), items=(0, 0), pop=(1, 2), setdefault=(1, 2), update=(0, 1), copy=(0, 0),
               clear=(0, 0), popitem=(0, 0)),
    set: dict(add=(1, 1), remove=(1, 1), discard=(1, 1), pop=(0, 0), copy=(0, 0), clear=(0, 0), issubset=(1, 1), issuperset=(1, 1),
              isdisjoint=(1, 1)),
    str: dict(split=(0, 2), strip=(0, 1), lstrip=(0, 1), rstrip=(0, 1), join=(1, 1), replace=(2, 3), startswith=(1, 3), endswith=(1, 3),
              index=(1, 3), find=(1, 3), rfind=(1, 3), partition=(1, 1), rpartition=(1, 1), lower=(0, 0), upper=(0, 0)),
    tuple: dict(index=(1, 3), count=(1, 1)),
}


class Ev:
    copies = 0

    def __init__(self, S, state, params, prog, cname, hooks=None, run=None, depth=0):
        self.run = run
        self.S = S
        self.base = state
        self.params = params
        self.prog = prog
        self.cname = cname
        self.memo = {}
        self.free = S.__dict__.setdefault("_free", {})
        self.hooks = hooks or {}
        self.depth = depth
        self.busy = set()
        self.cur = None
        self.origin = {}
        self.replays = []           # what the base objects became in each replayed state
        self.steps = 0
        self.noskip = None

    # ---------------------------------------------------------- free loops
    def fl(self, t):
        r = self.free.get(t)
        if r is not None:
            return r
        self.free[t] = frozenset()      # cycle guard
        o = t.op
        out = set()
        if o == "lv":
            out.add(t.a[0])
            out.update(self.S.loops[t.a[0]].parents)
        elif o == "phi":
            L = self.S.loops[t.a[0]]
            out.add(L.id)
            out.update(L.parents)
        elif o in ("exists", "carried", "loopret"):
            ids = t.a[0] if isinstance(t.a[0], tuple) else (t.a[0],)
            for i in ids:
                out.update(self.S.loops[i].parents)
            for x in t.a[1:]:
                if isinstance(x, T):
                    out |= self.fl(x)
            out -= set(ids)
        elif o == "obj":
            ob = self.S.objs[t.a[0]]
            out.update(l.id for l in ob.loops)
            if t.a[1]:
                out.update(self.active(t.a[1], {l.id for f in ob.facts for l in f.loops}))
        elif o in ("state", "treenodes"):
            if t.a[1] and self.S.effects:
                out.update(self.active(t.a[1], None))
        elif o == "exc":
            for i in t.a[1]:
                out.add(i)
                out.update(self.S.loops[i].parents)
        elif o in ("popped", "extread"):
            out.update(self.active(t.a[0] if o == "popped" else t.a[1], None))
            for x in t.a:
                if isinstance(x, T):
                    out |= self.fl(x)
        else:
            for x in t.a:
                if isinstance(x, T):
                    out |= self.fl(x)
        r = frozenset(out)
        self.free[t] = r
        return r

    def active(self, ver, among):
        return [i for i, L in self.S.loops.items() if L.seq < ver and (L.endseq is None or ver < L.endseq)
                and (among is None or i in among)]

    # ---------------------------------------------------------- keys
    def point(self, env, ver):
        key = []
        for i in sorted(self.active(ver, None), key=lambda i: self.S.loops[i].seq):
            if i not in env:
                raise Und("read point outside its loop")
            key += [self.S.loops[i].seq, env[i][0]]
        return tuple(key + [ver])

    def fkey(self, f, env):
        key = []
        for L in f.loops:
            key += [L.seq, env[L.id][0]]
        return tuple(key + [f.seq])

    # ---------------------------------------------------------- loops
    def elements(self, L, env):
        k = ("elems", L.id, tuple((i, env[i][0]) for i in L.parents if i in env))
        r = self.memo.get(k)
        if r is None:
            if k in self.busy:
                raise Und("cyclic loop source")
            self.busy.add(k)
            try:
                r = self.iterlist(self.eval(L.source, env))
            finally:
                self.busy.discard(k)
            if self.hooks.get("reverse") and isinstance(r, list):
                r = list(reversed(r)) if self.hooks["reverse"](L, r) else r
            self.memo[k] = r
        return r

    def iterlist(self, v):
        if isinstance(v, (list, tuple, range)):
            return list(v)
        if isinstance(v, SD):
            return v.sorted()
        if isinstance(v, (dict,)):
            return list(v)
        if isinstance(v, (set, frozenset)):
            return sorted(v, key=repr)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, NX):
            return list(v.nodes)
        if isinstance(v, Ext) and v.cls == "NodeDataView":
            if v.calls[0][2].get("data", False) is False:
                return list(v.calls[0][1][0])
            raise Und("NodeDataView with data")
        if v is None or isinstance(v, (int, float, bool)):
            raise PyErr("TypeError", f"not iterable {v!r}")
        raise Und(f"iteration over {type(v).__name__}")

    def runs(self, L, env):
        """(idx, env) of the iterations that happen, respecting breaks/exits."""
        if not self.truth(self.eval(L.guard, env)):
            return
        stops = list(L.breaks) + list(L.exits)
        for i, x in enumerate(self.elements(L, env)):
            e2 = dict(env)
            e2[L.id] = (i, x)
            yield e2
            if stops and any(self.truth(self.eval(g, e2)) for g in stops):
                return

    def assigns(self, loops, env):
        if not loops:
            yield env
            return
        L = loops[0]
        if L.id in env:
            yield from self.assigns(loops[1:], env)
            return
        for e2 in self.runs(L, env):
            yield from self.assigns(loops[1:], e2)

    def events(self, facts, env, limit=None):
        """(key, fact, env) of every fact instance, in program order, strictly before `limit`."""
        out = []
        for f in facts:
            if limit is not None and not f.loops and f.seq >= limit[0] and len(limit) == 1:
                continue
            for e in self.assigns(f.loops, self.shared(f, env, limit)):
                k = self.fkey(f, e)
                if limit is not None and not k < limit:
                    continue
                if self.truth(self.eval(f.guard, e)):
                    out.append((k, f, e))
        out.sort(key=lambda x: x[0])
        return out

    def shared(self, f, env, limit):
        """bindings of env that also enclose fact f and are not iterated again."""
        return {}

    def obj_events(self, o, env, ver):
        base = {l.id: env[l.id] for l in o.loops if l.id in env}
        if any(l.id not in base for l in o.loops):
            raise Und("object read outside the loop that creates it")
        limit = self.point(env, ver) if ver else None
        out = []
        for f in o.facts:
            if limit is not None and f.seq >= ver and not any(
                    l.seq < ver and (l.endseq is None or ver < l.endseq) and l.id not in base for l in f.loops):
                continue
            for k, e in self.instances(f, limit, base):
                if self.truth(self.eval(f.guard, e)):
                    out.append((k, f, e))
        out.sort(key=lambda x: x[0])
        return out

    # ---------------------------------------------------------- evaluation
    def truth(self, v):
        if v is True:
            return True
        if v is False or v is None:
            return False
        if isinstance(v, (list, tuple, dict, set, frozenset, str, int, float, bool)) or v is None:
            if isinstance(v, Gen):
                return True
            if isinstance(v, dict):
                return dict.__len__(v) > 0
            return bool(v)
        if isinstance(v, Opaque) and v.name == "root":
            return True
        if isinstance(v, (TNode, Model)):
            return True
        if isinstance(v, NX):
            return bool(v.nodes)
        if isinstance(v, Ext):
            if v.cls == "NodeDataView":
                return bool(v.calls[0][1][0])
            raise Und("truth of external object")
        raise Und("truth value")

    def eval(self, t, env):
        if t.op == "const":
            return t.a[0]
        fl = self.free.get(t)
        if fl is None:
            fl = self.fl(t)
        if not fl:
            key = t
        elif len(fl) == 1:
            i, = fl
            key = (t, i, env[i][0]) if i in env else (t,)
        else:
            key = (t, tuple([(i, env[i][0]) for i in sorted(fl) if i in env]))
        m = self.memo.get(key, self)
        if m is not self:
            if isinstance(m, Exception):
                raise m
            return m
        self.steps += 1
        if self.steps > 200000:
            raise Und("evaluation too large")
        try:
            v = getattr(self, "x_" + t.op, self.x_default)(t, env)
        except PyErr as ex:
            self.memo[key] = ex
            raise
        except RecursionError:
            raise Und("recursion")
        self.memo[key] = v
        return v

    def x_default(self, t, env):
        raise Und(f"term {t.op}")

    def x_param(self, t, env):
        if t.a[0] not in self.params:
            raise Und(f"parameter {t.a[0]}")
        return self.params[t.a[0]]

    def x_static(self, t, env):
        v = t.a[0]
        if isinstance(v, front.ClassRef):
            return G(v.name)
        if isinstance(v, front.FnVal) or isinstance(v, front.SelfRef):
            return v
        raise Und("static value")

    def x_global(self, t, env):
        n = t.a[0]
        if n in ("math.inf", "inf", "numpy.inf", "np.inf", "float.inf"):
            return float("inf")
        if n in ("math.nan",):
            return float("nan")
        return G(n.split(".")[-1])

    def x_exc(self, t, env):
        """has the body of this try statement raised an exception (that handler j takes) before this point?"""
        tr = self.S.tries[t.a[0]]
        first = self.first_raise(tr, {i: env[i] for i in tr.loops if i in env}, self.point(env, t.a[2]))
        if first is None:
            return False
        j = tr.catches(first.kind)
        if j is None:
            raise first
        return t.a[3] in (-1, j)

    def first_raise(self, tr, base, limit):
        mk = ("raise", tr.id, tuple((i, v[0]) for i, v in sorted(base.items())), limit)
        if mk in self.memo:
            return self.memo[mk]
        if mk in self.busy:
            raise Und("cyclic exception")
        self.busy.add(mk)
        try:
            todo = []
            for f in tr.probes:
                try:
                    for k, e in self.instances(f, limit, base):
                        todo.append((k, f, e))
                except PyErr:
                    pass        # of a loop source, which is probed itself
            todo.sort(key=lambda x: x[0])
            out = None
            for k, f, e in todo:
                try:
                    if not self.truth(self.eval(f.guard, e)):
                        continue
                    if f.kind == "raise":
                        raise PyErr(f.args[0], "raised")
                    if f.kind == "try":
                        inner = self.S.tries[f.args[0]]
                        ex = self.first_raise(inner, {i: e[i] for i in inner.loops if i in e}, k)
                        if ex is not None and inner.catches(ex.kind) is None:
                            raise ex
                    elif f.kind == "value":
                        self.eval(f.args[0], e)
                    else:
                        self.dry(f, e)
                except PyErr as ex:
                    out = ex
                    break
        finally:
            self.busy.discard(mk)
        self.memo[mk] = out
        return out

    def dry(self, f, env):
        """PyErr when this mutation raises"""
        o = self.S.factobj().get(id(f))
        saved, self.noskip = self.noskip, (f, self.fkey(f, env))
        try:
            if o is None:
                self.state_at(self.point(env, f.seq + 0.5))
            elif o.kind != "ext":
                self.eval(T("obj", o.id, f.seq + 0.5), env)
        finally:
            self.noskip = saved

    def skipped(self, f, ex, k):
        """an exception of this mutation is caught by a try statement around it"""
        return (f, k) != self.noskip and any(self.S.tries[i].catches(ex.kind) is not None for i in f.tries)

    def x_lv(self, t, env):
        if t.a[0] not in env:
            raise Und("unbound loop variable")
        return env[t.a[0]][1]

    def x_phi(self, t, env):
        L = self.S.loops[t.a[0]]
        x = t.a[1]
        if L.id not in env:
            raise Und("unbound loop")
        i = env[L.id][0]
        if i == 0:
            if x not in L.init:
                raise Und("no initial value")
            return self.eval(L.init[x], env)
        els = self.elements(L, env)
        e2 = dict(env)
        e2[L.id] = (i - 1, els[i - 1])
        return self.eval(L.step[x], e2)

    def x_carried(self, t, env):
        L = self.S.loops[t.a[0]]
        last = None
        for e2 in self.runs(L, {k: v for k, v in env.items() if k != L.id}):
            last = e2
        if last is None:
            return self.eval(L.init[t.a[1]], env)
        return self.eval(L.step[t.a[1]], last)

    def x_undef(self, t, env):
        raise PyErr("UnboundLocalError", t.a[0])

    def x_exists(self, t, env):
        L = self.S.loops[t.a[0]]
        env = {k: v for k, v in env.items() if k != L.id}
        for e2 in self.runs(L, env):
            if self.truth(self.eval(t.a[1], e2)):
                return True
        return False

    def x_loopret(self, t, env):
        ids, g, v, rest = t.a
        loops = [self.S.loops[i] for i in ids]
        for e in self.assigns(loops, {k: x for k, x in env.items() if k not in ids}):
            if self.truth(self.eval(g, e)):
                return self.eval(v, e)
        return self.eval(rest, env)

    def x_state(self, t, env):
        attr, ver = t.a
        if attr not in self.base:
            st = self.grown(attr, ver, env)
            if st is not None:
                if attr in st:
                    return st[attr]
                raise PyErr("AttributeError", attr)
            self.missing(attr)
            raise Und(f"state {attr}")
        if not ver or not self.S.effects:
            return self.base[attr]
        st = self.state_at(self.point(env, ver))
        return st[attr]

    def grown(self, attr, ver, env):
        """the state that decides whether an attribute that only other methods set is there, if that is known"""
        if self.run is None or self.hooks.get("init") or "." in attr or not self.base.get("#grown") or \
                attr not in self.run.live(self.cname):
            return None
        return self.state_at(self.point(env, ver)) if ver and self.S.effects else self.base

    def x_hasstate(self, t, env):
        attr, ver = t.a
        if attr in self.base:
            return True
        st = self.grown(attr, ver, env)
        if st is not None:
            return attr in st
        try:
            self.missing(attr)
        except PyErr:
            return False
        raise Und(f"state {attr}")

    def missing(self, attr):
        """AttributeError when no method of the class but a constructor that does not run sets the attribute"""
        if self.run is None or self.hooks.get("init") or not self.base or "." in attr or attr.startswith("#"):
            return
        if self.run.never_set(self.cname, attr):
            raise PyErr("AttributeError", attr)

    def x_treenodes(self, t, env):
        if not t.a[1] or not self.S.effects:
            return self.base["#treenodes"]
        return self.state_at(self.point(env, t.a[1]))["#treenodes"]

    def state_at(self, limit):
        key = ("state", limit)
        if key in self.memo:
            return self.memo[key]
        if key in self.busy:
            raise Und("cyclic state read")
        self.busy.add(key)
        try:
            ev = []
            for f in self.S.effects:
                if limit is not None:
                    # cheap static pruning: no instance can precede the limit
                    first = f.loops[0].seq if f.loops else f.seq
                    if first > limit[0]:
                        continue
                for k, e in self.instances(f, limit):
                    if self.truth(self.eval(f.guard, e)):
                        ev.append((k, f, e))
            ev.sort(key=lambda x: x[0])
            saved = getattr(self, "cur", None)
            self.cur = ({}, {})
            self.replays.append(self.cur[0])
            try:
                st = copy.deepcopy(self.base, self.cur[0])
                walks = {}
                for k, f, e in ev:
                    if f.loops and self.walked(st, walks, k, f, e):
                        continue
                    try:
                        self.apply_effect(st, f, e)
                    except PyErr as ex:
                        if not self.skipped(f, ex, k):
                            raise
                    if walks:
                        self.left(walks, None)
                if walks:
                    self.left(walks, limit or ())
                if limit is None:
                    self.origin = self.cur[0]
            finally:
                self.cur = saved
        finally:
            self.busy.discard(key)
        self.memo[key] = st
        return st

    # ---- containers that are changed while a loop walks them
    def walked(self, st, walks, k, f, e):
        """note what the loops around an effect walk; true when the iteration of the effect does not happen
        because the list it walks got shorter"""
        self.left(walks, k)
        pre = ()
        for L in f.loops:
            pre += (L.seq, e[L.id][0])
            inst = pre[:-1]
            w = walks.get(inst)
            if w is None:
                out = []
                self.live(L.source, st, {i: x for i, x in e.items() if i != L.id}, out, False, 0)
                if not out:
                    continue
                w = walks[inst] = {"on": out, "skip": set(), "loop": L}
            elif w.get("stale") and w["at"] != pre:
                raise PyErr("RuntimeError", "changes what it is walking through and goes on")
            w["at"], w["env"] = pre, {i: x for i, x in e.items()}
            w["env"][L.id] = e[L.id]
            if pre[-1] in w["skip"]:
                return True
        return False

    def left(self, walks, k):
        """the iterations that are over before event k (None: none is over, only remember what became shorter)"""
        if k is None:
            return
        for inst, w in list(walks.items()):
            at = w.get("at")
            if at is None or k and tuple(k[:len(at)]) == at:
                continue
            gone = [x for x in w["on"] if self.size(x[1]) != x[2]]
            if gone:
                hard = [x for x in gone if x[0] == "dict"]
                lists = [x for x in gone if x[0] == "list"]
                L = w["loop"]
                if hard or lists:
                    if any(self.truth(self.eval(g, w["env"])) for g in list(L.breaks) + list(L.exits)):
                        pass
                    elif hard:
                        raise PyErr("RuntimeError", "changed size during iteration")
                    else:
                        d = lists[0][2] - self.size(lists[0][1])
                        if d < 0:
                            raise Und("list grows while it is walked")
                        w["skip"] |= {at[-1] + 1 + j for j in range(d)}
                        w["on"] = [(a, c, self.size(c)) for a, c, _ in w["on"]]
                elif any(self.size(x[1]) > x[2] for x in gone):
                    raise Und("a container grows while it is walked")
                else:
                    w["stale"] = True
            if not k or tuple(k[:len(inst)]) != inst:
                del walks[inst]

    @staticmethod
    def size(c):
        return sum(len(n.edges) for n in c) if isinstance(c, TNodes) else len(c)

    def live(self, src, st, env, out, soft, depth):
        """containers of the state that a loop over src walks directly"""
        if depth > 4:
            return
        if src.op == "mcall" and len(src.a) >= 2 and src.a[0] in ("keys", "values", "items", "irange"):
            soft = soft or src.a[0] == "irange"
            src = src.a[1]
        if src.op in ("state", "item"):
            try:
                c = self.path(src, st, env)
            except (Und, PyErr):
                return
            if isinstance(c, SD):
                soft = True
            if isinstance(c, (dict, set)) or type(c) is list:
                out.append(("soft" if soft else "list" if isinstance(c, list) else "dict", c, len(c)))
        elif src.op == "treenodes" and soft:
            c = TNodes(st["#treenodes"])
            c.of = st
            out.append(("soft", c, self.size(c)))
        elif src.op == "obj" and self.S.objs[src.a[0]].kind == "gen" and self.S.objs[src.a[0]].lazy:
            for f in self.S.objs[src.a[0]].facts:
                for i, L in enumerate(f.loops):
                    if L.id in env:
                        continue
                    try:
                        for e2 in list(self.assigns([x for x in f.loops[:i] if x.id not in env], dict(env))):
                            self.live(L.source, st, e2, out, True, depth + 1)
                    except (Und, PyErr):
                        return

    def instances(self, f, limit, base=None):
        """instances of f before limit without evaluating later iterations."""
        def rec(loops, env, pre):
            if not loops:
                k = pre + (f.seq,)
                if limit is None or k < limit:
                    yield k, env
                return
            L = loops[0]
            p2 = pre + (L.seq,)
            if L.id in env:
                yield from rec(loops[1:], env, p2 + (env[L.id][0],))
                return
            if limit is not None and not p2 <= limit[:len(p2)]:
                return
            if not self.truth(self.eval(L.guard, env)):
                return
            stops = list(L.breaks) + list(L.exits)
            for i, x in enumerate(self.elements(L, env)):
                p3 = p2 + (i,)
                if limit is not None and not p3 <= limit[:len(p3)]:
                    return
                e2 = dict(env)
                e2[L.id] = (i, x)
                yield from rec(loops[1:], e2, p3)
                if stops and (limit is None or p3 < limit[:len(p3)]) and \
                        any(self.truth(self.eval(g, e2)) for g in stops):
                    return
        yield from rec(list(f.loops), dict(base or {}), ())

    # ---- effects
    def path(self, base, st, env):
        """Python container denoted by an effect target, in the current state."""
        try:
            return self.path1(base, st, env)
        except Und:
            # a container reached in another way: its counterpart in this replay
            v = self.eval(base, env)
            if not isinstance(v, (dict, list, set)) or self.cur is None or id(v) in self.caller_owned():
                raise
            memo = self.cur[0]
            if id(v) in memo:
                return memo[id(v)]
            for m in self.replays:
                for i, x in m.items():
                    if x is v and i in memo:
                        return memo[i]
            raise

    def path1(self, base, st, env):
        o = base.op
        if o == "state":
            if base.a[0] not in st:
                if st.get("#grown") and base.a[0] in self.run.live(self.cname):
                    raise PyErr("AttributeError", base.a[0])
                self.missing(base.a[0])
                raise Und(f"state {base.a[0]}")
            return st[base.a[0]]
        if o == "item":
            c = self.path(base.a[0], st, env)
            k = self.eval(base.a[1], env)
            return self.getitem(c, k)
        if o == "sd":
            c = self.path(base.a[0], st, env)
            k = self.eval(base.a[1], env)
            if k not in c:
                c[hashable(k)] = self.evalref(base.a[2], env)
            return c[k]
        if o == "mcall" and base.a[0] == "get":
            c = self.path(base.a[1], st, env)
            k = self.eval(base.a[2], env)
            return c[k] if k in c else (self.eval(base.a[3], env) if len(base.a) > 3 else None)
        raise Und(f"effect target {o}")

    def caller_owned(self):
        """ids of the containers the caller passed in"""
        if getattr(self, "mine", None) is None:
            kwarg, vararg = self.S.signature["kwarg"], self.S.signature["vararg"]
            mine = {}

            def walk(x):
                if isinstance(x, (list, tuple, set, dict)):
                    if id(x) not in mine:
                        mine[id(x)] = x
                        for y in (dict.values(x) if isinstance(x, dict) else x):
                            walk(y)
                elif isinstance(x, NX):
                    for y in x.nodes.values():
                        walk(y)
                    for y in x.edges:
                        walk(y[2])
                elif isinstance(x, Inst):
                    for y in x.state.values():
                        walk(y)
            for n, x in self.params.items():
                if n == kwarg:
                    for y in dict.values(x):
                        walk(y)
                elif n == vararg:
                    for y in x:
                        walk(y)
                else:
                    walk(x)
            self.mine = mine
        return self.mine

    def evalref(self, t, env):
        """value of t as a reference that may be stored: one copy per state replay."""
        if t.op == "ite":
            return self.evalref(t.a[1] if self.truth(self.eval(t.a[0], env)) else t.a[2], env)
        if t.op == "sd":
            r = t
            while r.op in ("item", "sd"):
                r = r.a[0]
            if r.op != "state" or self.replayed is None:
                raise Und("value of setdefault")
            return self.path(t, self.replayed, env)     # the very container the graph holds
        v = self.eval(t, env)
        if not isinstance(v, (dict, list, set)) or self.cur is None:
            return v
        memo, objs = self.cur
        if t.op == "obj":
            o = self.S.objs[t.a[0]]
            k = (o.id, tuple(env[l.id][0] for l in o.loops if l.id in env))
            if k in objs:
                if objs[k][0] is v or objs[k][0] == v:
                    return objs[k][1]
                raise Und("stored object changes afterwards")
            c = copy.deepcopy(v, memo)
            objs[k] = (v, c)
            return c
        if id(v) not in memo:
            # a container read out of an earlier state of this run: the one that stands for it now
            for m in self.replays:
                for i, x in m.items():
                    if x is v and i in memo:
                        return memo[i]
        return copy.deepcopy(v, memo)

    replayed = None

    def apply_effect(self, st, f, env):
        op = f.args[0]
        self.replayed = st
        if op == "setattr":
            if f.args[1] not in st and not self.hooks.get("init") and not (st.get("#grown") and f.args[1] in self.run.live(self.cname)):
                raise Und(f"state {f.args[1]}")
            if f.args[2].op == "obj" and self.S.objs[f.args[2].a[0]].kind == "ext" and \
                    self.S.objs[f.args[2].a[0]].cls in self.prog.classes and self.hooks.get("init"):
                return None
            st[f.args[1]] = self.evalref(f.args[2], env)
            return None
        if op == "treeop":
            pre, role, arg = f.args[1:4]
            self.treeop(st, role, self.eval(arg, env))
            return None
        try:
            c = self.path(f.args[1], st, env)
        except Und:
            self.param_effect(op, f, env)
            raise
        if self.stored_of_caller(c):
            c0 = copy.deepcopy(c)
            self.mutop(c0, op, f.args[2:], env)
            if c0 != c:
                raise ParamEffect(f"the caller's object, stored in the graph, is changed by {op} at line {f.line}")
        return self.mutop(c, op, f.args[2:], env)

    def stored_of_caller(self, c):
        memo = self.cur[0] if self.cur else {}
        return any(memo.get(i) is c for i in self.caller_owned() if i in memo)

    def param_effect(self, op, f, env):
        """a reached mutation that changes an object the caller passed in"""
        v = self.eval(f.args[1], env)
        mine = self.caller_owned()
        if not isinstance(v, (list, set, dict)) or id(v) not in mine:
            return
        c = copy.deepcopy(v)
        self.mutop(c, op, f.args[2:], env)
        if c != v:
            raise ParamEffect(f"the caller's object is changed by {op} at line {f.line}")

    def treeop(self, st, role, e):
        nodes = st["#treenodes"]
        if role == "add":
            for n in nodes:
                if (n.low, n.high) == (e[2], e[3]):
                    n.edges.append(e)
                    break
            else:
                nodes.append(TNode(e[2], e[3], [e], ("new", e[2], e[3])))
                nodes.sort(key=lambda n: (n.low, n.high))
        else:
            for n in list(nodes):
                if (n.low, n.high) == (e[2], e[3]):
                    if e in n.edges:
                        n.edges.remove(e)
                        if not n.edges:
                            nodes.remove(n)
                    break
            else:
                raise PyErr("KeyError", "tree.remove")
        st["tree.root"] = Opaque("root") if nodes else None
        st["tree.begin"] = min([n.low for n in nodes], default=float("inf"))
        st["tree.end"] = max([n.high for n in nodes], default=float("-inf"))
        st["tree.number_of_edges"] = sum(len(n.edges) for n in nodes)
        st["tree.nodes"] = {(n.low, n.high): n for n in nodes}
        st.setdefault("#treelog", []).append((role, e))

    def mutop(self, c, op, args, env):
        kws = {a.a[0]: a.a[1] for a in args if a.op == "kw"}
        args = [a for a in args if a.op != "kw"]
        av = [self.evalref(a, env) for a in args]
        if isinstance(c, dict):
            if op == "__setitem__":
                c[hashable(av[0])] = av[1]
                return None
            if op == "__delitem__":
                if av[0] not in c:
                    raise PyErr("KeyError", repr(av[0]))
                del c[av[0]]
                return None
            if op == "pop":
                if av[0] in c:
                    return dict.pop(c, av[0])
                if len(av) > 1:
                    return av[1]
                raise PyErr("KeyError", repr(av[0]))
            if op == "setdefault":
                return c.setdefault(hashable(av[0]), av[1] if len(av) > 1 else None)
            if op == "update":
                for x in av:
                    if isinstance(x, dict):
                        c.update(dict(x.items()))
                    else:
                        for p in self.iterlist(x):
                            c[p[0]] = p[1]
                for k, v in kws.items():
                    if k == "**":
                        c.update(self.eval(v, env))
                    else:
                        c[k] = self.eval(v, env)
                return None
            if op == "clear":
                c.clear()
                return None
        if isinstance(c, list) and not isinstance(c, (Gen, View)):
            if op == "append":
                c.append(av[0])
                return None
            if op in ("extend",):
                c.extend(self.iterlist(av[0]))
                return None
            if op == "insert":
                c.insert(av[0], av[1])
                return None
            if op == "remove":
                if av[0] not in c:
                    raise PyErr("ValueError", "remove")
                c.remove(av[0])
                return None
            if op == "pop":
                if not c:
                    raise PyErr("IndexError", "pop")
                return c.pop(*av)
            if op == "clear":
                c.clear()
                return None
            if op == "__setitem__":
                try:
                    c[av[0]] = av[1]
                except IndexError:
                    raise PyErr("IndexError")
                return None
            if op == "__delitem__":
                try:
                    del c[av[0]]
                except IndexError:
                    raise PyErr("IndexError")
                return None
            if op == "sort":
                try:
                    c.sort()
                except TypeError:
                    raise PyErr("TypeError")
                return None
            if op == "reverse":
                c.reverse()
                return None
        if isinstance(c, set):
            if op == "add":
                c.add(hashable(av[0]))
                return None
            if op == "discard":
                c.discard(av[0])
                return None
            if op == "remove":
                if av[0] not in c:
                    raise PyErr("KeyError", "set.remove")
                c.remove(av[0])
                return None
            if op == "update":
                for x in av:
                    c.update(self.iterlist(x))
                return None
            if op == "difference_update":
                for x in av:
                    c.difference_update(self.iterlist(x))
                return None
            if op == "clear":
                c.clear()
                return None
            if op in ("append", "setdefault"):
                raise PyErr("AttributeError", op)
        if c is None:
            raise PyErr("AttributeError", f"None.{op}")
        raise Und(f"mutation {op} on {type(c).__name__}")

    # ---- objects
    def x_obj(self, t, env):
        o = self.S.objs[t.a[0]]
        key = ("obj", t, tuple((i, env[i][0]) for i in sorted(self.fl(t)) if i in env))
        if key in self.busy:
            raise Und("cyclic object")
        self.busy.add(key)
        saved = self.cur
        try:
            ev = self.obj_events(o, env, t.a[1])
            # effects reaching into stored containers work on private copies
            deep = any(f.kind == "eff" and f.args[1].op != "obj" for f in o.facts)
            self.cur = ({}, {}) if deep else None
            if o.kind == "ext":
                calls = []
                for k, f, e in ev:
                    if f.kind != "call":
                        raise Und("effect on external object")
                    args = []
                    for a in f.args[1]:
                        if a.op == "star":
                            args.extend(self.iterlist(self.eval(a.a[0], e)))
                        else:
                            args.append(self.eval(a, e))
                    args, kw = tuple(args), {}
                    for a in f.args[2]:
                        if a.a[0] == "**":
                            kw.update(self.eval(a.a[1], e))
                        else:
                            kw[a.a[0]] = self.eval(a.a[1], e)
                    calls.append((f.args[0], args, kw))
                return self.instance(o.cls, calls)
            if o.kind == "any":
                v = self.eval(o.init[1], env)
                if isinstance(v, Opaque) and not ev:
                    return self.opcopy(v)
                if isinstance(v, NX) and not ev:
                    return copy.deepcopy(v)
                if not isinstance(v, (dict, list, set)):
                    if ev:
                        raise Und("copied value")
                    return v
                if o.cls == "deep":
                    c = copy.deepcopy(v)
                else:
                    c = dict(v) if type(v) is Attr else copy.copy(v)
            elif o.kind == "dict":
                c = SD() if o.cls == "SortedDict" else {}
            elif o.kind == "set":
                c = set()
            else:
                c = []
            for k, f, e in ev:
                if f.kind in ("add", "add1"):
                    v = self.evalref(f.args[0], e)
                    if o.kind == "set":
                        c.add(hashable(v))
                    elif f.kind == "add" or v not in c:
                        c.append(v)
                elif f.kind == "order":
                    if f.args[0] == "sort":
                        if len(f.args) > 1:
                            raise Und("keyed sort")
                        try:
                            c.sort()
                        except TypeError:
                            raise PyErr("TypeError")
                    else:
                        c.reverse()
                elif f.kind == "eff":
                    try:
                        self.objeff(o, c, f, e)
                    except PyErr as ex:
                        if not self.skipped(f, ex, k):
                            raise
                else:
                    raise Und(f"fact {f.kind}")
            if o.kind == "gen":
                return Gen(c)
            return c
        finally:
            self.cur = saved
            self.busy.discard(key)

    def instance(self, cls, calls):
        if cls in NX.CLS:
            g = NX(cls)
            for name, args, kw in calls:
                g.call(self, name, args, kw)
            return g
        if cls in self.prog.classes and self.run is not None:
            st = self.run.initial(cls, calls[0][1], calls[0][2])
            for name, args, kw in calls[1:]:
                if name in ("edges", "nodes", "interval", "has_edge", "has_node"):
                    continue
                if name == "__setattr__":
                    st[args[0]] = args[1]
                    continue
                o = self.invoke(cls, name, st, args, kw)
                if o[0] == "ok":
                    st = o[3]
                elif o[0] == "raise":
                    raise PyErr(o[1], "in callee")
                else:
                    raise PyErr(o[1], o[2])
            return Inst(cls, st)
        return Ext(cls, calls)

    def invoke(self, cls, name, st, args, kw):
        if self.run is None or self.depth > 6:
            raise Und("call depth")
        if name == "generate_predictive_model" and not args and not kw and cls.startswith(("Interval", "Impulse")):
            # training leaves the graph as it is and answers nothing (C17 decides both; a model changes no answer)
            return ("ok", None, None, st)
        return self.run.invoke(cls, name, st, args, kw, self.depth + 1, self.hooks)

    def x_extread(self, t, env):
        oid, seq, name = t.a[:3]
        if self.S.objs[oid].kind != "ext":
            raise Und("read of object")
        v = self.eval(T("obj", oid, seq), env)
        args = [self.eval(a, env) for a in t.a[3:] if a.op not in ("kw", "star")]
        kw = {a.a[0]: self.eval(a.a[1], env) for a in t.a[3:] if a.op == "kw"}
        return self.vmethod(v, name, args, kw)

    def vmethod(self, v, name, args, kw):
        if isinstance(v, NX):
            return copy.deepcopy(v).call(self, name, args, kw) if name.startswith("add") else v.call(self, name, args, kw)
        if isinstance(v, Inst):
            o = self.invoke(v.cls, name, v.state, args, kw)
            if o[0] == "ok":
                return o[1]
            raise PyErr(o[1], "in callee")
        raise Und(f"method {name}")

    def x_popped(self, t, env):
        seq, base, args = t.a[0], t.a[1], t.a[2:]
        r = base
        while r.op in ("item", "sd"):
            r = r.a[0]
        if r.op == "obj":
            c = self.eval(_at(base, r, T("obj", r.a[0], seq)), env)
        elif r.op != "state":
            raise Und("value of pop")
        else:
            c = self.path(base, self.state_at(self.point(env, seq)), env)
        av = [self.eval(a, env) for a in args if a.op != "kw"]
        if isinstance(c, dict) and av:
            if av[0] in c:
                return dict.__getitem__(c, av[0])
            if len(av) > 1:
                return av[1]
            raise PyErr("KeyError", repr(av[0]))
        if isinstance(c, list) and not isinstance(c, (Gen, View)):
            try:
                return c[av[0] if av else -1]
            except IndexError:
                raise PyErr("IndexError")
        raise Und("value of pop")

    def objeff(self, o, c, f, e):
        def path(b):
            if b.op == "obj":
                return c
            if b.op == "item":
                d = path(b.a[0])
                k = self.eval(b.a[1], e)
                if isinstance(d, dict) and k not in d and o.init and o.init[0] == "default" and d is c:
                    d[k] = {"list": list, "set": set, "dict": dict, "int": int}[o.init[1]]()
                return self.getitem(d, k)
            if b.op == "sd":
                d = path(b.a[0])
                k = self.eval(b.a[1], e)
                if k not in d:
                    d[hashable(k)] = self.eval(b.a[2], e)
                return d[k]
            raise Und("object path")
        return self.mutop(path(f.args[1]), f.args[0], f.args[2:], e)

    def x_sd(self, t, env):
        # value of setdefault: what is there, or what it puts there
        r = t
        while r.op in ("item", "sd"):
            r = r.a[0]
        if r.op != "state" and (r.op != "obj" or r.a[1] == 0):
            raise Und("value of setdefault")
        c = self.eval(t.a[0], env)
        k = self.eval(t.a[1], env)
        if not isinstance(c, dict):
            raise Und("value of setdefault")
        return dict.__getitem__(c, hashable(k)) if k in c else self.eval(t.a[2], env)

    def x_kwcopy(self, t, env):
        return dict(self.eval(t.a[0], env))

    def x_emptykw(self, t, env):
        return {}

    def x_kwdict(self, t, env):
        d = {}
        for a in t.a:
            if a.a[0] == "**":
                d.update(self.eval(a.a[1], env))
            else:
                d[a.a[0]] = self.eval(a.a[1], env)
        return d

    # ---- operators
    def x_not(self, t, env):
        return not self.truth(self.eval(t.a[0], env))

    def x_truth(self, t, env):
        return self.truth(self.eval(t.a[0], env))

    def x_and(self, t, env):
        und = None
        for x in t.a:
            try:
                if not self.truth(self.eval(x, env)):
                    return False
            except Und as ex:
                und = und or ex
            except PyErr:
                if und is None:
                    raise
                break
        if und:
            raise und
        return True

    def x_or(self, t, env):
        und = None
        for x in t.a:
            try:
                if self.truth(self.eval(x, env)):
                    return True
            except Und as ex:
                und = und or ex
            except PyErr:
                if und is None:
                    raise
                break
        if und:
            raise und
        return False

    def x_ite(self, t, env):
        return self.eval(t.a[1] if self.truth(self.eval(t.a[0], env)) else t.a[2], env)

    def x_tuple(self, t, env):
        return tuple(self.eval(x, env) for x in t.a)

    def x_tuplecat(self, t, env):
        out = []
        for x in t.a:
            if x.op == "star":
                out.extend(self.iterlist(self.eval(x.a[0], env)))
            else:
                out.append(self.eval(x, env))
        return tuple(out)

    def x_slice(self, t, env):
        return slice(*[self.eval(x, env) for x in t.a])

    def x_cmp(self, t, env):
        op = t.a[0]
        a = self.eval(t.a[1], env)
        b = self.eval(t.a[2], env)
        if op == "is":
            if a is None or b is None:
                return a is b
            if isinstance(a, bool) or isinstance(b, bool):
                return a is b
            if isinstance(a, G) or isinstance(b, G):
                return a == b
            if isinstance(a, (TNode, Model, dict, list)) or isinstance(b, (dict, list)) and isinstance(a, (str, int, float, tuple, set)):
                return a is b
            if isinstance(a, (str, int, float)) and isinstance(b, (str, int, float)):
                # equal labels and times need not be the same object
                return t.a[1] is t.a[2]
            raise Und("identity comparison")
        if op == "==":
            return self.equal(a, b)
        if op == "in":
            if isinstance(b, Ext):
                b = self.iterlist(b)
            if isinstance(b, dict):
                try:
                    return dict.__contains__(b, a)
                except TypeError:
                    raise PyErr("TypeError", "unhashable")
            if isinstance(b, (list, tuple)):
                return any(self.equal(a, x) for x in b)
            if isinstance(b, (set, frozenset)):
                try:
                    return a in b
                except TypeError:
                    raise PyErr("TypeError", "unhashable")
            if isinstance(b, str) and isinstance(a, str):
                return a in b
            if b is None or isinstance(b, (int, float)):
                raise PyErr("TypeError", "in")
            raise Und("membership")
        if isinstance(a, (Opaque, Ext)) or isinstance(b, (Opaque, Ext)):
            raise Und("comparison of opaque value")
        try:
            return a < b if op == "<" else a <= b
        except TypeError:
            raise PyErr("TypeError", f"{a!r} {op} {b!r}")

    def equal(self, a, b):
        if isinstance(a, (Opaque, Ext)) or isinstance(b, (Opaque, Ext)):
            if a is b:
                return True
            if all(isinstance(x, Opaque) and isinstance(x.name, str) and re.fullmatch(r"g\d+|new", x.name) for x in (a, b)):
                return a.name == b.name         # member graphs of the caller: networkx graphs are equal only to themselves
            raise Und("equality of opaque value")
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if isinstance(a, Gen) or isinstance(b, Gen):
                return a is b
            if isinstance(a, tuple) != isinstance(b, tuple):
                return False
            return len(a) == len(b) and all(self.equal(x, y) for x, y in zip(a, b))
        return a == b

    def x_bin(self, t, env):
        op = t.a[0]
        a = self.eval(t.a[1], env)
        b = self.eval(t.a[2], env)
        if isinstance(a, (Opaque, Ext)) or isinstance(b, (Opaque, Ext)):
            raise Und("arithmetic on opaque value")
        try:
            if op == "+":
                return a + b
            if op == "-":
                return a - b
            if op == "*":
                return a * b
            if op == "/":
                return a / b
            if op == "//":
                return a // b
            if op == "%":
                return a % b
            if op == "|":
                return a | b
            if op == "&":
                return a & b
            if op == "^":
                return a ^ b
            if op == "**":
                return a ** b
        except ZeroDivisionError:
            raise PyErr("ZeroDivisionError")
        except TypeError:
            raise PyErr("TypeError", f"{a!r} {op} {b!r}")
        raise Und("operator")

    def getitem(self, c, k):
        if isinstance(c, (Gen, View, set, frozenset)):
            raise PyErr("TypeError", "not subscriptable")
        if isinstance(c, dict):
            try:
                if k not in c:
                    raise PyErr("KeyError", repr(k))
            except TypeError:
                raise PyErr("TypeError", "unhashable")
            return dict.__getitem__(c, k)
        if isinstance(c, (list, tuple, str)):
            try:
                return c[k]
            except IndexError:
                raise PyErr("IndexError")
            except TypeError:
                raise PyErr("TypeError")
        if c is None or isinstance(c, (int, float)):
            raise PyErr("TypeError", "not subscriptable")
        raise Und(f"subscript of {type(c).__name__}")

    def x_item(self, t, env):
        c = self.eval(t.a[0], env)
        k = self.eval(t.a[1], env)
        if t.a[0].op == "obj" and isinstance(c, dict) and k not in c:
            o = self.S.objs[t.a[0].a[0]]
            if o.init and o.init[0] == "default":
                return {"list": list, "set": set, "dict": dict, "int": int}[o.init[1]]()
        return self.getitem(c, k)

    def x_attr(self, t, env):
        b = self.eval(t.a[0], env)
        n = t.a[1]
        if isinstance(b, TNode):
            if n in ("low", "high", "edges"):
                return getattr(b, n)
            raise Und(f"tree node .{n}")
        if isinstance(b, Ext):
            h = self.hooks.get("extattr")
            if h:
                r = h(b, n)
                if r is not None:
                    return r
            raise Und(f"external attribute {n}")
        if isinstance(b, NX) and n in ("nodes", "edges"):
            return b.call(self, n, (), {})
        if isinstance(b, Opaque):
            return Opaque(("attr", b, n))
        if isinstance(b, Inst) and isinstance(b.state, dict) and n in b.state:
            return b.state[n]
        if b is None:
            raise PyErr("AttributeError", f"None.{n}")
        raise Und(f"attribute {n}")

    def x_rcall(self, t, env):
        if self.S.effects:
            raise Und("recursive call with effects")
        kw = {a.a[0]: self.eval(a.a[1], env) for a in t.a[1:]
              if not (a.a[1].op == "static" and isinstance(a.a[1].a[0], front.SelfRef))}
        try:
            same = all(k in self.params and type(self.params[k]) is type(v) and self.params[k] == v for k, v in kw.items())
        except Exception:
            same = False
        if same and not any(k not in kw for k in self.params) and getattr(self, "meth", None) == t.a[0]:
            raise PyErr("RecursionError", "called again with the same arguments")
        o = self.invoke(self.cname, t.a[0], self.base, (), kw)
        if o[0] == "ok":
            return o[1]
        raise PyErr(o[1], "in recursive call")

    def x_dyncall(self, t, env):
        f = self.eval(t.a[0], env)
        args = [self.eval(a, env) for a in t.a[1:] if a.op not in ("kw", "star")]
        kw = {a.a[0]: self.eval(a.a[1], env) for a in t.a[1:] if a.op == "kw"}
        if any(a.op == "star" for a in t.a[1:]):
            raise Und("star call")
        if "**" in kw:
            kw.update(kw.pop("**"))
        if isinstance(f, G):
            m = getattr(self, "f_" + f.n, None)
            if m:
                return m(args, kw)
        if isinstance(f, Opaque):
            return Opaque(("apply", f, tuple(args), tuple(sorted(kw.items()))))
        raise Und("call of unknown value")

    def x_call(self, t, env):
        f = t.a[0].split(".")[-1]
        args = [self.eval(a, env) for a in t.a[1:] if a.op not in ("kw", "star")]
        kw = {a.a[0]: self.eval(a.a[1], env) for a in t.a[1:] if a.op == "kw"}
        for a in t.a[1:]:
            if a.op == "star":
                args.extend(self.iterlist(self.eval(a.a[0], env)))
        if t.a[0] == "re.split":
            return self.resplit(args, kw)
        m = getattr(self, "f_" + f, None)
        if m is None:
            h = self.hooks.get("call")
            if h:
                r = h(t.a[0], args, kw)
                if r is not NotImplemented:
                    return r
            raise Und(f"call {t.a[0]}")
        return m(args, kw)

    def f_len(self, a, kw):
        v = a[0]
        if isinstance(v, Gen) or v is None or isinstance(v, (int, float)):
            raise PyErr("TypeError", "len")
        if isinstance(v, (list, tuple, set, frozenset, str)):
            return len(v)
        if isinstance(v, dict):
            return dict.__len__(v)
        if isinstance(v, Ext) and v.cls == "NodeDataView":
            return len(v.calls[0][1][0])
        if isinstance(v, NX):
            return len(v.nodes)
        raise Und("len")

    def f_isinstance(self, a, kw):
        v, ts = a
        ts = ts if isinstance(ts, tuple) else (ts,)
        names = {x.n for x in ts if isinstance(x, G)}
        mine = set()
        if isinstance(v, bool):
            mine = {"bool", "int"}
        elif isinstance(v, int):
            mine = {"int"}
        elif isinstance(v, float):
            mine = {"float"}
        elif isinstance(v, str):
            mine = {"str"}
        elif isinstance(v, tuple):
            mine = {"tuple"}
        elif isinstance(v, Gen):
            mine = {"GeneratorType", "Generator"}
        elif isinstance(v, list):
            mine = {"list"}
        elif isinstance(v, set):
            mine = {"set"}
        elif isinstance(v, frozenset):
            mine = {"frozenset"}
        elif isinstance(v, dict):
            mine = {"dict"}
        elif v is None:
            mine = {"NoneType"}
        else:
            raise Und("isinstance")
        known = {"bool", "int", "float", "str", "tuple", "list", "set", "frozenset", "dict", "GeneratorType",
                 "Generator", "NoneType"}
        if mine & names:
            return True
        for n in names - known:
            if n in ("Real", "Number", "Integral", "Iterable", "Sequence", "Collection", "Container", "Hashable"):
                coll = mine & {"tuple", "list", "set", "frozenset", "dict", "str"}
                if n in ("Real", "Number"):
                    if mine & {"int", "float"}:
                        return True
                elif n == "Integral":
                    if "int" in mine:
                        return True
                elif n in ("Iterable", "Collection", "Container"):
                    if coll or (n == "Iterable" and "Generator" in mine):
                        return True
                elif n == "Sequence":
                    if mine & {"tuple", "list", "str"}:
                        return True
                else:
                    raise Und("isinstance " + n)
            else:
                raise Und("isinstance " + n)
        return False

    def f_type(self, a, kw):
        v = a[0]
        if v is None:
            return G("NoneType")
        if type(v) is SD:
            return G("SortedDict")
        if isinstance(v, (bool, int, float, str, tuple, list, set, dict)) and not isinstance(v, (Gen, View, SD)):
            return G(type(v).__name__)
        raise Und("type")

    def f_bool(self, a, kw):
        return self.truth(a[0]) if a else False

    def f_int(self, a, kw):
        if isinstance(a[0], str):
            v = untoken(a[0])
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                if isinstance(v, int):
                    return v
                raise PyErr("ValueError", "int")
            if len(a) > 1 or any(0xE000 <= ord(c) < 0xF000 for c in a[0]):
                raise PyErr("ValueError", "int") if len(a) == 1 else Und("int base")
            try:
                return int(a[0])
            except ValueError:
                raise PyErr("ValueError", "int")
        if isinstance(a[0], (int, float)):
            try:
                return int(a[0])
            except (ValueError, OverflowError) as e:
                raise PyErr(type(e).__name__)
        raise Und("int()")

    def f_float(self, a, kw):
        if isinstance(a[0], (int, float)):
            return float(a[0])
        if isinstance(a[0], str):
            v = untoken(a[0])
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                return float(v)
            if any(0xE000 <= ord(c) < 0xF000 for c in a[0]):
                raise PyErr("ValueError", "float")
            try:
                return float(a[0])
            except ValueError:
                raise PyErr("ValueError", "float")
        raise Und("float()")

    def plain(self, fn, x):
        try:
            return fn(x)
        except (TypeError, ValueError, OverflowError) as e:
            if x is None or isinstance(x, (int, float, str, list, dict, tuple)):
                raise PyErr(type(e).__name__, str(e))
            raise

    def f_abs(self, a, kw):
        return self.plain(abs, a[0])

    def f_floor(self, a, kw):
        return self.plain(math.floor, a[0])

    def f_ceil(self, a, kw):
        return self.plain(math.ceil, a[0])

    def f_trunc(self, a, kw):
        return self.plain(math.trunc, a[0])

    def f_round(self, a, kw):
        return self.plain(lambda x: round(x, *a[1:], **kw), a[0])

    def f_isclose(self, a, kw):
        try:
            return math.isclose(*a, **kw)
        except TypeError as e:
            if all(x is None or isinstance(x, (int, float, str, list, dict, tuple)) for x in a):
                raise PyErr("TypeError", str(e))
            raise Und("isclose")

    def f_isinf(self, a, kw):
        return self.plain(math.isinf, a[0])

    def seqargs(self, a):
        return self.iterlist(a[0]) if len(a) == 1 else list(a)

    def f_min(self, a, kw):
        return self.mm(min, a, kw)

    def f_max(self, a, kw):
        return self.mm(max, a, kw)

    def mm(self, fn, a, kw):
        if "key" in kw:
            raise Und("min/max key")
        xs = self.seqargs(a)
        if not xs:
            if "default" in kw:
                return kw["default"]
            raise PyErr("ValueError", "min/max of empty")
        try:
            return fn(xs)
        except TypeError:
            raise PyErr("TypeError", "min/max")

    def f_sum(self, a, kw):
        s = a[1] if len(a) > 1 else kw.get("start", 0)
        for x in self.iterlist(a[0]):
            s = s + x
        return s

    def f_any(self, a, kw):
        return any(self.truth(x) for x in self.iterlist(a[0]))

    def f_all(self, a, kw):
        return all(self.truth(x) for x in self.iterlist(a[0]))

    def f_sorted(self, a, kw):
        if "key" in kw and kw["key"] is not None:
            raise Und("sorted key")
        try:
            return sorted(self.iterlist(a[0]), reverse=self.truth(kw.get("reverse", False)))
        except TypeError:
            raise PyErr("TypeError", "sorted")

    def keyed(self, fn, a, kw):
        xs = self.iterlist(a[0])
        for k, _ in xs:
            if not isinstance(k, (int, float, str, tuple, bool)):
                raise Und("sort key")
        if not xs:
            if "default" in kw:
                return kw["default"]
            raise PyErr("ValueError", "min/max of empty")
        try:
            return fn(xs, key=lambda p: p[0])[1]
        except TypeError:
            raise PyErr("TypeError", "keys")

    def f_keyed_min(self, a, kw):
        return self.keyed(min, a, kw)

    def f_keyed_max(self, a, kw):
        return self.keyed(max, a, kw)

    def f_keyed_sorted(self, a, kw):
        r = self.truth(kw.get("reverse", False))
        if not self.iterlist(a[0]):
            return []
        return self.keyed(lambda xs, key: (None, [x for _, x in sorted(xs, key=key, reverse=r)]), a, {})

    def f_count_items(self, a, kw):
        out = {}
        for x in self.iterlist(a[0]):
            x = hashable(x)
            out[x] = out.get(x, 0) + 1
        return out

    def f_reversed(self, a, kw):
        return Gen(reversed(self.iterlist(a[0])))

    def f_tuple(self, a, kw):
        return tuple(self.iterlist(a[0]))

    def f_list(self, a, kw):
        return self.iterlist(a[0])

    def f_iter(self, a, kw):
        return Gen(self.iterlist(a[0]))

    def f_next(self, a, kw):
        xs = self.iterlist(a[0])
        if xs:
            return xs[0]
        if len(a) > 1:
            return a[1]
        raise PyErr("StopIteration")

    def f_zip(self, a, kw):
        return Gen(zip(*[self.iterlist(x) for x in a]))

    def f_pairwise(self, a, kw):
        x = self.iterlist(a[0])
        return Gen(zip(x, x[1:]))

    def f_range(self, a, kw):
        if not all(isinstance(x, int) for x in a):
            raise PyErr("TypeError", "range")
        r = range(*a)
        if len(r) > 120:
            raise Und("range too long")
        return list(r)

    def f_enumerate(self, a, kw):
        s = a[1] if len(a) > 1 else kw.get("start", 0)
        return Gen([(i + s, x) for i, x in enumerate(self.iterlist(a[0]))])

    def f_product(self, a, kw):
        return Gen(itertools.product(*[self.iterlist(x) for x in a], repeat=kw.get("repeat", 1)))

    def f_chain(self, a, kw):
        return Gen(y for x in a for y in self.iterlist(x))

    def f_from_iterable(self, a, kw):
        return Gen(y for x in self.iterlist(a[0]) for y in self.iterlist(x))

    def f_combinations(self, a, kw):
        return Gen(itertools.combinations(self.iterlist(a[0]), a[1]))

    def f_str(self, a, kw):
        if a and isinstance(a[0], (str, int, float)) and not isinstance(a[0], bool):
            return token(a[0])
        if not a and not kw:
            return ""
        raise Und("str()")

    def formatted(self, b, args, kw):
        """str.format over plain {} / {0} / {name} fields of text and numbers; anything else is an opaque text"""
        out, auto = [], 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(b):
                out.append(lit)
                if field is None:
                    continue
                if conv not in (None, "s", "r") or "{" in (spec or ""):
                    return Opaque(("format", b, repr(args)))
                if field == "":
                    v, auto = args[auto], auto + 1
                elif field.isdigit():
                    v = args[int(field)]
                elif field in kw:
                    v = kw[field]
                else:
                    return Opaque(("format", b, repr(args)))
                if isinstance(v, bool) or not isinstance(v, (str, int, float)) or conv == "r" and isinstance(v, str):
                    return Opaque(("format", b, repr(args)))
                t = self.numeral(v, spec)
                if t is None:
                    return Opaque(("format", b, repr(args)))
                out.append(t)
        except (IndexError, ValueError) as ex:
            raise PyErr(type(ex).__name__, "format")
        return "".join(out)

    def numeral(self, v, spec):
        """the text of a value under a format specification: the token of the number that text stands for"""
        if not spec:
            return token(v)
        if isinstance(v, (str, bool)) or not isinstance(v, (int, float)):
            return None
        try:
            s = format(v, spec)
        except ValueError as ex:
            raise PyErr("ValueError", str(ex))
        if s != s.strip() or "," in s or "_" in s or "%" in s:
            return None
        try:
            return token(int(s))
        except ValueError:
            pass
        try:
            return token(float(s))
        except ValueError:
            return None

    def f_format(self, a, kw):
        if len(a) > 1 and not isinstance(a[1], str):
            raise Und("format()")
        t = self.numeral(a[0], a[1] if len(a) > 1 else "") if isinstance(a[0], (str, int, float)) and not isinstance(a[0], bool) else None
        return Opaque(("format", repr(a))) if t is None else t

    def f_divmod(self, a, kw):
        if not all(isinstance(x, (int, float)) for x in a):
            raise Und("divmod")
        if a[1] == 0:
            raise PyErr("ZeroDivisionError", "divmod")
        return divmod(a[0], a[1])

    def f_hash(self, a, kw):
        try:
            hashable(a[0])
        except TypeError:
            raise PyErr("TypeError", "unhashable")
        return Opaque(("hash", repr(a[0])))

    def f_strformat(self, a, kw):
        vs = list(a[1]) if isinstance(a[1], tuple) else [a[1]]
        specs = re.findall(r"%([-+ #0]*\d*(?:\.\d+)?)([a-zA-Z%])", a[0])
        parts = re.split(r"%[-+ #0]*\d*(?:\.\d+)?[a-zA-Z%]", a[0])
        if "%" in "".join(parts) or any(k not in "sdigfeEGr" for _, k in specs) or any(isinstance(v, bool) or not isinstance(v, (str, int, float)) for v in vs):
            return Opaque(("format", a[0], repr(vs)))
        if len(parts) != len(vs) + 1:
            raise PyErr("TypeError", "not all arguments converted")
        out = [parts[0]]
        for v, (o, k), p in zip(vs, specs, parts[1:]):
            if k in "sr":
                t = None if o or k == "r" and isinstance(v, str) else token(v)
            elif isinstance(v, str):
                raise PyErr("TypeError", "%d format: a number is required")
            else:
                t = self.numeral(int(v) if k in "di" else v, o + ("d" if k in "di" else k))
            if t is None:
                return Opaque(("format", a[0], repr(vs)))
            out += [t, p]
        return "".join(out)

    def f_open(self, a, kw):
        if "open" not in self.hooks:
            raise Und("open")
        return Gen(self.hooks["open"])

    def f_escape(self, a, kw):
        if isinstance(a[0], str):
            return re.escape(a[0])
        raise Und("escape")

    def resplit(self, a, kw):
        if len(a) == 2 and isinstance(a[0], str) and isinstance(a[1], str):
            try:
                return re.split(a[0], a[1])
            except re.error:
                raise PyErr("error", "re")
        raise Und("re.split")

    def f_NodeDataView(self, a, kw):
        names = ["nodedict", "data", "default"]
        k = dict(zip(names, a))
        k.update(kw)
        d = k.pop("nodedict")
        return Ext("NodeDataView", [("__init__", (d,), {"data": k.get("data", False), "default": k.get("default")})])

    def f_deepcopy(self, a, kw):
        return self.opcopy(a[0]) if isinstance(a[0], Opaque) else copy.deepcopy(a[0])

    def f_copy(self, a, kw):
        return self.opcopy(a[0]) if isinstance(a[0], Opaque) else copy.copy(a[0])

    def opcopy(self, v):
        Ev.copies += 1
        return Opaque(("copy", v, Ev.copies))

    # ---- matrices (lists of equally long rows)
    def f_adjacency_matrix(self, a, kw):
        g = a[0]
        if not isinstance(g, NX) or len(a) > 1 or set(kw) - {"weight"}:
            raise Und("adjacency_matrix")
        w = kw.get("weight", "weight")
        ns = list(g.nodes)
        m = [[0] * len(ns) for _ in ns]
        for u, v, d in g.edges:
            x = 1 if w is None else d.get(w, 1)
            i, j = ns.index(u), ns.index(v)
            m[i][j] += x
            if not g.directed and i != j:
                m[j][i] += x
        return Mat(m)

    def f_to_numpy_array(self, a, kw):
        return self.f_adjacency_matrix(a, kw)

    def f_array(self, a, kw):
        v = a[0]
        if len(a) > 1 or set(kw) - {"dtype"}:
            raise Und("array")
        if not isinstance(v, (list, tuple)):
            raise Und("array of " + type(v).__name__)
        rows = [self.iterlist(r) if isinstance(r, (list, tuple)) else r for r in v]
        if any(not isinstance(r, list) for r in rows) or len({len(r) for r in rows}) != 1:
            raise Und("array shape")
        dt = kw.get("dtype")
        if dt is not None:
            if isinstance(dt, G) and dt.n in ("str", "float", "int"):
                rows = [[getattr(self, "f_" + dt.n)([x], {}) for x in r] for r in rows]
            else:
                raise Und("array dtype")
        return Mat(rows)

    def f_asarray(self, a, kw):
        return self.f_array(a, kw)

    def f_from_numpy_array(self, a, kw):
        m = a[0]
        cls = kw.get("create_using")
        if not isinstance(m, Mat) or len(a) > 1 or set(kw) - {"create_using"} or \
                not (cls is None or isinstance(cls, G) and cls.n in NX.CLS or isinstance(cls, NX)):
            raise Und("from_numpy_array")
        if any(isinstance(x, str) for r in m for x in r):
            raise PyErr("TypeError", "adjacency matrix of text")
        g = NX("Graph" if cls is None else cls.n if isinstance(cls, G) else cls.cls)
        if any(len(r) != len(m) for r in m):
            raise PyErr("NetworkXError", "adjacency matrix not square")
        for i in range(len(m)):
            g.addnode(i)
        for i, r in enumerate(m):
            for j, x in enumerate(r):
                if x != 0:
                    g.addedge(i, j, {"weight": x})
        return g

    def f_from_numpy_matrix(self, a, kw):
        return self.f_from_numpy_array(a, kw)

    def x_mcall(self, t, env):
        name = t.a[0]
        b = self.eval(t.a[1], env)
        args = [self.eval(a, env) for a in t.a[2:] if a.op not in ("kw", "star")]
        kw = {a.a[0]: self.eval(a.a[1], env) for a in t.a[2:] if a.op == "kw"}
        for a in t.a[2:]:
            if a.op == "star":
                args.extend(self.iterlist(self.eval(a.a[0], env)))
        if isinstance(b, G) and name == "from_iterable":
            return self.f_from_iterable(args, kw)
        for ty, tab in ARITY.items():
            if isinstance(b, ty) and name in tab and not kw and not tab[name][0] <= len(args) <= tab[name][1]:
                raise PyErr("TypeError", "arguments of " + name)
        if isinstance(b, Model):
            if name == "predict":
                rows = self.iterlist(args[0])
                for r in rows:
                    if not isinstance(r, (list, tuple)) or isinstance(r, Gen):
                        raise PyErr("ValueError", "predict expects a 2-d input")
                return [((0, 1) if b.which == 0 else (1, 0)) for _ in rows]
            raise Und("model method")
        if isinstance(b, dict):
            if name == "keys":
                return list(b.keys()) if isinstance(b, SD) else View(b.keys())
            if name == "values":
                return list(b.values()) if isinstance(b, SD) else View(b.values())
            if name == "items":
                return list(b.items()) if isinstance(b, SD) else View(b.items())
            if name == "get":
                try:
                    return dict.get(b, args[0], args[1] if len(args) > 1 else kw.get("default"))
                except TypeError:
                    raise PyErr("TypeError", "unhashable")
            if name == "copy":
                return copy.copy(b)
            if name == "__contains__":
                return args[0] in b
            if isinstance(b, SD):
                ks = b.sorted()
                if name == "irange":
                    lo = args[0] if len(args) > 0 else kw.get("minimum")
                    hi = args[1] if len(args) > 1 else kw.get("maximum")
                    inc = args[2] if len(args) > 2 else kw.get("inclusive", (True, True))
                    rev = args[3] if len(args) > 3 else kw.get("reverse", False)
                    r = [k for k in ks if (lo is None or (k >= lo if inc[0] else k > lo)) and
                         (hi is None or (k <= hi if inc[1] else k < hi))]
                    return Gen(reversed(r) if rev else r)
                if name == "peekitem":
                    i = args[0] if args else -1
                    if not ks:
                        raise PyErr("IndexError")
                    return (ks[i], dict.__getitem__(b, ks[i]))
                if name == "bisect_left":
                    return sum(1 for k in ks if k < args[0])
                if name in ("bisect", "bisect_right"):
                    return sum(1 for k in ks if k <= args[0])
                if name == "islice":
                    return Gen(ks[slice(*args)])
            raise Und(f"dict.{name}")
        if isinstance(b, (set, frozenset)):
            if name in ("union", "intersection", "difference", "symmetric_difference", "issubset", "isdisjoint",
                        "issuperset", "copy"):
                try:
                    return getattr(set(b), name)(*[self.iterlist(x) for x in args])
                except TypeError:
                    raise PyErr("TypeError")
            raise Und(f"set.{name}")
        if isinstance(b, Gen):
            raise Und(f"generator.{name}")
        if isinstance(b, (list, tuple)):
            if name == "index":
                if args[0] in b:
                    return b.index(args[0])
                raise PyErr("ValueError", "index")
            if name == "count":
                return b.count(args[0])
            if name == "copy":
                return list(b)
            if isinstance(b, Mat) and name in ("todense", "toarray", "A", "tolist"):
                return b
            if isinstance(b, Mat) and name == "astype":
                return self.f_array([b], {"dtype": args[0]})
            raise Und(f"list.{name}")
        if isinstance(b, (NX, Inst)):
            return self.vmethod(b, name, args, kw)
        if isinstance(b, str):
            if name in STRM:
                try:
                    if name == "join":
                        args = [self.iterlist(args[0])]
                    return getattr(b, name)(*args, **kw)
                except ValueError as ex:
                    raise PyErr("ValueError", str(ex))
                except (TypeError, AttributeError) as ex:
                    if any(isinstance(x, Opaque) for a in args for x in (a if isinstance(a, list) else [a])):
                        raise Und(f"str.{name} of opaque text")
                    raise PyErr("TypeError", str(ex))
            if name == "format":
                return self.formatted(b, args, kw)
            raise Und(f"str.{name}")
        if isinstance(b, Opaque):
            if name == "copy" and not args:
                return self.opcopy(b)
            return Opaque(("call", b, name, tuple(args), tuple(sorted(kw.items()))))
        if isinstance(b, (int, float)) :
            raise PyErr("AttributeError", name)
        if b is None:
            raise PyErr("AttributeError", f"None.{name}")
        if isinstance(b, Ext):
            h = self.hooks.get("extcall")
            if h:
                r = h(b, name, args, kw)
                if r is not NotImplemented:
                    return r
        raise Und(f"method {name} on {type(b).__name__}")

    # ---------------------------------------------------------- outcome
    def force(self, v):
        return v

    def outcome(self):
        """('ok', value, None, state) | ('raise', class, fact, state) | ('pyraise', class, message, None);
        Und when the summary is not decided under this case"""
        try:
            return self.outcome_()
        except (Und, PyErr):
            raise
        except RecursionError:
            raise Und("recursion")
        except Exception as ex:
            raise Und(f"internal: {type(ex).__name__}: {ex}")

    def outcome_(self):
        S = self.S
        best = None
        try:
            for f in S.raises:
                for k, e in self.instances(f, None):
                    if self.truth(self.eval(f.guard, e)):
                        if best is None or k < best[0]:
                            best = (k, f)
                        break
        except PyErr as ex:
            return ("pyraise", ex.kind, ex.msg, None)
        try:
            if best is not None:
                st = self.state_at(best[0])
                return ("raise", best[1].args[0], best[1], st)
            st = self.state_at(None)
            v = self.eval(S.value, {}) if isinstance(S.value, T) else S.value
            return ("ok", v, None, st)
        except PyErr as ex:
            return ("pyraise", ex.kind, ex.msg, None)

    def calls(self, names=None):
        """(receiver, method, args, kw) of the calls made on values handed in, in program order"""
        out = []
        for f in self.S.extcalls:
            if names is not None and f.args[0] not in names:
                continue
            for k, e in self.instances(f, None):
                if self.truth(self.eval(f.guard, e)):
                    kw = {}
                    for a in f.args[2]:
                        if a.a[0] == "**":
                            kw.update(self.eval(a.a[1], e))
                        else:
                            kw[a.a[0]] = self.eval(a.a[1], e)
                    out.append((k, (self.eval(f.args[3], e), f.args[0], [self.eval(a, e) for a in f.args[1]], kw, f)))
        return [a for k, a in sorted(out, key=lambda x: x[0])]

    def printed(self):
        """facts of the output statements that are reached"""
        return [f for f in self.S.prints if any(self.truth(self.eval(f.guard, e)) for k, e in self.instances(f, None))]

    def writes(self, *names):
        """(name, arguments) of the calls of these names on handles (a file), in program order"""
        out = []
        for f in self.S.extcalls:
            if f.args[0] not in names:
                continue
            for k, e in self.instances(f, None):
                if self.truth(self.eval(f.guard, e)):
                    out.append((k, f.args[0], [self.eval(a, e) for a in f.args[1]]))
        return [a[1:] for a in sorted(out, key=lambda x: x[0])]
