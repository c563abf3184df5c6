"""Terms of the guarded-summary normal form.

A function is compiled (front.py) to a Summary: exits, raises, effects and
local-object contributions, each a *guarded* fact under a list of generic
loops.  Terms are hash-consed tuples  T(op, *args).
"""
import itertools


class T:
    __slots__ = ("op", "a", "_h", "line")
    _tab = {}

    def __new__(cls, op, *a, line=None):
        k = (op,) + tuple(x if isinstance(x, T) else (type(x).__name__, x) for x in a)
        try:
            t = cls._tab.get(k)
        except TypeError:
            t = None
            k = None
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.a = a
            t._h = hash(k) if k is not None else id(t)
            t.line = line
            if k is not None:
                cls._tab[k] = t
        return t

    def __repr__(self):
        return show(self)


def show(t, d=0):
    if not isinstance(t, T):
        return repr(t)
    if d > 7:
        return "…"
    o, a = t.op, t.a
    s = lambda x: show(x, d + 1)
    if o == "const":
        return repr(a[0])
    if o in ("param",):
        return a[0]
    if o == "state":
        return "self." + a[0]
    if o == "item":
        return f"{s(a[0])}[{s(a[1])}]"
    if o == "attr":
        return f"{s(a[0])}.{a[1]}"
    if o == "lv":
        return f"x{a[0]}"
    if o == "cmp":
        return f"({s(a[1])} {a[0]} {s(a[2])})"
    if o == "bin":
        return f"({s(a[1])} {a[0]} {s(a[2])})"
    if o == "not":
        return f"not {s(a[0])}"
    if o in ("and", "or"):
        return "(" + f" {o} ".join(s(x) for x in a) + ")"
    if o == "ite":
        return f"({s(a[1])} if {s(a[0])} else {s(a[2])})"
    if o == "tuple":
        return "(" + ", ".join(s(x) for x in a) + ")"
    if o == "snap":
        return f"obj{a[0]}@{a[1]}"
    if o == "unknown":
        return f"?{a[0]}"
    return f"{o}({', '.join(s(x) for x in a)})"


NONE = T("const", None)
TRUE = T("const", True)
FALSE = T("const", False)


def const(v):
    return T("const", v)


def is_const(t):
    return t.op == "const"


BOOLOPS = {"cmp", "not", "and", "or", "exists"}


def truth(t):
    if t.op == "const":
        return const(bool(t.a[0]))
    if t.op in BOOLOPS and all(True for _ in ()):
        if t.op in ("and", "or"):
            if all(_isbool(x) for x in t.a):
                return t
            return T(t.op, *[truth(x) for x in t.a])
        return t
    if t.op == "tuple":
        return const(len(t.a) > 0)
    if t.op == "truth":
        return t
    if t.op == "ite":
        return ite(t.a[0], truth(t.a[1]), truth(t.a[2]))
    return T("truth", t)


def _isbool(t):
    return t.op in ("cmp", "not", "truth", "exists") or (t.op == "const" and isinstance(t.a[0], bool)) or \
        (t.op in ("and", "or") and all(_isbool(x) for x in t.a))


def neg(t):
    t = truth(t)
    if t is TRUE:
        return FALSE
    if t is FALSE:
        return TRUE
    if t.op == "not":
        return t.a[0]
    return T("not", t)


def conj(*ts):
    out = []
    for t in ts:
        if t is TRUE:
            continue
        if t is FALSE:
            return FALSE
        if t.op == "and":
            for x in t.a:
                if x not in out:
                    out.append(x)
        elif t not in out:
            out.append(t)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return T("and", *out)


def disj(*ts):
    out = []
    for t in ts:
        if t is FALSE:
            continue
        if t is TRUE:
            return TRUE
        if t.op == "or":
            for x in t.a:
                if x not in out:
                    out.append(x)
        elif t not in out:
            out.append(t)
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    for x in out:
        if neg(x) in out:
            return TRUE
    return T("or", *out)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return neg(c)
    if c.op == "not":
        return ite(c.a[0], b, a)
    return T("ite", c, a, b)


def subterms(t, seen=None):
    """All terms reachable from t (not through loops/objects)."""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for y in x.a:
            if isinstance(y, T):
                st.append(y)
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, T):
                        st.append(z)
                    elif isinstance(z, tuple):
                        st.extend(w for w in z if isinstance(w, T))


_ids = itertools.count(1)


def fresh():
    return next(_ids)


class Loop:
    """A generic iteration: the variable lv(id) ranges over `source`."""
    def __init__(self, source, kind="for", line=0, ver=0, func=""):
        self.id = fresh()
        self.source = source
        self.kind = kind        # for / while
        self.breaks = []        # list of guards
        self.exits = []         # guards of return/raise inside
        self.line = line
        self.ver = ver
        self.phis = {}          # name -> (init, step term)
        self.func = func
        self.seq = 0
        self.endseq = None

    @property
    def var(self):
        return T("lv", self.id)

    def __repr__(self):
        return f"L{self.id}[{show(self.source)}]"


class Fact:
    """A guarded fact under loops (contribution, effect, exit, raise, call)."""
    __slots__ = ("loops", "guard", "kind", "args", "line", "func", "file", "seq", "ver", "tries")

    def __init__(self, loops, guard, kind, args, line, func, file, seq, ver):
        self.loops = tuple(loops)
        self.guard = guard
        self.kind = kind
        self.args = args
        self.line = line
        self.func = func
        self.file = file
        self.seq = seq
        self.ver = ver
        self.tries = ()

    def where(self):
        return f"{self.file}:{self.line} ({self.func})"

    def __repr__(self):
        return f"<{self.kind} {self.args} if {self.guard} for {list(self.loops)} L{self.line}>"


class Obj:
    """A local heap object."""
    __slots__ = ("id", "kind", "facts", "loops", "guard", "line", "cls", "taint", "init", "lazy", "depth")

    def __init__(self, kind, loops, guard, line, cls=None):
        self.id = fresh()
        self.kind = kind     # list set dict gen ext inst
        self.facts = []      # contributions
        self.loops = tuple(loops)
        self.guard = guard
        self.line = line
        self.cls = cls
        self.taint = None
        self.lazy = False
        self.init = None

    def __repr__(self):
        return f"Obj{self.id}:{self.kind}"
