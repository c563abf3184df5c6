"""Modular shape analysis of the interval tree.

Subtrees that the code has not looked into are opaque: they stand for every subtree, with every number of intervals.
Looking into one splits the analysis into "empty" and "a node between two smaller opaque subtrees".  Recursive calls are
replaced by their contract (which the analysis of the function itself establishes); intervals are known by the order of
their ends relative to each other only.  A path is abandoned when a loop descends more than a few levels."""
import ast
import time

from ev import Und

INF = float("inf")


class Bad(Exception):
    def __init__(self, msg, node=None):
        super().__init__(msg)
        self.line = getattr(node, "lineno", None)


class Cut(Exception):
    pass


class Raised(Exception):
    def __init__(self, kind, line=None):
        super().__init__(kind)
        self.kind, self.line = kind, line


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Iv:
    """an integer known to lie in [lo, hi]"""
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


class TV:
    """kind 'lo': the least begin, kind 'hi': the greatest end, of the intervals in atoms"""
    def __init__(self, kind, atoms):
        self.kind, self.atoms = kind, frozenset(atoms)

    def __repr__(self):
        return f"{'begin' if self.kind == 'lo' else 'end'}{set(self.atoms)}"

    def __eq__(self, o):
        return isinstance(o, TV) and (self.kind, self.atoms) == (o.kind, o.atoms)

    def __hash__(self):
        return hash((self.kind, self.atoms))


class Cnt:
    def __init__(self, off):
        self.off = off


class T:
    """an opaque part of the in-order sequence"""
    n = 0

    def __init__(self):
        T.n += 1
        self.id = T.n

    def __repr__(self):
        return f"T{self.id}"


class Obj:
    def __init__(self, cls, key=None):
        self.cls, self.key, self.f, self.state = cls, key, {}, "live"

    def __repr__(self):
        return f"<{self.cls} {self.key}>"


class Sub:
    """a subtree not looked into"""
    def __init__(self, seq):
        self.seq, self.done, self.val, self.state = list(seq), False, None, "live"


class Stale:
    """a subtree as it was before a recursive call took it over"""
    def __init__(self, s):
        self.s = s


class Rec:
    """what a generator called again on a smaller part delivers"""
    def __init__(self, args, outer):
        self.args, self.outer = args, outer


class Known(dict):
    """the key -> node dictionary; only the key under consideration is known"""


class Fn:
    def __init__(self, fn, selfv, ci, static=False):
        self.fn, self.selfv, self.ci, self.static = fn, selfv, ci, static


GEN = {}


def is_gen(fn):
    if fn not in GEN:
        GEN[fn] = is_gen1(fn)
    return GEN[fn]


def is_gen1(fn):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(fn))


class Shape:
    DEPTH = 3

    def __init__(self, prog, tree="IntervalTree", node="Node", contracts=None, policy="asc", limit=20000):
        self.prog, self.tree, self.node = prog, tree, node
        self.contracts = contracts or {}     # method name -> (role, index of subtree param, index of node param)
        self.policy = policy
        self.limit = limit
        self.lines = set()
        for c in (tree, node):
            ci = prog.classes.get(c)
            if ci is None:
                continue
            for b in ci.node.body:
                if isinstance(b, ast.FunctionDef) and b.name in ("__eq__", "__bool__", "__len__", "__setattr__", "__getattr__", "__getattribute__"):
                    raise Und(f"{c}.{b.name}")
        self.home = prog.classes[tree]
        self.moves = self.judging = False

    # ------------------------------------------------------------ exploring all paths
    def paths(self, body):
        """body(self) -> None | message, for every combination of choices; yields results"""
        stack = []
        n = 0
        self.until = time.time() + 40
        while True:
            self.trail = list(stack)
            self.pos = 0
            self.sizes = []
            self.reset()
            n += 1
            if n > self.limit or n % 64 == 0 and time.time() > self.until:
                raise Und("too many paths")
            try:
                m = body(self)
                yield ("und", (m, None)) if self.soft and m is not None else ("ok", m)
            except Cut:
                yield ("cut", None)
            except Bad as ex:
                yield ("und" if self.soft else "bad", (str(ex), ex.line))
            except Und as ex:
                yield ("und", (str(ex), None))
            except Raised as ex:
                yield ("und" if self.fuzzy or self.soft else "bad", (f"raises {ex.kind}", ex.line))
            # next
            taken = self.trail[:self.pos]
            while taken and taken[-1] + 1 >= self.sizes[len(taken) - 1]:
                taken.pop()
            if not taken:
                return
            taken[-1] += 1
            stack = taken

    def reset(self):
        self.exp = {}          # T -> list of atoms
        self.order = {}        # (key, key) -> (lo, hi)
        self.dom = []          # (kind, A, B): the extreme of A is at least as extreme as that of B
        self.fuzzy = self.soft = False
        self.fresh = 0
        self.objs = {}
        self.world = None      # in-order sequence of the tree at entry
        self.inplace = True
        self.yields = []
        self.active = []
        self.depth = 0

    def choose(self, n):
        if n == 1:
            return 0
        if self.pos < len(self.trail):
            c = self.trail[self.pos]
        else:
            c = 0
            self.trail.append(0)
        if self.pos < len(self.sizes):
            self.sizes[self.pos] = n
        else:
            self.sizes.append(n)
        self.pos += 1
        return c

    # ------------------------------------------------------------ sequences
    def expand(self, seq):
        out = []
        for a in seq:
            if isinstance(a, T) and a in self.exp:
                out += self.expand(self.exp[a])
            else:
                out.append(a)
        return out

    def key(self, a):
        return a if isinstance(a, T) else a.key

    def atoms(self, s):
        out = set()
        for a in s:
            if isinstance(a, T):
                out |= {self.key(x) for x in self.expand([a])}
            else:
                out.add(a)
        return out

    def new_node(self, key=None):
        self.fresh += 1
        o = Obj(self.node, key or f"m{self.fresh}")
        o.f["low"], o.f["high"] = TV("lo", [o.key]), TV("hi", [o.key])
        self.objs[o.key] = o
        return o

    def plant(self, o, left, right):
        """o is the root of a subtree in good order"""
        o.state = "live"
        o.f["left"], o.f["right"] = Sub(left), Sub(right)
        o.f["max"] = TV("hi", [self.key(a) for a in left + [o] + right])
        o.f["height"] = Iv(0, INF)
        return o

    def look(self, s):
        """the root of an opaque subtree"""
        if s.state != "live":
            return Stale(s)
        if s.done:
            return s.val
        seq = self.expand(s.seq)
        opts = [("root", i) for i in range(len(seq))]
        if all(isinstance(a, T) for a in seq):
            opts = [("empty", 0)] + opts
        o, i = opts[self.choose(len(opts))]
        s.done = True
        if o == "empty":
            for a in seq:
                self.exp[a] = []
            s.val = None
            return None
        a = seq[i]
        if isinstance(a, T):
            self.count = getattr(self, "count", 0)
            m = self.new_node()
            if self.level(a) >= self.DEPTH:
                raise Cut()
            l, r = T(), T()
            l.level = r.level = self.level(a) + 1
            self.exp[a] = [l, m, r]
            s.val = self.plant(m, seq[:i] + [l], [r] + seq[i + 1:])
        else:
            s.val = self.plant(a, seq[:i], seq[i + 1:])
        return s.val

    def level(self, a):
        return getattr(a, "level", 0)

    def res(self, v):
        if isinstance(v, Sub):
            return self.look(v)
        return v

    def flatten(self, v, seen=None, absorb=False):
        """in-order sequence of a shape"""
        seen = seen if seen is not None else set()
        if v is None:
            return []
        if isinstance(v, Sub):
            if v.state != "live":
                self.stale()
            if v.done:
                return self.flatten(v.val, seen, absorb)
            if absorb:
                v.state = "gone"
            return self.expand(v.seq)
        if isinstance(v, Obj):
            if id(v) in seen:
                raise Bad("links one node into the tree twice")
            seen.add(id(v))
            if v.state == "gone":
                self.stale()
            l = self.flatten(v.f.get("left"), seen, absorb)
            r = self.flatten(v.f.get("right"), seen, absorb)
            if absorb:
                v.state = "gone"
            return l + [v] + r
        if isinstance(v, Stale):
            self.stale()
        raise Und(f"subtree {v!r}")

    def stale(self):
        if self.judging and self.moves:
            raise Bad("keeps a link to a subtree that the recursive call may have rebuilt under another root")
        raise Und("a subtree used after it was handed to another call")

    # ------------------------------------------------------------ order
    def pair(self, a, b):
        """(sign of begin a - begin b, sign of end a - end b) of two intervals"""
        if a == b:
            return (0, 0)
        if (a, b) in self.order:
            return self.order[(a, b)]
        if (b, a) in self.order:
            x, y = self.order[(b, a)]
            return (-x, -y)
        opts = [(x, y) for x in (-1, 0, 1) for y in (-1, 0, 1) if (x, y) != (0, 0)]
        if self.world is not None:
            w = [self.key(x) for x in self.expand(self.world)]
            if a in w and b in w:
                before = w.index(a) < w.index(b)
                s = -1 if before else 1
                opts = [(x, y) for x, y in opts if x == s or (x == 0 and (self.policy == "none" or y == (s if self.policy == "asc" else -s)))]
            elif a in w or b in w:
                out, inn = (b, a) if a in w else (a, b)
                opts = [o for o in opts if self.fits(out, inn, o if out == a else (-o[0], -o[1]), w)]
                if not opts:
                    raise Cut()
        c = opts[self.choose(len(opts))]
        self.order[(a, b)] = c
        return c

    def fits(self, out, inn, o, w):
        """is the order o of an interval outside the tree and one inside in line with what is known of it and the others?"""
        def lex(x):
            return x[0] or (x[1] if self.policy == "asc" else -x[1])
        i = w.index(inn)
        for j, k in enumerate(w):
            if k == inn:
                continue
            p = self.order.get((out, k))
            if p is None:
                p = self.order.get((k, out))
                if p is None:
                    continue
                p = (-p[0], -p[1])
            first, last = (p, o) if j < i else (o, p)      # against the earlier / the later of the two
            # out before the earlier one: before the later one too; out after the later one: after the earlier one too
            if first[0] < 0 and last[0] >= 0 or last[0] > 0 and first[0] <= 0 or first[0] == 0 and last[0] > 0:
                return False
            if self.policy != "none" and lex(first) <= 0 and lex(last) >= 0:
                return False
        return True

    def cmp(self, a, b):
        """sign of a - b for time values"""
        if a.kind != b.kind:
            # an interval begins before it ends; the degenerate case is looked at, but what follows from it is no finding
            ax, bx = self.atoms(a.atoms), self.atoms(b.atoms)
            if not (ax & bx):
                raise Und("comparison of a begin with an end")
            if self.choose(2):
                self.soft = True
                return 0
            return -1 if a.kind == "lo" else 1
        if a.atoms == b.atoms:
            return 0
        if len(a.atoms) == 1 and len(b.atoms) == 1:
            (x,), (y,) = a.atoms, b.atoms
            if isinstance(x, str) and isinstance(y, str):
                c = self.pair(x, y)[0 if a.kind == "lo" else 1]
                self.learn(a, b, c)
                return c
        k = (a, b)
        if k in self.order:
            return self.order[k]
        if (b, a) in self.order:
            return -self.order[(b, a)]
        s = -1 if a.kind == "lo" else 1         # the more extreme side
        ax, bx = self.atoms(a.atoms), self.atoms(b.atoms)
        if ax == bx:
            return 0
        opts = [-1, 0, 1]
        if ax >= bx:
            opts = [s, 0]
        elif bx >= ax:
            opts = [-s, 0]
        c = opts[self.choose(len(opts))]
        self.order[k] = c
        self.learn(a, b, c)
        return c

    def learn(self, a, b, c):
        s = -1 if a.kind == "lo" else 1
        if c == s:
            self.dom.append((a.kind, a.atoms - b.atoms, b.atoms))
        elif c == -s:
            self.dom.append((a.kind, b.atoms - a.atoms, a.atoms))
        else:
            self.dom.append((a.kind, a.atoms, b.atoms))
            self.dom.append((a.kind, b.atoms, a.atoms))

    def covers(self, kind, atoms, seq=None):
        """all atoms that are no more extreme than the extreme of these"""
        cov = self.atoms(atoms)
        while True:
            n = set(cov)
            for k, A, B in self.dom:
                A, B = self.atoms(A), self.atoms(B)
                if k == kind and (A <= n and A):
                    n |= B
            if kind == "lo" and seq:
                ks = [self.key(x) for x in seq]
                hit = [i for i, x in enumerate(ks) if x in n]
                if hit:
                    n |= set(ks[hit[0]:])
            if n == cov:
                return cov
            cov = n

    def same_extreme(self, kind, got, want, seq=None):
        g, w = self.atoms(got), self.atoms(want)
        return w <= self.covers(kind, g, seq) and g <= self.covers(kind, w, seq)

    # ------------------------------------------------------------ interpretation
    def method(self, cls, name):
        r = self.prog.find(cls, name)
        return r

    def call_fn(self, fn, args, kw, ci, line=None):
        self.depth += 1
        if self.depth > 40:
            self.depth = 0
            raise Cut()
        a = fn.args
        if a.vararg or a.kwarg or a.posonlyargs:
            raise Und("parameters")
        names = [x.arg for x in a.args] + [x.arg for x in a.kwonlyargs]
        env = {}
        for n, v in zip(names, args):
            env[n] = v
        for k, v in kw.items():
            if k not in names:
                raise Und("keyword " + k)
            env[k] = v
        d = dict(zip([x.arg for x in a.args][len(a.args) - len(a.defaults):], a.defaults))
        for x, y in zip(a.kwonlyargs, a.kw_defaults):
            if y is not None:
                d[x.arg] = y
        for n in names:
            if n not in env:
                if n not in d:
                    raise Und("missing argument " + n)
                env[n] = self.ev(d[n], {}, ci)
        try:
            self.block(fn.body, env, ci)
            out = None
        except Ret as r:
            out = r.v
        self.depth -= 1
        return out

    def block(self, stmts, env, ci):
        for s in stmts:
            self.stmt(s, env, ci)

    def stmt(self, s, env, ci):
        self.lines.add(s.lineno)
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant):
                return
            if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
                self.do_yield(s.value, env, ci)
                return
            self.ev(s.value, env, ci)
        elif isinstance(s, ast.Assign):
            v = self.ev(s.value, env, ci)
            for t in s.targets:
                self.assign(t, v, env, ci)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env, ci), env, ci)
        elif isinstance(s, ast.AugAssign):
            cur = self.ev(ast.copy_location(self.load(s.target), s), env, ci)
            v = self.binop(s.op, cur, self.ev(s.value, env, ci))
            self.assign(s.target, v, env, ci)
        elif isinstance(s, ast.If):
            self.block(s.body if self.truth(self.ev(s.test, env, ci)) else s.orelse, env, ci)
        elif isinstance(s, ast.While):
            n = 0
            while self.truth(self.ev(s.test, env, ci)):
                n += 1
                if n > 8:
                    raise Cut()
                try:
                    self.block(s.body, env, ci)
                except Brk:
                    return
                except Cont:
                    pass
            self.block(s.orelse, env, ci)
        elif isinstance(s, ast.For):
            it = self.ev(s.iter, env, ci)
            if not isinstance(it, (list, tuple)):
                raise Und("loop")
            for x in list(it):
                self.assign(s.target, x, env, ci)
                try:
                    self.block(s.body, env, ci)
                except Brk:
                    return
                except Cont:
                    pass
            self.block(s.orelse, env, ci)
        elif isinstance(s, ast.Return):
            raise Ret(None if s.value is None else self.ev(s.value, env, ci))
        elif isinstance(s, ast.Break):
            raise Brk()
        elif isinstance(s, ast.Continue):
            raise Cont()
        elif isinstance(s, ast.Pass):
            pass
        elif isinstance(s, ast.Assert):
            pass
        elif isinstance(s, ast.Raise):
            n = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            raise Raised(n.id if isinstance(n, ast.Name) else "an error", s.lineno)
        elif isinstance(s, ast.Try):
            depth = self.depth
            try:
                try:
                    self.block(s.body, env, ci)
                except Raised as ex:
                    self.depth = depth
                    for h in s.handlers:
                        if self.catches(h.type, ex.kind):
                            if h.name:
                                raise Und("exception object")
                            self.block(h.body, env, ci)
                            break
                    else:
                        raise
                else:
                    self.block(s.orelse, env, ci)
            except (Cut, Und, Bad):
                raise
            except BaseException:
                self.block(s.finalbody, env, ci)
                raise
            self.block(s.finalbody, env, ci)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if not isinstance(t, ast.Subscript):
                    raise Und("del")
                self.known_del(self.ev(t.value, env, ci), self.ev(t.slice, env, ci), s)
        else:
            raise Und(f"statement {type(s).__name__}")

    def catches(self, t, kind):
        if t is None:
            return True
        names = [x.id if isinstance(x, ast.Name) else None for x in (t.elts if isinstance(t, ast.Tuple) else [t])]
        if None in names:
            raise Und("exception class")
        up = {"KeyError": "LookupError", "IndexError": "LookupError"}
        return any(x in (kind, up.get(kind), "Exception", "BaseException") for x in names)

    def load(self, t):
        t2 = ast.parse(ast.unparse(t), mode="eval").body
        return t2

    def do_yield(self, y, env, ci):
        if isinstance(y, ast.Yield):
            self.yields.append(self.res(self.ev(y.value, env, ci)) if y.value is not None else None)
            return
        v = self.ev(y.value, env, ci)
        if not isinstance(v, (list, tuple)):
            raise Und("yield from")
        self.yields += list(v)

    def assign(self, t, v, env, ci):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if not isinstance(v, (list, tuple)) or len(v) != len(t.elts) or any(isinstance(x, ast.Starred) for x in t.elts):
                raise Und("unpacking")
            for x, y in zip(t.elts, v):
                self.assign(x, y, env, ci)
        elif isinstance(t, ast.Attribute):
            o = self.res(self.ev(t.value, env, ci))
            if not isinstance(o, Obj):
                if o is None:
                    raise Raised("AttributeError", t.lineno)
                raise Und("attribute assignment")
            if o.state == "gone":
                raise Und("a node used after its subtree was handed to another call")
            if t.attr in ("low", "high") and t.attr in o.f:
                raise Und("a node's interval is changed")
            o.f[t.attr] = v
        elif isinstance(t, ast.Subscript):
            c = self.ev(t.value, env, ci)
            k = self.ev(t.slice, env, ci)
            if isinstance(c, Known):
                c[self.kkey(k)] = v
            elif isinstance(c, list) and isinstance(k, int):
                c[k] = v
            else:
                raise Und("item assignment")
        else:
            raise Und("assignment")

    narrowed = False        # only some of the worlds of a case were looked at: good for a violation only

    def kkey(self, k):
        if k in ((TV("lo", ["E"]),) * 2, (TV("hi", ["E"]),) * 2):
            # the key of an instant: the paths where the index holds no such interval
            self.narrowed = True
            return k
        if k != (TV("lo", ["E"]), TV("hi", ["E"])):
            raise Und("another key of the node dictionary")
        return k

    def known_del(self, c, k, node):
        if not isinstance(c, Known):
            raise Und("del")
        k = self.kkey(k)
        if k not in c:
            raise Raised("KeyError", node.lineno)
        del c[k]

    def truth(self, v):
        v = self.res(v)
        if isinstance(v, Stale):
            return self.choose(2) == 0
        if v is None or isinstance(v, (bool, int, float, str, list, tuple, dict)) and not isinstance(v, Known):
            return bool(v)
        if isinstance(v, Obj):
            return True
        if isinstance(v, Iv):
            if v.lo > 0 or v.hi < 0:
                return True
            if v.lo == v.hi == 0:
                return False
            self.fuzzy = True
            return bool(self.choose(2))
        raise Und(f"truth of {type(v).__name__}")

    def binop(self, op, a, b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            if isinstance(op, ast.Add):
                return a + b
            if isinstance(op, ast.Sub):
                return a - b
            if isinstance(op, ast.Mult):
                return a * b
        if isinstance(a, Cnt) and isinstance(b, int) and isinstance(op, (ast.Add, ast.Sub)):
            return Cnt(a.off + (b if isinstance(op, ast.Add) else -b))
        if isinstance(b, Cnt) and isinstance(a, int) and isinstance(op, ast.Add):
            return Cnt(b.off + a)
        if isinstance(a, (Iv, int)) and isinstance(b, (Iv, int)):
            a = a if isinstance(a, Iv) else Iv(a, a)
            b = b if isinstance(b, Iv) else Iv(b, b)
            if isinstance(op, ast.Add):
                return Iv(a.lo + b.lo, a.hi + b.hi)
            if isinstance(op, ast.Sub):
                return Iv(a.lo - b.hi, a.hi - b.lo)
        if isinstance(a, list) and isinstance(b, list) and isinstance(op, ast.Add):
            return a + b
        if isinstance(a, tuple) and isinstance(b, tuple) and isinstance(op, ast.Add):
            return a + b
        raise Und("arithmetic")

    def compare(self, op, a, b, line):
        a0, b0 = a, b
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            a, b = self.res(a), self.res(b)
            neg = isinstance(op, (ast.IsNot, ast.NotEq))
            if a is None or b is None or isinstance(a, Obj) or isinstance(b, Obj):
                return (a is b) != neg
            if isinstance(op, (ast.Is, ast.IsNot)):
                if isinstance(a, bool) or isinstance(b, bool):
                    return (a is b) != neg
                raise Und("identity")
            return self.equal(a, b) != neg
        if isinstance(op, (ast.In, ast.NotIn)):
            neg = isinstance(op, ast.NotIn)
            if isinstance(b, Known):
                return (self.kkey(a) in b) != neg
            if isinstance(b, (list, tuple)):
                return any(self.equal(a, x) for x in b) != neg
            raise Und("membership")
        c = self.sign(a, b)
        if isinstance(op, ast.Lt):
            return c < 0
        if isinstance(op, ast.LtE):
            return c <= 0
        if isinstance(op, ast.Gt):
            return c > 0
        if isinstance(op, ast.GtE):
            return c >= 0
        raise Und("comparison")

    def equal(self, a, b):
        a, b = self.res(a), self.res(b)
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            return type(a) is type(b) and len(a) == len(b) and all(self.equal(x, y) for x, y in zip(a, b))
        if isinstance(a, str) or isinstance(b, str) or isinstance(a, Obj) or isinstance(b, Obj):
            return a is b or (isinstance(a, str) and a == b)
        if isinstance(a, Cnt) and isinstance(b, int):
            raise Und("comparison of the number of edges")
        return self.sign(a, b) == 0

    def sign(self, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            for x, y in zip(a, b):
                c = self.sign(x, y)
                if c:
                    return c
            return 0
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return (a > b) - (a < b)
        if isinstance(a, TV) and isinstance(b, TV):
            return self.cmp(a, b)
        if isinstance(a, TV) and isinstance(b, float) and abs(b) == INF:
            return -1 if b > 0 else 1
        if isinstance(b, TV) and isinstance(a, float) and abs(a) == INF:
            return 1 if a > 0 else -1
        if isinstance(a, (Iv, int)) and isinstance(b, (Iv, int)):
            a = a if isinstance(a, Iv) else Iv(a, a)
            b = b if isinstance(b, Iv) else Iv(b, b)
            opts = []
            if a.lo < b.hi:
                opts.append(-1)
            if a.lo <= b.hi and b.lo <= a.hi:
                opts.append(0)
            if a.hi > b.lo:
                opts.append(1)
            if len(opts) > 1:
                self.fuzzy = True
            return opts[self.choose(len(opts))]
        if a is None or b is None:
            raise Raised("TypeError")
        raise Und(f"order of {type(a).__name__} and {type(b).__name__}")

    def ev(self, e, env, ci):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            if e.id in ("max", "min", "len", "float", "abs", "list", "tuple", "isinstance", "bool"):
                return ("#builtin", e.id)
            if e.id in self.prog.classes:
                return ("#class", e.id)
            if e.id in ci.mod.funcs:
                return Fn(ci.mod.funcs[e.id], None, ci, True)
            if e.id in ci.mod.consts:
                return self.ev(ci.mod.consts[e.id], {}, ci)
            if ci.mod.undefined(e.id):
                raise Raised("NameError", e.lineno)
            raise Und("name " + e.id)
        if isinstance(e, ast.Attribute):
            o = self.ev(e.value, env, ci)
            o = self.res(o)
            if o is None:
                raise Raised("AttributeError", e.lineno)
            if isinstance(o, Stale):
                if e.attr == "height":
                    return Iv(0, INF)
                if e.attr == "max":
                    return TV("hi", [self.key(x) for x in o.s.seq])
                raise Und("a subtree used after it was handed to another call")
            if isinstance(o, Obj):
                if o.state == "gone" and e.attr == "height":
                    return Iv(0, INF)
                if o.state == "gone" and e.attr in ("left", "right", "max", "height"):
                    raise Und("a node used after its subtree was handed to another call")
                if e.attr in o.f:
                    return o.f[e.attr]
                r = self.prog.find(o.cls, e.attr)
                if r:
                    dec = {d.id for d in r[1].decorator_list if isinstance(d, ast.Name)}
                    if "property" in dec:
                        return self.call_fn(r[1], [o], {}, r[0])
                    return Fn(r[1], o, r[0], "staticmethod" in dec)
                raise Und(f"attribute {e.attr}")
            if isinstance(o, tuple) and o and o[0] == "#class":
                r = self.prog.find(o[1], e.attr)
                if r:
                    return Fn(r[1], None, r[0], True)
            if isinstance(o, Rec):
                return [o]
            if isinstance(o, (list, Known)):
                return ("#bound", o, e.attr)
            if isinstance(e.value, ast.Name) and e.value.id == "math" and e.attr == "inf":
                return INF
            raise Und("attribute " + e.attr)
        if isinstance(e, ast.Compare):
            a = self.ev(e.left, env, ci)
            for op, r in zip(e.ops, e.comparators):
                b = self.ev(r, env, ci)
                if not self.compare(op, a, b, e.lineno):
                    return False
                a = b
            return True
        if isinstance(e, ast.BoolOp):
            v = None
            for x in e.values:
                v = self.ev(x, env, ci)
                t = self.truth(v)
                if isinstance(e.op, ast.And) and not t or isinstance(e.op, ast.Or) and t:
                    return v
            return v
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand, env, ci)
            if isinstance(e.op, ast.Not):
                return not self.truth(v)
            if isinstance(e.op, ast.USub):
                if isinstance(v, (int, float)):
                    return -v
                if isinstance(v, Iv):
                    return Iv(-v.hi, -v.lo)
            raise Und("unary")
        if isinstance(e, ast.IfExp):
            return self.ev(e.body if self.truth(self.ev(e.test, env, ci)) else e.orelse, env, ci)
        if isinstance(e, ast.NamedExpr):
            env[e.target.id] = v = self.ev(e.value, env, ci)
            return v
        if isinstance(e, ast.BinOp):
            return self.binop(e.op, self.ev(e.left, env, ci), self.ev(e.right, env, ci))
        if isinstance(e, ast.Tuple):
            return tuple(self.ev(x, env, ci) for x in e.elts)
        if isinstance(e, ast.List):
            return [self.ev(x, env, ci) for x in e.elts]
        if isinstance(e, (ast.GeneratorExp, ast.ListComp)) and len(e.generators) == 1:
            g = e.generators[0]
            it = self.ev(g.iter, env, ci)
            if not isinstance(it, (list, tuple)):
                raise Und("comprehension")
            out = []
            env = dict(env)
            for x in it:
                self.assign(g.target, x, env, ci)
                if all(self.truth(self.ev(c, env, ci)) for c in g.ifs):
                    out.append(self.ev(e.elt, env, ci))
            return out
        if isinstance(e, ast.Subscript):
            c = self.ev(e.value, env, ci)
            if isinstance(e.slice, ast.Slice):
                if isinstance(c, (tuple, list)):
                    lo = self.ev(e.slice.lower, env, ci) if e.slice.lower else None
                    hi = self.ev(e.slice.upper, env, ci) if e.slice.upper else None
                    st = self.ev(e.slice.step, env, ci) if e.slice.step else None
                    return c[lo:hi:st]
                raise Und("slice")
            k = self.ev(e.slice, env, ci)
            if isinstance(c, (tuple, list)) and isinstance(k, int):
                if not -len(c) <= k < len(c):
                    raise Raised("IndexError", e.lineno)
                return c[k]
            if isinstance(c, Known):
                k = self.kkey(k)
                if k not in c:
                    raise Raised("KeyError", e.lineno)
                return c[k]
            raise Und("subscript")
        if isinstance(e, ast.Dict) and not e.keys:
            return Known()
        if isinstance(e, ast.Call):
            return self.call(e, env, ci)
        raise Und(f"expression {type(e).__name__}")

    def call(self, e, env, ci):
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            raise Und("super")
        f = self.ev(e.func, env, ci)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env, ci)
                if not isinstance(v, (list, tuple)):
                    raise Und("star argument")
                args += list(v)
            else:
                args.append(self.ev(a, env, ci))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                raise Und("** argument")
            kw[k.arg] = self.ev(k.value, env, ci)
        if isinstance(f, Fn):
            nm = f.fn.name
            if nm in self.contracts:
                names = [x.arg for x in f.fn.args.args]
                if not f.static:
                    names = names[1:]
                vals = dict(zip(names, args), **kw)
                role, si, ni = self.contracts[nm]
                if si not in vals or ni not in vals:
                    raise Und("arguments of " + nm)
                return self.contract(role, vals[si], vals[ni], e)
            if is_gen(f.fn):
                names = [x.arg for x in f.fn.args.args][0 if f.static else 1:]
                now = dict(zip(names, args), **kw)
                outer = [x[1] for x in self.active if x[0] is f.fn]
                if outer and not any(now[k] is None and isinstance(outer[0].get(k), (Obj, Sub)) for k in now):
                    return [Rec(now, next(x[1] for x in self.active if x[0] is f.fn))]
                keep, self.yields = self.yields, []
                self.active.append((f.fn, now))
                self.call_fn(f.fn, ([] if f.static else [f.selfv]) + args, kw, f.ci)
                self.active.pop()
                out, self.yields = self.yields, keep
                return out
            return self.call_fn(f.fn, ([] if f.static else [f.selfv]) + args, kw, f.ci)
        if isinstance(f, tuple) and f[0] == "#class":
            if f[1] != self.node:
                raise Und("class " + f[1])
            o = Obj(self.node)
            r = self.prog.find(f[1], "__init__")
            if r is None:
                raise Und("constructor")
            self.call_fn(r[1], [o] + args, kw, r[0])
            lo, hi = o.f.get("low"), o.f.get("high")
            if not (isinstance(lo, TV) and isinstance(hi, TV) and lo.kind == "lo" and hi.kind == "hi" and len(lo.atoms) == 1 and lo.atoms == hi.atoms):
                raise Bad("a new node does not hold the interval of the edge", e)
            o.key = next(iter(lo.atoms))
            self.objs[o.key] = o
            return o
        if isinstance(f, tuple) and f[0] == "#builtin":
            return self.builtin(f[1], args, kw, e)
        if isinstance(f, tuple) and f[0] == "#bound":
            return self.bound(f[1], f[2], args, e)
        raise Und("call")

    def builtin(self, n, args, kw, e):
        if n in ("max", "min"):
            if kw:
                if set(kw) == {"default"} and len(args) == 1 and isinstance(args[0], list):
                    if not args[0]:
                        return kw["default"]
                else:
                    raise Und("keyword of max")
            xs = list(args[0]) if len(args) == 1 and isinstance(args[0], (list, tuple)) else args
            if not xs:
                raise Raised("ValueError", e.lineno)
            if any(x is None for x in xs):
                raise Raised("TypeError", e.lineno)
            if all(isinstance(x, (int, float)) for x in xs):
                return max(xs) if n == "max" else min(xs)
            if any(isinstance(x, TV) for x in xs):
                k = "hi" if n == "max" else "lo"
                at = set()
                for x in xs:
                    if isinstance(x, float) and x == (-INF if n == "max" else INF):
                        continue
                    if not isinstance(x, TV) or x.kind != k:
                        raise Und(n)
                    at |= x.atoms
                return TV(k, at)
            if all(isinstance(x, (Iv, int)) for x in xs):
                ys = [x if isinstance(x, Iv) else Iv(x, x) for x in xs]
                g = max if n == "max" else min
                return Iv(g(y.lo for y in ys), g(y.hi for y in ys))
            raise Und(n)
        if n == "len" and isinstance(args[0], (list, tuple)) and len(args) == 1:
            return len(args[0])
        if n == "float" and len(args) == 1 and isinstance(args[0], (str, int, float)):
            return float(args[0])
        if n in ("list", "tuple") and len(args) == 1 and isinstance(args[0], (list, tuple)):
            return list(args[0]) if n == "list" else tuple(args[0])
        if n in ("list", "dict", "tuple") and not args and not kw:
            return {"list": [], "tuple": (), "dict": Known()}[n]
        if n == "bool" and len(args) == 1:
            return self.truth(args[0])
        raise Und("call of " + n)

    def bound(self, o, m, args, e):
        if isinstance(o, Known):
            if m in ("get", "pop", "setdefault") and args:
                k = self.kkey(args[0])
                if m == "get":
                    return o.get(k, args[1] if len(args) > 1 else None)
                if m == "pop":
                    if k not in o and len(args) < 2:
                        raise Raised("KeyError", e.lineno)
                    return o.pop(k, args[1] if len(args) > 1 else None)
                return o.setdefault(k, args[1] if len(args) > 1 else None)
            raise Und("dictionary " + m)
        if m == "append":
            o.append(args[0])
            return None
        if m == "extend" and isinstance(args[0], (list, tuple)):
            o.extend(args[0])
            return None
        if m == "remove":
            for i, x in enumerate(o):
                if self.equal(x, args[0]):
                    del o[i]
                    return None
            raise Raised("ValueError", e.lineno)
        if m == "index" or m == "count":
            hits = [i for i, x in enumerate(o) if self.equal(x, args[0])]
            if m == "count":
                return len(hits)
            if not hits:
                raise Raised("ValueError", e.lineno)
            return hits[0]
        if m == "pop":
            if not o:
                raise Raised("IndexError", e.lineno)
            return o.pop(*args)
        if m == "clear":
            o.clear()
            return None
        raise Und("list " + m)

    # ------------------------------------------------------------ contracts of the recursive operations
    def contract(self, role, sub, node, e):
        node = self.res(node)
        if not isinstance(node, Obj):
            raise Und("recursive call")
        if role == "insert":
            if node.state != "live" or node.f.get("left") is not None or node.f.get("right") is not None:
                raise Und("insertion of a node that has children")
            seq = self.flatten(sub, absorb=True)
            if node in seq:
                raise Bad("inserts a node twice", e)
            mx = node.f.get("max")
            if not (isinstance(mx, TV) and mx.kind == "hi" and mx.atoms == {node.key}):
                raise Bad("a new node's maximum is not its own end", e)
            i = 0
            while i < len(seq):
                a = seq[i]
                if isinstance(a, T):
                    nxt = next((x for x in seq[i + 1:] if not isinstance(x, T)), None)
                    if nxt is not None and self.side(node, nxt) > 0:
                        i += 1
                        continue
                    l, r = T(), T()
                    l.level = r.level = self.level(a)
                    self.exp[a] = [l, r]
                    seq[i:i + 1] = [l, node, r]
                    break
                if self.side(node, a) < 0:
                    seq.insert(i, node)
                    break
                i += 1
            else:
                seq.append(node)
            node.state = "gone"
            return Sub(seq)
        seq = self.flatten(sub, absorb=True)
        if node not in seq:
            raise Bad("looks for the interval in a subtree that does not hold it", e)
        node.state = "detached"
        return Sub([a for a in seq if a is not node])

    def side(self, node, m):
        x, y = self.pair(node.key, m.key)
        if x:
            return x
        return y if self.policy != "desc" else -y

    # ------------------------------------------------------------ judging a shape
    def final(self, root):
        self.judging = True
        try:
            return self.flatten(root)
        finally:
            self.judging = False

    def judge(self, root, want, what):
        """the tree holds exactly the sequence `want` and every maximum on the way is exact"""
        got = self.final(root)
        a, b = [self.key(x) for x in self.expand(got)], [self.key(x) for x in self.expand(want)]
        if a != b:
            if set(map(str, b)) - set(map(str, a)):
                return f"{what} loses stored intervals ({self.names(b, a)})"
            if len(a) != len(set(map(str, a))):
                return f"{what} stores an interval twice"
            if set(map(str, a)) - set(map(str, b)):
                return f"{what} keeps an interval that was removed"
            return f"{what} breaks the search order"
        return self.maxima(root, what)

    def names(self, b, a):
        lost = [x for x in b if x not in a]
        return ", ".join("the interval" if x == "E" else "a subtree" if isinstance(x, T) else "a node" for x in lost)

    def maxima(self, v, what):
        if v is None or isinstance(v, Sub) and not v.done:
            return None
        v = self.res(v)
        if v is None:
            return None
        for c in ("left", "right"):
            if c not in v.f:
                return f"{what} leaves a node without {c} link"
            m = self.maxima(v.f[c], what)
            if m:
                return m
        mx = v.f.get("max")
        if not isinstance(mx, TV) or mx.kind != "hi":
            raise Und("subtree maximum")
        want = [self.key(x) for x in self.flatten(v)]
        if not self.same_extreme("hi", mx.atoms, want):
            g, w = self.atoms(mx.atoms), self.atoms(want)
            if w - g:
                return f"{what} leaves a subtree maximum that misses stored ends"
            return f"{what} leaves a subtree maximum of an interval outside the subtree"
        return None
