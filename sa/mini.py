"""Abstract interpretation of module-level functions, statement by statement.

Containers keep their shape; what they hold is abstract: node labels are tokens of which only identity, order and
truth value are known, times are known by the order type of their differences relative to the time limit, libraries
are models.  A construct or an operation on an abstract value outside this reading raises Und."""
import ast
import itertools
import math
import operator
from fractions import Fraction

from ev import Und


class Raised(Exception):
    def __init__(self, kind, line=None, val=None):
        super().__init__(kind)
        self.kind, self.line, self.val = kind, line, val


class Endless(Exception):
    """no end in sight on a case of a few edges"""


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Lab:
    """a node label: identity, rank in the labels' order, truth value"""
    __slots__ = ("uni", "rank", "truthy")

    def __init__(self, uni, rank, truthy=True):
        self.uni, self.rank, self.truthy = uni, rank, truthy

    def _c(self, o):
        if not isinstance(o, Lab) or o.uni != self.uni:
            raise Und("order of a node label and something else")
        return o.rank

    def __lt__(self, o): return self.rank < self._c(o)
    def __le__(self, o): return self.rank <= self._c(o)
    def __gt__(self, o): return self.rank > self._c(o)
    def __ge__(self, o): return self.rank >= self._c(o)
    def __eq__(self, o): return isinstance(o, Lab) and (o.uni, o.rank) == (self.uni, self.rank)
    def __hash__(self): return hash((self.uni, self.rank))
    def __bool__(self): return self.truthy
    def __repr__(self): return f"{self.uni}{self.rank}"


U = 1000    # how many steps of a representative time make up the number 1: all times of a case lie within one unit


class Tm:
    """a time (dim 1), or a difference / time limit (dim 0), by representative: v thousandths"""
    __slots__ = ("dim", "v")

    def __init__(self, dim, v):
        self.dim, self.v = dim, v

    def _d(self, o):
        if isinstance(o, Tm):
            if o.dim != self.dim:
                raise Und("comparison of a time with a time difference")
            return o.v
        if isinstance(o, (int, float)) and not isinstance(o, bool):
            return o * U
        raise Und("comparison of a time with something else")

    def __add__(self, o):
        if isinstance(o, Tm) and self.dim + o.dim <= 1:
            return Tm(self.dim + o.dim, self.v + o.v)
        if isinstance(o, (int, float)) and not isinstance(o, bool):
            return Tm(self.dim, self.v + o * U)
        raise Und("arithmetic on times")
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, Tm) and self.dim >= o.dim:
            return Tm(self.dim - o.dim, self.v - o.v)
        if isinstance(o, (int, float)) and not isinstance(o, bool):
            return Tm(self.dim, self.v - o * U)
        raise Und("arithmetic on times")

    def whole(self, f):
        """int, round, floor or ceil of it"""
        n = f(Fraction(self.v) / U)
        return Tm(self.dim, n * U)

    def __neg__(self):
        if self.dim == 0:
            return Tm(0, -self.v)
        raise Und("arithmetic on times")

    def __abs__(self):
        if self.dim == 0:
            return Tm(0, abs(self.v))
        raise Und("arithmetic on times")

    def __lt__(self, o): return self.v < self._d(o)
    def __le__(self, o): return self.v <= self._d(o)
    def __gt__(self, o): return self.v > self._d(o)
    def __ge__(self, o): return self.v >= self._d(o)

    def __eq__(self, o):
        if isinstance(o, Tm):
            return o.dim == self.dim and o.v == self.v
        return isinstance(o, (int, float)) and not isinstance(o, bool) and o * U == self.v
    def __hash__(self): return hash((self.dim, self.v))
    def __bool__(self): return self.v != 0
    def __repr__(self): return f"{'t' if self.dim else 'd'}{self.v}"


class Opaque:
    """a library value nothing is known about; it swallows every operation"""
    def __repr__(self):
        return "?"


class Model:
    """base of library/object models; get(name) gives attributes, or None"""
    cls = None

    def attr(self, n, mi):
        raise Und(f"attribute {n} of {type(self).__name__}")


class Name:
    """a dotted name outside the analysed function: module, class, builtin"""
    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return self.path

    def __eq__(self, o):
        return isinstance(o, Name) and o.path == self.path

    def __hash__(self):
        return hash(self.path)


class Func:
    def __init__(self, fn, mod, env=None):
        self.fn, self.mod, self.env = fn, mod, env


class Bound:
    def __init__(self, f):
        self.f = f


class Env:
    def __init__(self, up=None):
        self.d, self.up = {}, up
        self.outer = set()

    def find(self, n):
        e = self
        while e is not None:
            if n in e.d:
                return e
            e = e.up
        return None


SAFE_METHODS = {
    list: {"append", "extend", "insert", "pop", "remove", "index", "count", "sort", "reverse", "copy", "clear"},
    dict: {"get", "keys", "values", "items", "pop", "setdefault", "update", "copy", "clear", "popitem", "fromkeys"},
    set: {"add", "remove", "discard", "pop", "union", "difference", "intersection", "update", "copy", "clear", "issubset",
          "issuperset", "isdisjoint", "symmetric_difference", "difference_update", "intersection_update"},
    frozenset: {"union", "difference", "intersection", "copy", "issubset", "issuperset", "isdisjoint"},
    tuple: {"index", "count"},
    str: {"join", "format", "startswith", "endswith", "lower", "upper", "strip", "split"},
}
BIN = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
       ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.BitOr: operator.or_, ast.BitAnd: operator.and_,
       ast.BitXor: operator.xor, ast.Pow: operator.pow, ast.RShift: operator.rshift, ast.LShift: operator.lshift}
CMP = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}


class Sect(list):
    """elements whose order the language leaves open, made explicit by the policy"""


class Mini:
    LIMIT = 200000

    def __init__(self, prog, models=None, policy=0):
        self.prog = prog
        self.models = models or {}     # dotted name -> callable(mi, args, kw)
        self.policy = policy
        self.steps = 0
        self.depth = 0
        self.seen = set()

    # ------------------------------------------------------------ names
    def glob(self, n, mod):
        if n in mod.funcs:
            return Func(mod.funcs[n], mod)
        if n in mod.classes:
            return Name(n)
        if n in mod.imports:
            src, a = mod.imports[n]
            if a is None:
                return Name(src)
            m = self.prog.modules.get(src)
            if m is not None and a in m.funcs:
                return Func(m.funcs[a], m)
            if a in self.prog.classes:
                return Name(a)
            return Name(src + "." + a)
        if n in mod.consts:
            return self.ev(mod.consts[n], Env(), mod)
        return Name(n)

    # ------------------------------------------------------------ calls
    def call_fn(self, f, args, kw):
        fn = f.fn
        self.seen.add((f.mod.path, fn.lineno, getattr(fn, "name", "lambda")))
        env = Env(f.env)
        a = fn.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        dflt = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        dflt.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        args = list(args)
        if len(args) > len(pos):
            if not a.vararg:
                raise Raised("TypeError", fn.lineno)
            env.d[a.vararg.arg] = tuple(args[len(pos):])
            args = args[:len(pos)]
        elif a.vararg:
            env.d[a.vararg.arg] = ()
        env.d.update(zip(pos, args))
        rest = {}
        names = pos + [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names and k not in env.d:
                env.d[k] = v
            elif a.kwarg and k not in names:
                rest[k] = v
            else:
                raise Raised("TypeError", fn.lineno)
        if a.kwarg:
            env.d[a.kwarg.arg] = rest
        for n in names:
            if n not in env.d:
                if n not in dflt:
                    raise Raised("TypeError", fn.lineno)
                env.d[n] = self.ev(dflt[n], Env(), f.mod)
        if isinstance(fn, ast.Lambda):
            return self.ev(fn.body, env, f.mod)
        if fn.decorator_list:
            raise Und("decorated function")
        import front
        gen = front.is_generator(fn)
        if gen:
            env.d["%y"] = []
        self.depth += 1
        if self.depth > 200:
            raise Endless("does not come to an end (recursion)")
        try:
            self.block(fn.body, env, f.mod)
            v = None
        except Ret as r:
            v = r.v
        self.depth -= 1
        return Sect_iter(env.d["%y"]) if gen else v

    def iterate(self, v, what="iteration"):
        if isinstance(v, (set, frozenset)):
            try:
                return sorted(v, reverse=self.policy % 2 == 1)
            except (TypeError, Und):
                return sorted(v, key=repr, reverse=self.policy % 2 == 1)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, Model):
            return list(v.iterate(self))
        if isinstance(v, (list, tuple, str, range, type({}.keys()), type({}.values()), type({}.items()))):
            return list(v)
        if isinstance(v, Sect_iter):
            return v.take()
        if v is None or isinstance(v, (int, float, bool, Lab, Tm)):
            raise Raised("TypeError")
        raise Und(f"{what} over {type(v).__name__}")

    def loop(self, v):
        """elements one after the other; a list may grow while it is walked"""
        if isinstance(v, list):
            i = 0
            while i < len(v):
                yield v[i]
                i += 1
        elif isinstance(v, Sect_iter):
            while v.left:
                yield v.left.pop(0)
        elif isinstance(v, dict):
            n = len(v)
            for k in list(v):
                if len(v) != n:
                    raise Raised("RuntimeError")
                yield k
        elif isinstance(v, type({}.keys())) or isinstance(v, type({}.items())) or isinstance(v, type({}.values())):
            n = len(v)
            for k in list(v):
                if len(v) != n:
                    raise Raised("RuntimeError")
                yield k
        elif isinstance(v, set):
            n = len(v)
            for k in self.iterate(v):
                if len(v) != n:
                    raise Raised("RuntimeError")
                yield k
        else:
            yield from self.iterate(v)

    # ------------------------------------------------------------ statements
    def block(self, ss, env, mod):
        for s in ss:
            self.stmt(s, env, mod)

    def stmt(self, s, env, mod):
        self.steps += 1
        if self.steps > self.LIMIT:
            raise Endless("does not come to an end")
        t = type(s)
        if t is ast.Expr:
            self.ev(s.value, env, mod)
        elif t is ast.Assign:
            v = self.ev(s.value, env, mod)
            for x in s.targets:
                self.assign(x, v, env, mod)
        elif t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, env, mod), env, mod)
        elif t is ast.AugAssign:
            self.aug(s, env, mod)
        elif t is ast.If:
            self.block(s.body if self.truth(self.ev(s.test, env, mod)) else s.orelse, env, mod)
        elif t is ast.While:
            while self.truth(self.ev(s.test, env, mod)):
                self.steps += 1
                if self.steps > self.LIMIT:
                    raise Endless("does not come to an end")
                try:
                    self.block(s.body, env, mod)
                except Brk:
                    break
                except Cont:
                    continue
            else:
                self.block(s.orelse, env, mod)
        elif t is ast.For:
            it = self.ev(s.iter, env, mod)
            if isinstance(it, Opaque):
                raise Und("loop over a library value")
            for x in self.loop(it):
                self.assign(s.target, x, env, mod)
                try:
                    self.block(s.body, env, mod)
                except Brk:
                    break
                except Cont:
                    continue
            else:
                self.block(s.orelse, env, mod)
        elif t is ast.Break:
            raise Brk()
        elif t is ast.Continue:
            raise Cont()
        elif t is ast.Return:
            raise Ret(None if s.value is None else self.ev(s.value, env, mod))
        elif t is ast.Pass:
            pass
        elif t is ast.Raise:
            if s.exc is None:
                raise Und("re-raise")
            x = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            raise Raised(ast.unparse(x).split(".")[-1], s.lineno)
        elif t is ast.Delete:
            for x in s.targets:
                if isinstance(x, ast.Name):
                    env.d.pop(x.id, None)
                elif isinstance(x, ast.Subscript):
                    o, k = self.ev(x.value, env, mod), self.index(x.slice, env, mod)
                    try:
                        del o[k]
                    except (KeyError, IndexError) as ex:
                        raise Raised(type(ex).__name__, s.lineno)
                    except TypeError:
                        raise Und("del")
                else:
                    raise Und("del")
        elif t is ast.FunctionDef:
            env.d[s.name] = Func(s, mod, env)
        elif t is ast.Assert:
            if not self.truth(self.ev(s.test, env, mod)):
                raise Raised("AssertionError", s.lineno)
        elif t is ast.Try:
            self.try_(s, env, mod)
        elif t in (ast.Import, ast.ImportFrom):
            for a in s.names:
                if t is ast.Import:
                    env.d[a.asname or a.name.split(".")[0]] = Name(a.name if a.asname else a.name.split(".")[0])
                else:
                    env.d[a.asname or a.name] = Name(a.name if a.name in self.prog.classes else f"{s.module}.{a.name}")
        elif t is ast.Nonlocal:
            for n in s.names:
                env.outer.add(n)
        else:
            raise Und(f"statement {t.__name__}")

    def try_(self, s, env, mod):
        try:
            try:
                self.block(s.body, env, mod)
            except Raised as ex:
                for h in s.handlers:
                    ks = [] if h.type is None else [ast.unparse(x).split(".")[-1] for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                    if not ks or ex.kind in ks or "Exception" in ks or ("LookupError" in ks and ex.kind in ("KeyError", "IndexError")):
                        if h.name:
                            env.d[h.name] = Opaque()
                        self.block(h.body, env, mod)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, env, mod)
        finally:
            self.block(s.finalbody, env, mod)

    def assign(self, t, v, env, mod):
        if isinstance(t, ast.Name):
            e = env
            if t.id in env.outer:
                e = env.up.find(t.id) or env
            e.d[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            xs = self.iterate(v, "unpacking")
            stars = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if stars:
                i = stars[0]
                k = len(t.elts) - 1 - i
                if len(xs) < len(t.elts) - 1:
                    raise Raised("ValueError", t.lineno)
                xs = xs[:i] + [xs[i:len(xs) - k]] + xs[len(xs) - k:]
                es = [x.value if isinstance(x, ast.Starred) else x for x in t.elts]
            else:
                es = t.elts
            if len(xs) != len(es):
                raise Raised("ValueError", t.lineno)
            for x, y in zip(es, xs):
                self.assign(x, y, env, mod)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, mod)
            k = self.index(t.slice, env, mod)
            self.setitem(o, k, v, t)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env, mod)
            if isinstance(o, Opaque):
                return
            if isinstance(o, Model):
                o.setattr(t.attr, v, self)
                return
            raise Und("attribute assignment")
        else:
            raise Und("assignment target")

    def setitem(self, o, k, v, t):
        if isinstance(o, Opaque):
            return
        if isinstance(o, Model):
            o.setitem(k, v, self)
            return
        if not isinstance(o, (list, dict)):
            raise Und("item assignment")
        if isinstance(k, slice) and isinstance(v, Sect_iter):
            v = v.take()
        try:
            o[k] = v
        except (KeyError, IndexError, TypeError, ValueError) as ex:
            raise Raised(type(ex).__name__, t.lineno)

    def aug(self, s, env, mod):
        t = s.target
        if isinstance(t, ast.Name):
            a = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), env, mod)
            b = self.ev(s.value, env, mod)
            if isinstance(a, list) and isinstance(s.op, ast.Add):
                a.extend(self.iterate(b))
                return
            if isinstance(a, (set, dict)):
                a2 = self.binop(s.op, a, b, s)
                if isinstance(a, set):
                    a.clear()
                a.update(a2)
                return
            self.assign(t, self.binop(s.op, a, b, s), env, mod)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env, mod)
            k = self.index(t.slice, env, mod)
            a = self.getitem(o, k, t)
            b = self.ev(s.value, env, mod)
            if isinstance(a, list) and isinstance(s.op, ast.Add):
                a.extend(self.iterate(b))
                return
            self.setitem(o, k, self.binop(s.op, a, b, s), t)
        else:
            raise Und("augmented assignment")

    # ------------------------------------------------------------ expressions
    def truth(self, v):
        if isinstance(v, Opaque):
            raise Und("test of a library value")
        if isinstance(v, Model):
            return v.truth(self)
        if isinstance(v, (Func, Name, Bound)):
            return True
        if isinstance(v, Sect_iter):
            return True
        return bool(v)

    def index(self, e, env, mod):
        if isinstance(e, ast.Slice):
            return slice(*[None if x is None else self.ev(x, env, mod) for x in (e.lower, e.upper, e.step)])
        return self.ev(e, env, mod)

    def getitem(self, o, k, e):
        if isinstance(o, Opaque):
            return Opaque()
        if isinstance(o, Model):
            return o.getitem(k, self)
        if isinstance(o, (list, dict, tuple, str)):
            if isinstance(k, float):
                raise Raised("TypeError", e.lineno)
            try:
                if isinstance(o, DD) and not isinstance(k, slice):
                    return o.get_(k, self)
                return o[k]
            except (KeyError, IndexError, TypeError) as ex:
                raise Raised(type(ex).__name__, getattr(e, "lineno", None))
        if o is None or isinstance(o, (int, float, set, Lab, Tm)):
            raise Raised("TypeError", e.lineno)
        raise Und(f"subscript of {type(o).__name__}")

    def binop(self, op, a, b, e):
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque()
        if isinstance(a, (Model, Name, Func)) or isinstance(b, (Model, Name, Func)):
            raise Und("operator on an object")
        if isinstance(a, Sect_iter) or isinstance(b, Sect_iter):
            raise Raised("TypeError", e.lineno)
        if isinstance(a, Lab) or isinstance(b, Lab):
            raise Und("arithmetic on a node label")
        f = BIN.get(type(op))
        if f is None:
            raise Und("operator")
        try:
            return f(a, b)
        except (TypeError, ZeroDivisionError) as ex:
            raise Raised(type(ex).__name__, e.lineno)

    def cmp1(self, op, a, b, e):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
                r = a is b
            elif isinstance(a, Name) and isinstance(b, Name):
                r = a == b
            elif isinstance(a, (list, dict, set, Model)) or isinstance(b, (list, dict, set, Model)):
                r = a is b
            elif isinstance(a, Opaque) or isinstance(b, Opaque):
                raise Und("identity of a library value")
            else:
                r = self.same(a, b)
            return r if isinstance(op, ast.Is) else not r
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque()
        if isinstance(op, ast.Eq):
            return self.same(a, b)
        if isinstance(op, ast.NotEq):
            return not self.same(a, b)
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, Model):
                r = b.contains(a, self)
            elif isinstance(b, (dict, set, frozenset)):
                try:
                    r = a in b
                except TypeError:
                    raise Raised("TypeError", e.lineno)
            else:
                r = any(self.same(a, x) for x in self.iterate(b, "membership"))
            return r if isinstance(op, ast.In) else not r
        try:
            return CMP[type(op)](a, b)
        except TypeError:
            if any(isinstance(x, (Model, Name, Func, Sect_iter)) for x in (a, b)):
                raise Und("comparison")
            raise Raised("TypeError", e.lineno)

    def same(self, a, b):
        if isinstance(a, Tm) and not isinstance(b, Tm) and b is not None or isinstance(b, Tm) and not isinstance(a, Tm) and a is not None:
            if (a.dim if isinstance(a, Tm) else b.dim) == 0:
                return (a.v == b) if isinstance(a, Tm) else (a == b.v)
            raise Und("a time compared with a constant")
        if isinstance(a, Lab) and isinstance(b, (int, float, str)) or isinstance(b, Lab) and isinstance(a, (int, float, str)):
            raise Und("a node label compared with a constant")
        if isinstance(a, Lab) and isinstance(b, Lab) and a.uni != b.uni:
            raise Und("a graph node compared with a motif node")
        return a == b

    def ev(self, e, env, mod):
        self.steps += 1
        if self.steps > self.LIMIT:
            raise Endless("does not come to an end")
        t = type(e)
        if t is ast.Name:
            x = env.find(e.id)
            if x is not None:
                return x.d[e.id]
            if mod.undefined(e.id):
                raise Raised("NameError", e.lineno)
            return self.glob(e.id, mod)
        if t is ast.Constant:
            return e.value
        if t is ast.Compare:
            a = self.ev(e.left, env, mod)
            for op, c in zip(e.ops, e.comparators):
                b = self.ev(c, env, mod)
                r = self.cmp1(op, a, b, e)
                if isinstance(r, Opaque):
                    return r
                if not r:
                    return False
                a = b
            return True
        if t is ast.Call:
            return self.call(e, env, mod)
        if t is ast.Attribute:
            o = self.ev(e.value, env, mod)
            return self.attr(o, e.attr, e)
        if t is ast.Subscript:
            o = self.ev(e.value, env, mod)
            return self.getitem(o, self.index(e.slice, env, mod), e)
        if t is ast.BinOp:
            return self.binop(e.op, self.ev(e.left, env, mod), self.ev(e.right, env, mod), e)
        if t is ast.BoolOp:
            v = None
            for x in e.values:
                v = self.ev(x, env, mod)
                if self.truth(v) != isinstance(e.op, ast.And):
                    return v
            return v
        if t is ast.UnaryOp:
            v = self.ev(e.operand, env, mod)
            if isinstance(e.op, ast.Not):
                return not self.truth(v)
            if isinstance(v, Opaque):
                return v
            if isinstance(e.op, ast.USub) and isinstance(v, (int, float, Tm)):
                return -v
            raise Und("unary operator")
        if t is ast.IfExp:
            return self.ev(e.body if self.truth(self.ev(e.test, env, mod)) else e.orelse, env, mod)
        if t is ast.Tuple:
            return tuple(self.elts(e.elts, env, mod))
        if t is ast.List:
            return self.elts(e.elts, env, mod)
        if t is ast.Set:
            return set(self.elts(e.elts, env, mod))
        if t is ast.Dict:
            d = {}
            for k, v in zip(e.keys, e.values):
                if k is None:
                    d.update(self.ev(v, env, mod))
                else:
                    d[self.ev(k, env, mod)] = self.ev(v, env, mod)
            return d
        if t in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            out = []
            inner = Env(env)

            def go(i):
                if i == len(e.generators):
                    if t is ast.DictComp:
                        out.append((self.ev(e.key, inner, mod), self.ev(e.value, inner, mod)))
                    else:
                        out.append(self.ev(e.elt, inner, mod))
                    return
                g = e.generators[i]
                it = self.ev(g.iter, inner if i else env, mod)
                for x in self.loop(it):
                    self.assign(g.target, x, inner, mod)
                    if all(self.truth(self.ev(c, inner, mod)) for c in g.ifs):
                        go(i + 1)
            go(0)
            if t is ast.ListComp:
                return out
            if t is ast.SetComp:
                return set(out)
            if t is ast.DictComp:
                return dict(out)
            return Sect_iter(out)
        if t is ast.Lambda:
            return Func(e, mod, env)
        if t is ast.JoinedStr:
            return "text"
        if t is ast.NamedExpr:
            v = self.ev(e.value, env, mod)
            self.assign(e.target, v, env, mod)
            return v
        if t is ast.Yield:
            env.find("%y").d["%y"].append(None if e.value is None else self.ev(e.value, env, mod))
            return None
        if t is ast.YieldFrom:
            v = self.ev(e.value, env, mod)
            env.find("%y").d["%y"].extend(self.iterate(v))
            return None
        if t is ast.Starred:
            raise Und("starred expression")
        raise Und(f"expression {t.__name__}")

    def elts(self, xs, env, mod):
        out = []
        for x in xs:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.ev(x.value, env, mod)))
            else:
                out.append(self.ev(x, env, mod))
        return out

    def attr(self, o, n, e):
        if isinstance(o, Opaque):
            return Opaque()
        if isinstance(o, Name):
            if n in self.prog.classes and o.path.startswith("dynetworkx"):
                return Name(n)
            return Name(o.path + "." + n)
        if isinstance(o, Model):
            return o.attr(n, self)
        for ty, ms in SAFE_METHODS.items():
            if isinstance(o, ty):
                if n in ms:
                    return Bound(("method", o, n))
                raise Und(f"method {n}")
        if o is None:
            raise Raised("AttributeError", e.lineno)
        raise Und(f"attribute {n}")

    def apply(self, f, args, kw, e=None):
        if isinstance(f, Func):
            return self.call_fn(f, args, kw)
        if isinstance(f, Opaque):
            return Opaque()
        if isinstance(f, Bound):
            if callable(f.f):
                return f.f(*args, **kw)
            return self.method(f.f[1], f.f[2], args, kw, e)
        if isinstance(f, Name):
            return self.named(f.path, args, kw, e)
        raise Und("call of a value")

    def call(self, e, env, mod):
        f = self.ev(e.func, env, mod)
        args = self.elts(e.args, env, mod)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.ev(k.value, env, mod))
            else:
                kw[k.arg] = self.ev(k.value, env, mod)
        return self.apply(f, args, kw, e)

    def plain(self, v):
        return v.take() if isinstance(v, Sect_iter) else v

    def keyed(self, kw):
        k = kw.get("key")
        out = {}
        if k is not None:
            out["key"] = (lambda x: len(x)) if isinstance(k, Name) and k.path == "len" else (lambda x: self.apply(k, [x], {}))
        if "reverse" in kw:
            out["reverse"] = self.truth(kw["reverse"])
        if set(kw) - {"key", "reverse", "default"}:
            raise Und("keyword argument")
        return out

    def method(self, o, n, args, kw, e):
        line = getattr(e, "lineno", None)
        try:
            if n == "sort":
                o.sort(**self.keyed(kw))
                return None
            if isinstance(o, (set, frozenset, list)) and n in ("union", "difference", "intersection", "update", "extend", "issubset",
                                                               "issuperset", "isdisjoint", "symmetric_difference", "difference_update", "intersection_update"):
                args = [self.iterate(a) for a in args]
            if isinstance(o, set) and n == "pop":
                if not o:
                    raise Raised("KeyError", line)
                x = self.iterate(o)[0]
                o.remove(x)
                return x
            if isinstance(o, dict) and n == "fromkeys":
                return dict.fromkeys(self.iterate(args[0]), *args[1:])
            if isinstance(o, dict) and n == "update":
                args = [a if isinstance(a, dict) else self.iterate(a) for a in args]
            if isinstance(o, str) and n in ("format",):
                return "text"
            if any(isinstance(a, (Opaque, Model, Sect_iter)) for a in args) and isinstance(o, str):
                raise Und("text")
            return getattr(o, n)(*args, **kw)
        except (KeyError, IndexError, ValueError, TypeError) as ex:
            raise Raised(type(ex).__name__, line)

    def named(self, p, args, kw, e):
        line = getattr(e, "lineno", None)
        if p in self.models:
            return self.models[p](self, args, kw)
        h = getattr(self, "b_" + p.replace(".", "_"), None)
        if h is None:
            if p.split(".")[0] in ("pandas", "numpy"):
                return Opaque()
            if p.endswith(("Error", "Exception", "Warning")):
                return Opaque()
            raise Und(f"call of {p}")
        try:
            return h(*args, **kw)
        except (TypeError, ValueError, KeyError, IndexError) as ex:
            raise Raised(type(ex).__name__, line)

    # builtins
    def b_len(self, x):
        if isinstance(x, Opaque):
            return x
        if isinstance(x, Model):
            return x.length(self)
        if isinstance(x, Sect_iter):
            raise TypeError
        return len(x)

    def b_sorted(self, x, **kw): return sorted(self.iterate(x), **self.keyed(kw))
    def b_tuple(self, x=()): return tuple(self.iterate(x))
    def b_list(self, x=()): return list(self.iterate(x))
    def b_set(self, x=()): return set(self.iterate(x))
    def b_frozenset(self, x=()): return frozenset(self.iterate(x))
    def b_sum(self, x, start=0):
        for y in self.iterate(x):
            start = start + y
        return start
    def b_dict(self, x=(), **kw): return dict(x if isinstance(x, dict) else [tuple(self.iterate(y)) for y in self.iterate(x)], **kw)
    def b_range(self, *a): return range(*a)
    def b_enumerate(self, x, start=0): return Sect_iter(list(enumerate(self.iterate(x), start)))
    def b_zip(self, *xs, **kw): return Sect_iter(list(zip(*[self.iterate(x) for x in xs])))
    def b_reversed(self, x): return Sect_iter(list(reversed(self.iterate(x))))
    def b_iter(self, x): return Sect_iter(self.iterate(x))
    def b_next(self, x, *d):
        if not isinstance(x, Sect_iter):
            raise TypeError
        if not x.left:
            if d:
                return d[0]
            raise Raised("StopIteration")
        return x.left.pop(0)
    def b_any(self, x): return any(self.truth(y) for y in self.iterate(x))
    def b_all(self, x): return all(self.truth(y) for y in self.iterate(x))
    def b_abs(self, x): return abs(x)
    def b_bool(self, x=False): return self.truth(x)
    def b_int(self, x=0):
        if isinstance(x, Tm):
            return x.whole(int)
        if isinstance(x, Lab):
            raise Und("int of an abstract value")
        return int(x)
    def b_round(self, x, n=None):
        if isinstance(x, Tm):
            if n is None:
                return x.whole(round)
            if isinstance(n, int):
                return Tm(x.dim, round(Fraction(x.v) / U, n) * U)
        if isinstance(x, (int, float)):
            return round(x) if n is None else round(x, n)
        raise Und("round")
    def b_float(self, x=0.0):
        if isinstance(x, Tm):
            return x
        if isinstance(x, (int, float, str)):
            return float(x)
        raise Und("float of an abstract value")
    def b_math_floor(self, x): return x.whole(math.floor) if isinstance(x, Tm) else math.floor(x)
    def b_math_ceil(self, x): return x.whole(math.ceil) if isinstance(x, Tm) else math.ceil(x)
    def b_str(self, x=""):
        if isinstance(x, (Lab, Tm)) or isinstance(x, (tuple, list)) and any(isinstance(y, (Lab, Tm, tuple, list)) for y in x):
            raise Und("text of an abstract value")
        return "text"
    b_repr = b_str
    def b_print(self, *a, **k): return None
    def b_id(self, x): return id(x)

    def _mm(self, f, args, kw):
        k = self.keyed(kw)
        xs = self.iterate(args[0]) if len(args) == 1 else list(args)
        if not xs and "default" in kw:
            return kw["default"]
        return f(xs, **k)
    def b_min(self, *a, **kw): return self._mm(min, a, kw)
    def b_max(self, *a, **kw): return self._mm(max, a, kw)
    def b_map(self, f, *xs): return Sect_iter([self.apply(f, list(a), {}) for a in zip(*[self.iterate(x) for x in xs])])
    def b_filter(self, f, x):
        return Sect_iter([y for y in self.iterate(x) if self.truth(y if f is None else self.apply(f, [y], {}))])
    def b_isinstance(self, x, c):
        cs = list(c) if isinstance(c, tuple) else [c]
        if not all(isinstance(k, Name) for k in cs):
            raise Und("isinstance")
        if isinstance(x, Model):
            if x.cls is None:
                raise Und("isinstance of a library object")
            return any(self.prog.is_sub(x.cls, k.path) for k in cs)
        host = {"int": int, "float": float, "str": str, "list": list, "tuple": tuple, "dict": dict, "set": set, "bool": bool}
        if isinstance(x, (Lab, Tm, Opaque, Name, Func)):
            if all(k.path in self.prog.classes for k in cs):
                return False
            raise Und("isinstance of an abstract value")
        return any(k.path in host and isinstance(x, host[k.path]) for k in cs)
    def b_type(self, x):
        if isinstance(x, Model) and x.cls:
            return Name(x.cls)
        return Opaque()
    def b_issubclass(self, a, b):
        return self.prog.is_sub(a.path, b.path)

    # library
    def b_itertools_combinations(self, x, r): return Sect_iter(list(itertools.combinations(self.iterate(x), r)))
    def b_itertools_permutations(self, x, r=None): return Sect_iter(list(itertools.permutations(self.iterate(x), r)))
    def b_itertools_product(self, *xs, repeat=1): return Sect_iter(list(itertools.product(*[self.iterate(x) for x in xs], repeat=repeat)))
    def b_itertools_combinations_with_replacement(self, x, r): return Sect_iter(list(itertools.combinations_with_replacement(self.iterate(x), r)))
    def b_itertools_chain(self, *xs): return Sect_iter([y for x in xs for y in self.iterate(x)])
    def b_itertools_chain_from_iterable(self, xs): return Sect_iter([y for x in self.iterate(xs) for y in self.iterate(x)])
    def b_itertools_groupby(self, x, key=None):
        xs = self.iterate(x)
        ks = [y if key is None else self.apply(key, [y], {}) for y in xs]
        out = []
        for k, y in zip(ks, xs):
            if out and self.same(out[-1][0], k):
                out[-1][1].left.append(y)
            else:
                out.append((k, Sect_iter([y])))
        return Sect_iter(out)
    def b_itertools_islice(self, x, *a): return Sect_iter(list(itertools.islice(self.iterate(x), *a)))
    def b_operator_itemgetter(self, *ks):
        return Bound(lambda x: x[ks[0]] if len(ks) == 1 else tuple(x[k] for k in ks))
    def b_collections_OrderedDict(self, *a, **k): return self.b_dict(*a, **k)
    def b_collections_OrderedDict_fromkeys(self, x, *d): return dict.fromkeys(self.iterate(x), *d)
    def b_dict_fromkeys(self, x, *d): return dict.fromkeys(self.iterate(x), *d)
    def b_collections_defaultdict(self, f=None, *a):
        d = DD(*a)
        d.f = f
        return d
    def b_collections_Counter(self, x=()):
        d = DD()
        d.f = Name("int")
        d.counter = True
        if isinstance(x, dict):
            d.update(x)
        else:
            for y in self.iterate(x):
                d[y] = d.get(y, 0) + 1
        return d
    def b_collections_deque(self, x=()):
        return Deque(self.iterate(x))
    def b_random_choice(self, x):
        xs = x if isinstance(x, (list, tuple)) else None
        if xs is None:
            raise Raised("TypeError")
        if not xs:
            raise Raised("IndexError")
        return xs[[0, -1, len(xs) // 2][self.policy % 3]]
    def b_random_shuffle(self, x):
        if self.policy % 2:
            x.reverse()
    def b_copy_copy(self, x):
        if isinstance(x, (list, dict, set, tuple)):
            return x.copy() if not isinstance(x, tuple) else x
        raise Und("copy")
    def b_copy_deepcopy(self, x):
        import copy
        if isinstance(x, (list, dict, set, tuple)):
            return copy.deepcopy(x)
        raise Und("copy")


class DD(dict):
    f = None
    counter = False

    def get_(self, k, mi):
        if k in self or self.f is None:
            return self[k]
        v = 0 if isinstance(self.f, Name) and self.f.path == "int" else mi.apply(self.f, [], {})
        if not self.counter:
            self[k] = v
        return v


class Deque(list):
    pass


class Sect_iter:
    """an iterator whose elements were computed eagerly; consumed once"""
    def __init__(self, xs):
        self.left = list(xs)

    def take(self):
        xs, self.left = self.left, []
        return xs


# ---------------------------------------------------------------- models
class NxGraph(Model):
    """an undirected static graph of networkx"""
    def __init__(self, nodes=(), edges=()):
        self.adj = {}
        for n in nodes:
            self.adj.setdefault(n, {})
        for u, v in edges:
            self.add(u, v)

    def add(self, u, v):
        self.adj.setdefault(u, {})
        self.adj.setdefault(v, {})
        self.adj[u][v] = {}
        self.adj[v][u] = {}

    def iterate(self, mi):
        return list(self.adj)

    def truth(self, mi):
        return bool(self.adj)

    def length(self, mi):
        return len(self.adj)

    def contains(self, x, mi):
        return x in self.adj

    def getitem(self, k, mi):
        if k not in self.adj:
            raise Raised("KeyError")
        return dict(self.adj[k])

    def attr(self, n, mi):
        if n in ("nodes", "edges", "adj"):
            return View(self, n)
        f = getattr(self, "m_" + n, None)
        if f is None:
            raise Und(f"networkx Graph.{n}")
        return Bound(lambda *a, **k: f(mi, *a, **k))

    def m_neighbors(self, mi, v):
        if v not in self.adj:
            raise Raised("NetworkXError")
        return Sect_iter(self.adj[v])

    def m_subgraph(self, mi, ns):
        keep = mi.iterate(ns)
        g = NxGraph([n for n in self.adj if n in keep])
        for u in g.adj:
            for v in self.adj[u]:
                if v in g.adj:
                    g.adj[u][v] = {}
        return g

    def m_copy(self, mi):
        return self.m_subgraph(mi, list(self.adj))

    def m_to_undirected(self, mi):
        return self.m_copy(mi)

    def m_add_edge(self, mi, u, v, **k):
        self.add(u, v)

    def m_add_node(self, mi, u, **k):
        self.adj.setdefault(u, {})

    def m_add_nodes_from(self, mi, ns, **k):
        for n in mi.iterate(ns):
            self.adj.setdefault(n, {})

    def m_add_edges_from(self, mi, es, **k):
        for e in mi.iterate(es):
            e = mi.iterate(e)
            self.add(e[0], e[1])

    def m_number_of_nodes(self, mi):
        return len(self.adj)

    m_order = m_number_of_nodes

    def m_number_of_edges(self, mi, u=None, v=None):
        if u is not None:
            return int(u in self.adj and v in self.adj[u])
        return len(View(self, "edges").items())

    def m_size(self, mi, weight=None):
        if weight is not None:
            raise Und("networkx Graph.size by weight")
        return self.m_number_of_edges(mi)

    def m_degree(self, mi, v):
        if v not in self.adj:
            raise Raised("KeyError")
        return len(self.adj[v]) + (v in self.adj[v])

    def m_remove_edge(self, mi, u, v):
        if u not in self.adj or v not in self.adj[u]:
            raise Raised("NetworkXError")
        del self.adj[u][v]
        self.adj[v].pop(u, None)

    def m_remove_node(self, mi, u):
        if u not in self.adj:
            raise Raised("NetworkXError")
        for v in self.adj.pop(u):
            if v in self.adj:
                self.adj[v].pop(u, None)

    def m_has_node(self, mi, n):
        return n in self.adj

    def m_has_edge(self, mi, u, v):
        return u in self.adj and v in self.adj[u]


class View(Model):
    def __init__(self, g, kind):
        self.g, self.kind = g, kind

    def items(self):
        if self.kind in ("nodes", "adj"):
            return list(self.g.adj)
        out = []
        for u in self.g.adj:
            for v in self.g.adj[u]:
                if (v, u) not in out:
                    out.append((u, v))
        return out

    def iterate(self, mi):
        return self.items()

    def length(self, mi):
        return len(self.items())

    def truth(self, mi):
        return bool(self.items())

    def contains(self, x, mi):
        return x in self.items()

    def getitem(self, k, mi):
        if self.kind == "adj":
            return self.g.getitem(k, mi)
        raise Und("view item")


def call_view(mi, v, args, kw):
    if args or kw:
        raise Und("arguments of a view")
    return v


class Frame(Model):
    """a pandas DataFrame known by index, columns and cells"""
    def __init__(self, index, columns, fill=None):
        self.index, self.columns = list(index), list(columns)
        self.cells = {(i, c): fill for i in self.index for c in self.columns}

    def iterate(self, mi):
        return list(self.columns)

    def length(self, mi):
        return len(self.index)

    def truth(self, mi):
        raise Raised("ValueError")

    def contains(self, x, mi):
        return x in self.columns

    def attr(self, n, mi):
        if n == "columns":
            return list(self.columns)
        if n == "index":
            return list(self.index)
        if n in ("at", "loc"):
            return At(self)
        if n == "copy":
            return Bound(lambda deep=True: self.copy())
        if n == "fillna":
            return Bound(lambda v: self.filled(v))
        if n == "astype":
            return Bound(lambda *a, **k: self.copy())
        raise Und(f"DataFrame.{n}")

    def copy(self):
        f = Frame(self.index, self.columns)
        f.cells = dict(self.cells)
        return f

    def filled(self, v):
        f = self.copy()
        f.cells = {k: v if x is None else x for k, x in f.cells.items()}
        return f

    def setitem(self, c, v, mi):
        if not isinstance(v, (int, float)):
            raise Und("column values")
        if c not in self.columns:
            self.columns.append(c)
        for i in self.index:
            self.cells[(i, c)] = v

    def getitem(self, c, mi):
        if c not in self.columns:
            raise Raised("KeyError")
        return Col(self, c)


class Col(Model):
    def __init__(self, f, c):
        self.f, self.c = f, c

    def attr(self, n, mi):
        if n == "values":
            return self
        raise Und(f"column.{n}")

    def setitem(self, k, v, mi):
        if isinstance(k, slice) and (k.start, k.stop, k.step) == (None, None, None) and isinstance(v, (int, float)):
            for i in self.f.index:
                self.f.cells[(i, self.c)] = v
            return
        if k in self.f.index:
            self.f.cells[(k, self.c)] = v
            return
        raise Und("column item")

    def getitem(self, k, mi):
        if (k, self.c) in self.f.cells:
            return self.f.cells[(k, self.c)]
        raise Raised("KeyError")


class At(Model):
    def __init__(self, f):
        self.f = f

    def getitem(self, k, mi):
        if not isinstance(k, tuple) or len(k) != 2:
            raise Und("DataFrame.at")
        if k not in self.f.cells:
            raise Raised("KeyError")
        v = self.f.cells[k]
        return float("nan") if v is None else v

    def setitem(self, k, v, mi):
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], slice) and k[1] in self.f.columns and isinstance(v, (int, float)):
            for i in self.f.index:
                self.f.cells[(i, k[1])] = v
            return
        if not isinstance(k, tuple) or len(k) != 2 or any(isinstance(x, slice) for x in k):
            raise Und("DataFrame.at")
        self.f.cells[k] = v
        if k[0] not in self.f.index:
            self.f.index.append(k[0])
        if k[1] not in self.f.columns:
            self.f.columns.append(k[1])


def nx_graph(mi, args, kw):
    if kw or len(args) > 1:
        raise Und("networkx Graph arguments")
    if not args or args[0] is None:
        return NxGraph()
    a = args[0]
    if isinstance(a, NxGraph):
        return a.m_copy(mi)
    g = NxGraph()
    if isinstance(a, (list, tuple, set, Sect_iter)):
        g.m_add_edges_from(mi, a)
        return g
    raise Und("networkx Graph argument")


def frame(mi, args, kw):
    names = ("data", "index", "columns", "dtype")
    d = dict(zip(names, args), **kw)
    if set(d) - set(names) or "index" not in d or "columns" not in d:
        return Opaque()
    fill = d.get("data")
    if fill is not None and not isinstance(fill, (int, float)):
        return Opaque()
    return Frame(mi.iterate(d["index"]), mi.iterate(d["columns"]), fill)


class TimedGraph(Model):
    """a timed graph of the package, seen through its queries (which their own checks decide)"""
    def __init__(self, cls, nodes, events, directed=True):
        self.cls, self.nodes_, self.events, self.directed = cls, list(nodes), list(events), directed

    def iterate(self, mi):
        return list(self.nodes_)

    def length(self, mi):
        return len(self.nodes_)

    def truth(self, mi):
        return bool(self.nodes_)

    def contains(self, x, mi):
        return x in self.nodes_

    def attr(self, n, mi):
        f = getattr(self, "m_" + n, None)
        if f is None:
            raise Und(f"{self.cls}.{n}")
        return Bound(lambda *a, **k: f(mi, *a, **k))

    def m_edges(self, mi, u=None, v=None, begin=None, end=None, **kw):
        if kw or begin is not None or end is not None:
            raise Und("windowed edge query")
        es = [x for x in self.events if (u is None or x[0] == u) and (v is None or x[1] == v)]
        return es[::-1] if mi.policy % 2 else es

    def m_nodes(self, mi, *a, **k):
        if a or k:
            raise Und("windowed node query")
        return list(self.nodes_)

    def m_to_networkx_graph(self, mi, *a, **k):
        if a or k:
            raise Und("windowed export")
        return NxGraph(self.nodes_, [x[:2] for x in self.events])

    def m_has_edge(self, mi, u, v, **kw):
        if kw:
            raise Und("windowed edge query")
        return any(x[0] == u and x[1] == v for x in self.events)

    def m_number_of_nodes(self, mi):
        return len(self.nodes_)


MODELS = {
    "networkx.Graph": nx_graph,
    "pandas.DataFrame": frame,
}
_apply = Mini.apply


def apply(self, f, args, kw, e=None):
    if isinstance(f, View):
        return call_view(self, f, args, kw)
    return _apply(self, f, args, kw, e)


Mini.apply = apply
