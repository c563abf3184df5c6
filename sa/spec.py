"""What the operations of the graphs mean: expected results for the cases of sa/world.py."""
import itertools
from collections import Counter

from ev import Und, Attr, NX, Ext, Gen, View, Inst, Opaque, Mat
import world
from world import member_interval, member_impulse, is_directed, is_interval

INTERVAL = ("IntervalGraph", "IntervalDiGraph")
IMPULSE = ("ImpulseGraph", "ImpulseDiGraph")
GRAPHS = INTERVAL + IMPULSE
SNAP = ("SnapshotGraph", "SnapshotDiGraph")
INCL = ((True, False), (True, True), (False, True), (False, False))


def member(cname, e, begin, end, inclusive=(True, False)):
    return member_interval(e, begin, end) if is_interval(cname) else member_impulse(e, begin, end, inclusive)


def incident(e, n):
    return n in e[:2]


# ---------------------------------------------------------------- outcome predicates
def iterable(v):
    """the elements of an iterable result, or None"""
    if isinstance(v, (list, tuple, set, frozenset, dict)):
        return list(v)
    if isinstance(v, Ext) and v.cls == "NodeDataView":
        if v.calls[0][2].get("data", False) is False:
            return list(v.calls[0][1][0])
        raise Und("node data view")
    raise Und(f"result of type {type(v).__name__}")


def failed(o):
    if o[0] == "raise":
        return f"raises {o[1]}"
    if o[0] == "pyraise":
        return f"raises {o[1]} ({o[2]})"
    return None


def value(check):
    def pred(o):
        m = failed(o)
        if m:
            return m
        return check(o[1])
    return pred


def equals(x):
    def c(v):
        if isinstance(v, bool) != isinstance(x, bool) or not same(v, x):
            return f"yields {show(v)}, expected {show(x)}"
    return value(c)


def truth(x):
    def c(v):
        if bool(v) != x:
            return f"yields {v!r}, expected {x}"
    return value(c)


def same(a, b):
    return a == b


def show(v):
    s = repr(v)
    return s if len(s) < 300 else s[:300] + "..."


def canon(cname, e):
    if is_directed(cname):
        return e
    return tuple(sorted(e[:2], key=repr)) + tuple(e[2:])


def edge_list(cname, exp):
    """the result is a list of exactly these edge tuples, each once"""
    want = Counter(canon(cname, e) for e in exp)

    def c(v):
        if isinstance(v, (Gen, View)) or not isinstance(v, list):
            if isinstance(v, (set, tuple, Gen, View)):
                return f"is not a list but {type(v).__name__}"
            raise Und(f"result of type {type(v).__name__}")
        got = Counter(canon(cname, e) if isinstance(e, tuple) else e for e in v)
        if got != want:
            return f"yields {show(v)}, expected {show(list(exp))}"
    return value(c)


def edge_data(cname, exp):
    """list of (edge, value)"""
    want = sorted(((canon(cname, e), repr(x)) for e, x in exp), key=repr)

    def c(v):
        if not isinstance(v, list):
            raise Und(f"result of type {type(v).__name__}")
        got = []
        for p in v:
            if not isinstance(p, tuple) or len(p) != 2 or not isinstance(p[0], tuple):
                return f"yields {show(v)}, expected pairs (edge, data)"
            got.append((canon(cname, p[0]), repr(dict(p[1]) if isinstance(p[1], dict) else p[1])))
        if sorted(got, key=repr) != want:
            return f"yields {show(v)}, expected {show(list(exp))}"
    return value(c)


def node_set(exp):
    exp = set(exp)

    def c(v):
        got = iterable(v)
        if len(got) != len(set(got)) or set(got) != exp:
            return f"yields {sorted(got, key=repr)}, expected {sorted(exp, key=repr)}"
    return value(c)


def raises(*names):
    def pred(o):
        if o[0] == "ok":
            return f"returns {show(o[1])}, expected {'/'.join(names) or 'an exception'}"
        if names and o[1] not in names:
            return f"raises {o[1]}, expected {'/'.join(names)}"
    return pred


# ---------------------------------------------------------------- expected answers
def q_edges(cname, es, begin, end, u=None, v=None, inclusive=(True, False)):
    d = is_directed(cname)
    return [e for e in es if member(cname, e, begin, end, inclusive) and world.pair_ok(d, e, u, v)]


def q_nodes(cname, es, begin, end, inclusive=(True, False), iso=()):
    if begin is None and end is None:
        return {n for e in es for n in e[:2]} | set(iso)
    return {n for e in es if member(cname, e, begin, end, inclusive) for n in e[:2]}


# ---------------------------------------------------------------- cases
_cache = {}


def interval_cases(valid=True, spreads=(4, 0.25)):
    """(s, t, begin, end): every order type of an edge and a window relative to 0, with open bounds"""
    k = ("i", valid, spreads)
    if k in _cache:
        return _cache[k]
    out = []
    full = world.representatives(4, lambda v: v[0] <= v[1], 1)
    three = world.representatives(3, lambda v: v[0] <= v[1], 1)
    two = world.representatives(2, lambda v: v[0] <= v[1], 1)
    for sp in spreads:
        for s, t, b, e in full:
            if (b <= e) == valid:
                out.append((s * sp, t * sp, b * sp, e * sp))
        if valid:
            for s, t, x in three:
                out.append((s * sp, t * sp, x * sp, None))
                out.append((s * sp, t * sp, None, x * sp))
            for s, t in two:
                out.append((s * sp, t * sp, None, None))
    _cache[k] = out
    return out


def impulse_cases(valid=True, spreads=(4, 0.25)):
    k = ("p", valid, spreads)
    if k in _cache:
        return _cache[k]
    out = []
    for sp in spreads:
        for t, b, e in world.representatives(3, lambda v: True, 1):
            if (b <= e) == valid:
                out.append((t * sp, b * sp, e * sp))
        if valid:
            for t, x in world.representatives(2, lambda v: True, 1):
                out.append((t * sp, x * sp, None))
                out.append((t * sp, None, x * sp))
            for (t,) in world.representatives(1, lambda v: True, 1):
                out.append((t * sp, None, None))
    _cache[k] = out
    return out


TINY, HUGE = 3e-12, 1700000000000000000


def fine_cases(cname, both=False, valid=True):
    """the order types again, at instants that a tolerance, a rounding or a detour over float would make equal:
    tiny gaps, and clock readings in nanoseconds"""
    sp = (1,)
    src = [((s, t), b, e) for s, t, b, e in interval_cases(valid, sp)] if is_interval(cname) else \
        [((t,), b, e) for t, b, e in impulse_cases(valid, sp)]
    out = []
    for i, (tm, b, e) in enumerate(src):
        for j, f in enumerate((lambda x: x * TINY, lambda x: x + HUGE)):
            if both or i % 2 == j:
                g = lambda x: None if x is None else f(x)
                out.append((tuple(map(g, tm)), g(b), g(e)))
    return out


def cases(cname, valid=True):
    """(edge times, begin, end)"""
    if is_interval(cname):
        return [((s, t), b, e) for s, t, b, e in interval_cases(valid)]
    return [((t,), b, e) for t, b, e in impulse_cases(valid)]


def extras(cname, tm, i):
    """a second edge next to the tracked one, by case number"""
    far = 1000
    k = i % 6
    if is_interval(cname):
        s, t = tm
        return [[], [("a", "b", -far - 4, -far)], [("b", "c", s, t)], [("c", "d", s, t + far)], [("d", "c", far, far + 4)],
                [("b", "a", s - far, t)]][k]
    (t,) = tm
    return [[], [("a", "b", -far)], [("b", "c", t)], [("c", "d", t + far)], [("d", "c", far)], [("b", "a", t - far)]][k]


def graph(run, cname, es, **kw):
    return run.graph(cname, [(e, Attr(w=i + 1)) for i, e in enumerate(es)], **kw)
