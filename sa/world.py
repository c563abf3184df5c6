"""Abstract cases: representatives of order types, identity patterns, and the
representation of a tracked graph (the invariants the insertion/removal
properties establish)."""
import itertools

from ev import SD, TNode, Model, Opaque, Attr

INF = float("inf")


def order_type(vals):
    """canonical key: positions relative to each other and to 0 (None kept)."""
    nums = sorted(set([v for v in vals if v is not None] + [0]))
    rank = {v: i for i, v in enumerate(nums)}
    return tuple(None if v is None else rank[v] for v in vals) + (rank[0],)


def representatives(n, ok=lambda v: True, spread=4, lo=None):
    """one tuple of n integers per order type relative to each other and to 0."""
    lo = -n if lo is None else lo
    seen, out = set(), []
    for v in itertools.product(range(lo, n + 1), repeat=n):
        if not ok(v):
            continue
        k = order_type(v)
        if k in seen:
            continue
        seen.add(k)
        out.append(tuple(x * spread for x in v))
    return out


def is_interval(cname):
    return cname.startswith("Interval")


def is_directed(cname):
    return cname.endswith("DiGraph")


def build(cname, edges, iso=(), model=None, node_attr=None, nodes_first=()):
    """state dictionary of a graph holding exactly `edges` = [(edge tuple, Attr)]."""
    st = {"graph": {}, "_model": model}
    names = []
    for n in nodes_first:
        if n not in names:
            names.append(n)
    for e, a in edges:
        for n in e[:2]:
            if n not in names:
                names.append(n)
    for n in iso:
        if n not in names:
            names.append(n)
    st["_node"] = {n: (node_attr or {}).get(n, Attr()) for n in names}
    if is_directed(cname):
        P, S = {}, {}
        for n in iso:
            P[n] = {}
            S[n] = {}
        for e, a in edges:
            u, v = e[:2]
            P.setdefault(u, {}).setdefault(v, {})[e] = a
            S.setdefault(v, {}).setdefault(u, {})[e] = a
        st["_pred"], st["_succ"] = P, S
    else:
        A = {n: {} for n in iso}
        for e, a in edges:
            u, v = e[:2]
            A.setdefault(u, {}).setdefault(v, {})[e] = a
            A.setdefault(v, {}).setdefault(u, {})[e] = a
        st["_adj"] = A
    if is_interval(cname):
        nodes = {}
        for e, a in edges:
            nodes.setdefault((e[2], e[3]), []).append(e)
        tn = [TNode(k[0], k[1], es, k) for k, es in sorted(nodes.items())]
        st["#treenodes"] = tn
        st["tree.root"] = Opaque("root") if tn else None
        st["tree.begin"] = min([n.low for n in tn], default=INF)
        st["tree.end"] = max([n.high for n in tn], default=-INF)
        st["tree.number_of_edges"] = len(edges)
        st["tree.nodes"] = {(n.low, n.high): n for n in tn}
    else:
        t = SD()
        for e, a in edges:
            t.setdefault(e[2], set()).add((e[0], e[1]))
        st["tree"] = t
    return st


# ------------------------------------------------------------------ oracles
def member_interval(e, begin, end):
    """an interval edge is active in the window [begin, end)"""
    s, t = e[2], e[3]
    if begin is None and end is None:
        return True
    if begin is None:
        return s < end
    if end is None:
        return t > begin or s == begin
    return (s < end and t > begin) or s == begin


def member_impulse(e, begin, end, inclusive=(True, False)):
    t = e[2]
    if begin is not None and end is not None and begin == end:
        return t == begin
    ok = True
    if begin is not None:
        ok = ok and (t >= begin if inclusive[0] else t > begin)
    if end is not None:
        ok = ok and (t <= end if inclusive[1] else t < end)
    return ok


def pair_ok(directed, e, u, v):
    """does the edge connect the queried endpoints (None = any; lists = any of)?"""
    def ok(x, q):
        return q is None or (x in q if isinstance(q, (list, set)) else x == q)
    if ok(e[0], u) and ok(e[1], v):
        return True
    return (not directed) and ok(e[1], u) and ok(e[0], v)
