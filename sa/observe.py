"""Comparing the state an operation leaves with the state of a graph holding the expected edges:
structurally first, else through the public queries."""
from ev import Und, PyErr, Attr, SD
import world
from spec import *


def plain(v):
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (set, frozenset)):
        return {plain(x) for x in v}
    return v


def canon_state(st):
    out = {}
    for k, v in st.items():
        if k == "#treelog":
            continue
        if k == "#treenodes":
            out[k] = sorted((n.low, n.high, tuple(sorted(n.edges, key=repr))) for n in v)
        elif k == "tree.nodes":
            out[k] = sorted(v, key=repr)
        elif k == "tree.root":
            out[k] = v is not None
        else:
            out[k] = plain(v)
    return out


def expected_state(run, cname, es, iso=(), node_attr=None, nodes_first=()):
    return run.graph(cname, [(e, Attr(a)) for e, a in es], iso=iso, node_attr=node_attr, nodes_first=nodes_first)


def first_difference(run, cname, st, es, nodes, node_attr):
    """message for the first query that tells the state from the expected graph, None when they agree;
    Und when a query could not be evaluated and no other differs"""
    pend = None
    d = is_directed(cname)
    edges = [e for e, _ in es]
    times = sorted({x for e in edges for x in e[2:]} | {0})
    qs = [("edges", (), {"data": True}, edge_data(cname, es)),
          ("nodes", (), {"data": True}, node_data_is({n: (node_attr or {}).get(n, {}) for n in nodes})),
          ("__len__", (), {}, equals(len(nodes)))]
    for u in list(nodes) + ["#none"]:
        qs.append(("has_node", (u,), {}, truth(u in nodes)))
        qs.append(("edges", (), {"u": u}, edge_list(cname, q_edges(cname, edges, None, None, u))))
        if d:
            qs.append(("edges", (), {"v": u}, edge_list(cname, q_edges(cname, edges, None, None, None, u))))
        for v in nodes:
            qs.append(("has_edge", (u, v), {}, truth(bool(q_edges(cname, edges, None, None, u, v)))))
    inc = {} if is_interval(cname) else {"inclusive": (True, True)}
    for x in times:
        for y in times:
            if x <= y:
                exp = q_edges(cname, edges, x, y, None, None, (True, True))
                qs.append(("edges", (), dict(begin=x, end=y, **inc), edge_list(cname, exp)))
                qs.append(("nodes", (), dict(begin=x, end=y, **inc), node_set({n for e in exp for n in e[:2]})))
        for u in nodes:
            qs.append(("edges", (), dict(u=u, begin=x, end=x + 1, **inc),
                       edge_list(cname, q_edges(cname, edges, x, x + 1, u, None, (True, True)))))
    if edges:
        qs.append(("interval", (), {}, equals((min(e[2] for e in edges), max(e[-1] for e in edges)))))
    qs.append(("to_subgraph", (None, None), {}, None))
    for m, args, kw, pred in qs:
        try:
            o = run.invoke(cname, m, st, args, kw)
            if pred is None:
                msg = failed(o)
            else:
                msg = pred(o)
        except Und as ex:
            pend = pend or f"observer {m}: {ex}"
            continue
        except PyErr as ex:
            pend = pend or f"observer {m}: {ex.kind}"
            continue
        if msg:
            return f"afterwards {m}({', '.join([repr(a) for a in args] + [f'{k}={v!r}' for k, v in kw.items()])}) {msg}"
    if pend:
        raise Und(pend)
    return None


def node_data_is(exp):
    def c(v):
        if not isinstance(v, Ext) or v.cls != "NodeDataView":
            raise Und("nodes(data=True)")
        got = {n: dict(a) for n, a in v.calls[0][1][0].items()}
        if got != {n: dict(a) for n, a in exp.items()}:
            return f"yields {show(got)}, expected {show(exp)}"
    return value(c)


def leaves(run, cname, es, iso=(), node_attr=None, returns=None):
    """predicate: the operation returns (None) and the graph holds exactly these (edge, attributes)"""
    def pred(o):
        m = failed(o)
        if m:
            return m
        st = o[3]
        exp = expected_state(run, cname, es, iso, node_attr)
        a, b = canon_state(st), canon_state(exp)
        split = alias(st) != alias(exp)
        if a == b and not split:
            return None
        nodes = list(exp["_node"])
        a2, odd = outer(a)
        b2, odd2 = outer(b)
        key = None
        if a2 == b2:
            # only empty per-node entries differ: the queries need one look per pattern, not per time
            key = (cname, frozenset(odd ^ odd2), tuple((e[:2], tuple(sorted(x))) for e, x in es), tuple(nodes))
            if key in run.seen:
                return run.seen[key]
        m = first_difference(run, cname, st, es, nodes, node_attr) if a != b else None
        if m is None:
            m = follow_ups(run, cname, st, es, nodes, node_attr)
        if key:
            run.seen[key] = m
        return m
    return pred


def alias(st):
    """which stored edge attributes are one and the same dictionary"""
    seen = {}
    for k in ("_adj", "_pred", "_succ"):
        if isinstance(st.get(k), dict):
            for u, nb in st[k].items():
                for v, d in nb.items():
                    for e, x in d.items() if isinstance(d, dict) else ():
                        seen.setdefault(id(x), []).append((k, repr(u), repr(v), repr(e)))
    return sorted(sorted(x) for x in seen.values())


def follow_ups(run, cname, st, es, nodes, node_attr):
    """the state is laid out differently from a freshly built one: the next operation must behave all the same"""
    steps = []
    for e, a in es:
        for e2 in {e, e if is_directed(cname) else (e[1], e[0]) + e[2:]}:
            steps.append(("add_edge", e2, {"#": 1}, [(x, dict(y, **({"#": 1} if x == e else {}))) for x, y in es]))
        left = [(x, y) for x, y in es if x != e]
        if is_interval(cname):
            steps.append(("remove_edge", e, {"overlapping": False}, left))
        else:
            steps.append(("remove_edge", e + e[2:], {}, left))
    for n in nodes[:2]:
        steps.append(("remove_node", (n,), {}, [(x, y) for x, y in es if n not in x[:2]]))
    for meth, args, kw, left in steps:
        try:
            o = run.invoke(cname, meth, st, args, kw)
            m = failed(o)
            if m is None:
                keep = [n for n in nodes if meth != "remove_node" or n not in args]
                m = first_difference(run, cname, o[3], left, keep, node_attr)
        except (Und, PyErr):
            continue
        if m:
            return f"{meth}{args!r} right after it: {m}"
    return None


def outer(c):
    c, odd = dict(c), set()
    for k in ("_adj", "_pred", "_succ"):
        if isinstance(c.get(k), dict):
            odd |= {(k, n) for n, x in c[k].items() if x == {}}
            c[k] = {n: x for n, x in c[k].items() if x != {}}
    return c, odd
