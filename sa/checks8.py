"""Nodes, names and graph attributes of the six classes."""
from checks5 import *
from ev import Ext
import copy as _copy


def view_is(exp, data, default):
    """a view (or list) of these nodes with their attributes, one attribute or nothing"""
    def c(v):
        if isinstance(v, Ext) and v.cls == "NodeDataView":
            _, a, k = v.calls[0]
            got = {n: dict(x) for n, x in a[0].items()}
            if got != exp:
                return f"yields the nodes {show(got)}, expected {show(exp)}"
            if k["data"] is not data and k["data"] != data:
                return f"views data={k['data']!r}, expected {data!r}"
            if isinstance(data, str) and k["default"] != default:
                return f"uses the default {k['default']!r}, expected {default!r}"
            return None
        got = iterable(v)
        want = [n if data is False else (n, exp[n] if data is True else exp[n].get(data, default)) for n in exp]
        if sorted(map(repr, map(plain_item, got))) != sorted(map(repr, map(plain_item, want))):
            return f"yields {show(got)}, expected {show(want)}"
    return value(c)


def plain_item(x):
    if isinstance(x, tuple):
        return tuple(plain_item(y) for y in x)
    return sorted(x.items(), key=repr) if isinstance(x, dict) else x


def graph_attrs(st, want):
    if st is None or not isinstance(st.get("graph"), dict):
        raise Und("graph attributes")
    return None if dict(st["graph"]) == want else f"the graph's attributes are {show(dict(st['graph']))}, expected {show(want)}"


@check("C26", "len, in, has_node and nodes (plain, with data, with one attribute and a default, with and without a window) of the four timed "
       "classes are evaluated over graphs with isolated nodes, nodes of several kinds, nodes known only through an edge and attribute values "
       "0, None and empty; constructor attributes, the name and str() of all six classes, and len/in of snapshot graphs, are evaluated over "
       "named, unnamed and empty graphs.")
def c26(ctx):
    R = ctx.run
    for cname in GRAPHS:
        T = es_times(cname)
        graphs = [([], ("z",), {"z": {"p": 0}}), ([], (), {}),
                  ([("a", "b") + T[0], ("b", "a") + T[1], ("c", "c") + T[2]], ("z",), {"a": {"p": 1, "q": None}, "z": {"p": ""}, "c": {"r": 5}}),
                  ([(("x", "y"), 0) + T[0], (0, "ab") + T[1], ("a", ("x", "y")) + T[3]], (1, "b"), {0: {"p": 0}, "b": {"p": []}, ("x", "y"): {"q": 2}}),
                  ([("a", "b") + T[0], ("a", "b") + T[2]], ("z", "y", "x"), {})]
        for es, iso, na in graphs:
            names = list(dict.fromkeys([n for e in es for n in e[:2]] + list(iso)))
            st = R.graph(cname, [(e, Attr(w=i)) for i, e in enumerate(es)], iso=iso, node_attr={n: Attr(a) for n, a in na.items()})
            exp = {n: dict(na.get(n, {})) for n in names}
            ctx.expect("nodes", cname, "__len__", st, (), {}, equals(len(names)))
            ctx.expect("nodes", cname, "number_of_nodes", st, (), {}, equals(len(names)))
            for n in names + ["missing", 7, ("x",), "A"]:
                ctx.expect("nodes", cname, "__contains__", st, (n,), {}, truth(n in names))
                ctx.expect("nodes", cname, "has_node", st, (n,), {}, truth(n in names))
            wins = [(None, None)] + ([w for w in windows(cname)[1:7] if None not in w or not is_interval(cname)] if es else [])
            for b, e in wins:
                sub = {n: exp[n] for n in names if (b, e) == (None, None) or
                       any(incident(x, n) for x in q_edges(cname, es, b, e))}
                w = win(b, e)
                if (b, e) != (None, None):
                    ctx.expect("nodes", cname, "number_of_nodes", st, (), w, equals(len(sub)), tag="window")
                    for n in names + ["missing"]:
                        ctx.expect("nodes", cname, "has_node", st, (n,), w, truth(n in sub), tag="window")
                for data in (False, True, "p", "q", "none"):
                    for dfl in ((None, 0, "d") if isinstance(data, str) else (None,)):
                        kw = dict(w, **({} if data is False else {"data": data}), **({} if dfl is None else {"default": dfl}))
                        ctx.expect("nodes", cname, "nodes", st, (), kw, view_is(sub, data, dfl), tag="data" if data is not False else None)
    for cname in GRAPHS + SNAP:
        for given in ({}, {"name": "n"}, {"name": "", "k": 0}, {"day": 3, "k": [1]}):
            try:
                ev = R.evaluator(cname, "__init__", _copy.deepcopy(R.initial(cname)), (), dict(given), hooks={"init": True})
                o = ev.outcome()
                R.last = ev
                msg = failed(o) or graph_attrs(o[3], given)
            except PyErr as ex:
                o, msg = None, f"raises {ex.kind}"
            except Exception as ex:
                ctx.undecided("attributes", f"{cname}.__init__", ex)
                continue
            if msg:
                f, l = ctx.where(cname, "__init__")
                ctx.violation("attributes", f"{cname}.__init__", f, l, f"{cname}({', '.join(f'{k}={v!r}' for k, v in given.items())}): {msg}")
                continue
            ctx.ok("attributes", f"{cname}.__init__")
            st = dict(R.initial(cname), graph=dict(given))
            ctx.expect("attributes", cname, "name", st, (), {}, equals(given.get("name", "")))
            ctx.expect("attributes", cname, "__str__", st, (), {}, equals(given.get("name", "")))
            ctx.expect("nodes", cname, "__len__", st, (), {}, equals(0), tag="empty")
            for new in ("other", ""):
                def named(o, want=dict(given, name=new)):
                    return failed(o) or graph_attrs(o[3], want)
                ctx.expect("attributes", cname, "name.setter", st, (new,), {}, named)
    for cname in SNAP:
        for segs in ([], [(0, 2)], [(0, 2), (0, 5), (2, 5)], [(0, 0), (0.5, 0.5), (3, 7)]):
            st = snap_state(R, cname, segs)
            ctx.expect("snapshots", cname, "__len__", st, (), {}, equals(len(segs)))
            for i in range(4):
                ctx.expect("snapshots", cname, "__contains__", st, (Opaque("g%d" % i),), {}, truth(i < len(segs)))
