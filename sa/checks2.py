"""Properties of queries: endpoints, purity, exports, snapshots."""
from checks import *
from ev import SD
from run import Run


def es_times(cname, sc=1):
    """times used in the multi-edge graphs"""
    T = [(0, 4), (2, 6), (-4, 0), (4, 4)] if is_interval(cname) else [(0,), (2,), (-4,), (6,)]
    return [tuple(x * sc for x in t) for t in T]


def windows(cname, sc=1):
    w = [(None, None), (0, 4), (-4, 0), (2, 2), (4, 8), (None, 2), (2, None), (100, 200), (None, 0), (0, None)]
    return [tuple(None if x is None else x * sc for x in t) for t in w]


# only the order of times may matter: every graph is used at one or more scales
SCALES = (1, 0.25, 16)


def endpoint_graphs(cname, sc=1):
    T = es_times(cname, sc)
    p = ("x", "y")
    return [
        [("a", "b") + T[0], ("b", "a") + T[1], ("b", "c") + T[2], ("a", "a") + T[1]],
        [("a", "b") + T[0], ("a", "b") + T[1], ("b", "a") + T[3], ("c", "a") + T[0], ("d", "c") + T[2], ("c", "d") + T[0]],
        [(p, "a") + T[0], ("x", "y") + T[1], ("ab", "c") + T[0], ("a", "b") + T[2], (0, "a") + T[0], (False or 1, 0) + T[1]],
    ]


@check("C06", "edges() of the four graph classes is evaluated for every combination of endpoint arguments (absent, node, unknown "
       "node, list, set, tuple-labelled node, string node, node 0) with and without a window, and has_edge/degree for every "
       "pair/node of graphs with parallel, reversed and self-loop edges; results are compared with the defining endpoint and "
       "direction conditions and, with data, with the stored attribute of each edge.")
def c06(ctx):
    R = ctx.run
    p = ("x", "y")
    for cname in GRAPHS:
        d = is_directed(cname)
        for gi, sc in [(i, x) for i in range(3) for x in (SCALES if ctx.thorough else SCALES[i % 2:i % 2 + 1])]:
            es = endpoint_graphs(cname, sc)[gi]
            attrs = {e: {"w": i, "k%d" % i: "v"} if i % 2 == 0 else {"q": i} for i, e in enumerate(es)}
            st = R.graph(cname, [(e, Attr(attrs[e])) for e in es], iso=("z",))
            if gi == 2:
                us = [None, "a", p, "x", ["a", "x"], "ab", 0, [0, 1], {p, 1}, {"a"}]
            else:
                us = [None, "a", "b", "z", "missing", ["a", "b"], {"c"}, ["a", "missing", "z"], [], ["a", "a"], {"a", "b", "c"}]
            ws = windows(cname, sc)
            for b, e in ws:
                for u in us:
                    for v in us:
                        if not ctx.thorough and (b, e) != (None, None) and (us.index(u) + us.index(v)) % 2:
                            continue
                        kw = win(b, e)
                        if u is not None:
                            kw["u"] = u
                        if v is not None:
                            kw["v"] = v
                        exp = q_edges(cname, es, b, e, u, v)
                        ctx.expect("endpoints", cname, "edges", st, (), kw, edge_list(cname, exp))
            for u in (None, "a", ["a", "b", p]):
                for b, e in ws[:2]:
                    exp = q_edges(cname, es, b, e, u)
                    kw = dict(win(b, e), **({} if u is None else {"u": u}))
                    ctx.expect("data", cname, "edges", st, (), dict(kw, data=True), edge_data(cname, [(x, attrs[x]) for x in exp]))
                    for k in ("w", "q", "nope"):
                        for dfl in (None, 0, "d"):
                            kk = dict(kw, data=k)
                            if dfl is not None:
                                kk["default"] = dfl
                            ctx.expect("data", cname, "edges", st, (), kk,
                                       edge_data(cname, [(x, attrs[x].get(k, dfl)) for x in exp]), tag="key")
            ns = [n for n in dict.fromkeys([n for x in es for n in x[:2]] + ["z"])]
            for u in ns + ["missing"]:
                for v in ns + ["missing"]:
                    for b, e in ws:
                        ctx.expect("endpoints", cname, "has_edge", st, (u, v), win(b, e), truth(bool(q_edges(
                            cname, es, b, e, u, v, (True, True) if cname == "ImpulseDiGraph" else (True, False)))))
                    if is_interval(cname):
                        for tm in es_times(cname, sc):
                            ex = any(canon(cname, x) == canon(cname, (u, v) + tm) for x in es)
                            ctx.expect("endpoints", cname, "has_edge", st, (u, v) + tm, {"overlapping": False}, truth(ex), tag="exact")
            for n in ns:
                for b, e in ws:
                    w = q_edges(cname, es, b, e)
                    if d:
                        i, o = sum(x[1] == n for x in w), sum(x[0] == n for x in w)
                        ctx.expect("degree", cname, "in_degree", st, (n,), win(b, e), equals(i))
                        ctx.expect("degree", cname, "out_degree", st, (n,), win(b, e), equals(o))
                        ctx.expect("degree", cname, "degree", st, (n,), win(b, e), equals(i + o))
                    elif is_interval(cname) or e is not None or b is None:
                        ctx.expect("degree", cname, "degree", st, (n,), win(b, e), equals(sum(incident(x, n) for x in w)))


# ====================================================================== queries change nothing
import copy as _copy


def snap_state(R, cname, segs, make=None):
    st = _copy.copy(R.initial(cname))
    if R.live(cname):
        try:
            for i, k in enumerate(segs):
                o = R.invoke(cname, "insert", st, (make(i) if make else Opaque("g%d" % i),), {"start": k[0], "end": k[1]})
                if o[0] != "ok":
                    raise Und("build by operations")
                st = o[3]
            return st
        except (Und, PyErr):
            st = {a: v for a, v in R.initial(cname).items() if a not in R.live(cname) and a != "#grown"}
    st["snapshots"] = SD()
    for i, k in enumerate(segs):
        g = make(i) if make else Opaque("g%d" % i)
        dict.__setitem__(st["snapshots"], k, g)
    return st


def digest(v):
    """structural copy for before/after comparison (identity of opaque members kept)"""
    if isinstance(v, dict):
        return ("dict", sorted(((digest(k), digest(x)) for k, x in dict.items(v)), key=repr))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [digest(x) for x in v])
    if isinstance(v, (set, frozenset)):
        return ("set", sorted((digest(x) for x in v), key=repr))
    if isinstance(v, NX):
        return ("NX", v.cls, digest(v.nodes), sorted((digest(x) for x in v.edges), key=repr))
    if isinstance(v, Inst):
        return ("Inst", v.cls, digest({k: x for k, x in v.state.items() if not k.startswith("#treelog")}))
    if isinstance(v, TNode):
        return ("TNode", v.low, v.high, digest(sorted(v.edges, key=repr)))
    if isinstance(v, Model):
        return ("Model", v.which)
    r = v if isinstance(v, (int, float, str, bool, type(None))) else repr(v)
    return r if "object at 0x" not in str(r) else type(v).__name__


from ev import TNode


def whole(st):
    if st.get("#grown"):
        # what a class keeps beyond the representation is judged by the answers that follow (Ctx.warm)
        return digest({k: v for k, v in st.items() if k in Run.KNOWN or k.startswith("tree.") or k == "#treenodes"})
    return digest({k: v for k, v in st.items() if k != "#treelog"})


def pure(ctx, R, rule, cname, meth, st, args, kw, hooks=None, tag=None):
    before, a0 = whole(st), digest([list(args), dict(kw)])

    def pred(o):
        if o[0] == "pyraise":
            raise Und("raises " + o[1])
        if o[3] is not None and whole(o[3]) != before:
            return f"changes the graph: {diff_text(st, o[3])}"
        if whole(st) != before:
            return "changes the graph"
        if digest([list(args), dict(kw)]) != a0:
            return "changes its arguments"
        pr = R.last.printed()
        if pr:
            return f"prints to standard output (line {getattr(pr[0], 'line', '?')})"
    ctx.expect(rule, cname, meth, st, args, kw, pred, hooks=hooks, tag=tag, args_kept=True)


def diff_text(a, b):
    a, b = {k: digest(v) for k, v in a.items()}, {k: digest(v) for k, v in b.items()}
    return "; ".join(f"{k}: {show(a.get(k))} becomes {show(b.get(k))}" for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k) and k != "#treelog")


def literal_names(R):
    """identifiers that occur as string literals in the classes: attribute names the code may treat specially"""
    if "literals" not in R.seen:
        import ast
        out = set()
        for mod in R.prog.modules.values():
            for n in ast.walk(mod.tree):
                if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier() and len(n.value) < 24:
                    out.add(n.value)
        R.seen["literals"] = sorted(out)
    return R.seen["literals"]


def graph_queries(cname):
    """every query of a graph class: (method, args, kwargs)"""
    q = []
    inc = [{}] if is_interval(cname) else [{}, {"inclusive": (True, True)}]
    for b, e in [(None, None), (0, 4), (2, 2), (None, 0), (0, None), (50, 60), (-4, 100)]:
        for x in inc:
            w = dict(win(b, e), **x)
            for kw in ({}, {"u": "a"}, {"v": "b"}, {"u": "a", "v": "b"}, {"u": ["a", "b"]}, {"v": {"b", "nope"}}, {"u": "nope"},
                       {"u": ["a", "zz"], "v": ["b"]}, {"u": "a", "v": "c"}, {"u": "z", "v": "b"}, {"u": ["c", "z"], "v": ["a", "nope"]}, {"u": {"a"}, "v": {"b", "c"}},
                       {"u": ("c", "z"), "v": ["a", "b"]}):
                for dt in ({}, {"data": True}, {"data": "w"}, {"data": "no", "default": 3}):
                    q.append(("edges", (), dict(w, **kw, **dt)))
            for n in ("a", "z", "nope"):
                q.append(("has_node", (n,), w))
                if n != "nope":
                    for m in ["degree"] + (["in_degree", "out_degree"] if is_directed(cname) else []):
                        q.append((m, (n,), w))
                        q.append((m, (n,), dict(w, delta=True)))
            for m in ["degree"] + (["in_degree", "out_degree"] if is_directed(cname) else []):
                if b != 50:
                    q.append((m, (), w))
            for u, v in (("a", "b"), ("b", "a"), ("a", "c"), ("c", "a"), ("a", "nope"), ("nope", "a"), ("z", "z")):
                q.append(("has_edge", (u, v), w))
                if is_interval(cname) and b is not None and e is not None:
                    q.append(("has_edge", (u, v), dict(w, overlapping=False)))
            q.append(("nodes", (), w))
            q.append(("nodes", (), dict(w, data=True)))
            q.append(("nodes", (), dict(w, data="p", default=0)))
            q.append(("number_of_nodes", (), w))
            for fl in ({}, {"multigraph": True, "edge_data": True, "node_data": True},
                       {"edge_data": True, ("edge_interval_data" if is_interval(cname) else "edge_timestamp_data"): True},
                       {("edge_interval_data" if is_interval(cname) else "edge_timestamp_data"): True, "multigraph": True}):
                for m in ("to_subgraph", "to_networkx_graph"):
                    if x and "inclusive" in x:
                        q.append((m, (b, e, (True, True)), fl))
                    else:
                        q.append((m, (b, e), fl))
            if is_interval(cname):
                for m in ("unique_timestamps", "unique_begin_timestamps", "unique_end_timestamps"):
                    q.append((m, (), w))
    for n in ("a", "z", "nope"):
        q.append(("__contains__", (n,), {}))
    q += [("__len__", (), {}), ("__str__", (), {}), ("interval", (), {}), ("name", (), {})]
    for kw in ({"number_of_snapshots": 2}, {"number_of_snapshots": 3, "return_length": True, "node_data": True},
               {"length_of_snapshots": 2, "edge_data": True, "multigraph": True}):
        q.append(("to_snapshots", (), kw))
    q += [("to_snapshot_graph", (), {}), ("to_snapshot_graph", (), {"edge_data": True, "node_data": True, "multigraph": True})]
    q.append(("save_to_txt", ("file",), {}))
    return q


def snap_queries():
    q = []
    sel = [{}, {"sbunch": [0]}, {"sbunch": [0, 2]}, {"sbunch": [-1]}, {"sbunch": []}, {"start": 1}, {"end": 3}, {"start": 1, "end": 3},
           {"start": 2, "end": 4}, {"start": 50, "end": 60}, {"start": 0, "end": 0}]
    for s in sel:
        for m in ("number_of_nodes", "order", "is_multigraph", "is_directed", "to_directed", "to_undirected", "size", "degree", "get"):
            q.append((m, (), s))
        q.append(("degree", (), dict(s, nbunch=["a"], weight="w")))
        q.append(("size", (), dict(s, weight="w")))
        q.append(("has_node", ("a",), s))
        q.append(("subgraph", (["a"],), s))
        q.append(("compute_network_statistic", (Opaque("stat"),), s))
    q += [("__len__", (), {}), ("__iter__", (), {}), ("__str__", (), {}), ("name", (), {})]
    return q


@check("C07", "Every query and export of the six graph classes is compiled to a summary and evaluated over representative graphs "
       "and argument combinations (index models absent/present): no path may leave a changed graph, change the caller's "
       "arguments, or reach a write to standard output; mutators must be silent too.")
def c07(ctx):
    R = ctx.run
    for cname in GRAPHS:
        T = es_times(cname)
        for es, kw in (([("a", "b") + T[0], ("b", "a") + T[1], ("b", "c") + T[2], ("a", "a") + T[1]], {}),
                       ([("a", "b") + T[0], ("b", "c") + T[1]], {"model": Model(0)}), ([("a", "b") + T[0], ("b", "c") + T[1]], {"model": Model(1)}),
                       ([("a", "b") + T[0]], {})):
            extra = {n: 1 for n in literal_names(R) if n not in ("u", "v", "t", "begin", "end")}
            st = R.graph(cname, [(e, Attr(w=i)) if i != 1 else (e, Attr(extra)) for i, e in enumerate(es)], iso=("z",),
                         node_attr={"a": Attr(p=1), "b": Attr(extra)}, **kw)
            for m, a, k in graph_queries(cname):
                pure(ctx, R, "read-only", cname, m, st, a, k)
            muts = [("add_edge", ("a", "b") + T[0], {"w": 3}), ("add_edge", ("n", "b") + T[1], {}), ("add_node", ("n",), {"p": 1}),
                    ("add_edges_from", ([("a", "b") + T[0], ("a", "q") + T[1]],), {}), ("add_nodes_from", (["q", ("r", {"s": 1})],), {}),
                    ("remove_edge", ("a", "b"), {}), ("remove_edge", ("a", "b", 0, 4), {}), ("remove_node", ("a",), {}),
                    ("remove_node", ("a", 0, 1), {}), ("remove_node", ("nope",), {})]
            for m, a, k in muts:
                silent(ctx, R, cname, m, st, a, k)
        pure(ctx, R, "read-only", cname, "to_subgraph", R.graph(cname, []), (None, None), {})
        for m, a, k in (("edges", (), {}), ("nodes", (), {}), ("has_edge", ("a", "b"), {}), ("has_node", ("a",), {}), ("__len__", (), {}),
                        ("edges", (), {"begin": 0, "end": 4}), ("edges", (), {"u": "a", "begin": 0})):
            pure(ctx, R, "read-only", cname, m, R.graph(cname, []), a, k, tag="empty")
    for cname in SNAP:
        for segs in ([(0, 2), (2, 4), (4, 6)], [(0, 0), (3, 3), (5, 7)]):
            st = snap_state(R, cname, segs)
            st2 = snap_state(R, cname, segs, lambda i: NX("Graph", {"a": {}, "b": {}, "n%d" % i: {}}, [("a", "b", {"w": i}), ("b", "n%d" % i, {})]))
            for m, a, k in snap_queries():
                pure(ctx, R, "read-only", cname, m, st, a, k)
            pure(ctx, R, "read-only", cname, "save_to_txt", st2, ("file",), {})
            for m, a, k in (("add_nodes_from", (["q"],), {"start": 1, "end": 3}), ("add_edges_from", ([("q", "r")],), {"sbunch": [0]}),
                            ("insert", (Opaque("n"),), {"start": 10, "end": 11}), ("add_snapshot", ([("a", "b")],), {"time": 10})):
                silent(ctx, R, cname, m, st, a, k)


def silent(ctx, R, cname, meth, st, args, kw):
    before, a0 = whole(st), digest([list(args), dict(kw)])

    def pred(o):
        if o[0] == "pyraise":
            raise Und("raises " + o[1])
        pr = R.last.printed()
        if pr:
            return f"prints to standard output (line {getattr(pr[0], 'line', '?')})"
        if digest([list(args), dict(kw)]) != a0:
            return "changes its arguments"
        assert whole(st) == before
    ctx.expect("silent", cname, meth, st, args, kw, pred, args_kept=True)


# ====================================================================== exports
def tdata(cname):
    return "edge_interval_data" if is_interval(cname) else "edge_timestamp_data"


def export_attr(cname, e, attr, fl):
    a = {}
    if fl.get("edge_data"):
        a.update(attr)
    if fl.get(tdata(cname)):
        a.update({"begin": e[2], "end": e[3]} if is_interval(cname) else {"timestamp": e[2]})
    return a


def nx_differs(cname, v, es, attrs, fl, node_attr, what="exports"):
    """message when v is not the networkx graph of these edges"""
    if not isinstance(v, NX):
        if v is None or isinstance(v, (list, dict, int, str)):
            return f"{what} {show(v)}, expected a networkx graph"
        raise Und("exported graph")
    d = is_directed(cname)
    cls = ("Multi" if fl.get("multigraph") else "") + ("DiGraph" if d else "Graph")
    if v.cls != cls:
        return f"{what} a {v.cls}, expected {cls}"
    nodes = {n for e in es for n in e[:2]}
    want = {n: dict(node_attr.get(n, {})) if fl.get("node_data") else {} for n in nodes}
    got = {n: dict(a) for n, a in v.nodes.items()}
    if got != want:
        return f"{what} nodes {show(got)}, expected {show(want)}"
    k = (lambda x: (x[0], x[1])) if d else (lambda x: tuple(sorted(x[:2], key=repr)))
    G_, W = {}, {}
    for x in v.edges:
        G_.setdefault(k(x), []).append(dict(x[2]))
    for x in es:
        W.setdefault(k(x), []).append(export_attr(cname, x, attrs[x], fl))
    if set(G_) != set(W):
        return f"{what} edges {sorted(G_, key=repr)}, expected {sorted(W, key=repr)}"
    for p in W:
        if fl.get("multigraph"):
            if sorted(map(repr, map(sorted_items, G_[p]))) != sorted(map(repr, map(sorted_items, W[p]))):
                return f"{what} {p} with {show(G_[p])}, expected {show(W[p])}"
        else:
            keys = {y for a in W[p] for y in a}
            a = G_[p][0]
            if set(a) != keys or len(G_[p]) != 1 or any(all(y not in c or c[y] != a[y] for c in W[p]) for y in keys):
                return f"{what} {p} with {show(G_[p])}, expected the data of {show(W[p])}"
    return None


def sorted_items(d):
    return sorted(d.items(), key=repr)


def export_graphs(cname, sc=1):
    T = es_times(cname, sc)
    return [
        [("a", "b") + T[0], ("b", "c") + T[1]],
        [("a", "b") + T[0], ("a", "b") + T[1], ("b", "a") + T[2], ("a", "a") + T[1], ("c", "d") + T[3]],
        [("b", "a") + T[0], ("c", "b") + T[0], ("b", "c") + T[0 if is_directed(cname) else 1]],
    ]


@check("C08", "to_subgraph/to_networkx_graph of the four graph classes are evaluated for every combination of the export flags, "
       "windows (inclusive settings) and graphs with parallel, reversed and self-loop edges: class, node set, node data, edge "
       "multiset and edge data of the exported networkx graph are compared with the selected edges.")
def c08(ctx):
    import itertools
    R = ctx.run
    for cname in GRAPHS:
        flags = ["multigraph", "edge_data", tdata(cname), "node_data"]
        na = {"a": Attr(p=0, t=4), "c": Attr(q="", r=3), "z": Attr(s=None)}
        for gi, sc in [(i, x) for i in range(3) for x in (SCALES if ctx.thorough else (SCALES[(i + len(cname)) % 2],))]:
            es = export_graphs(cname, sc)[gi]
            attrs = {e: dict([("w", i)] + ([("k%d" % i, ("v", None)[i // 2 % 2])] if i % 2 else [])) for i, e in enumerate(es)}
            if gi:      # data of the same name as a requested time stamp is overwritten by it, any other stays
                attrs[es[0]].update(timestamp="own", begin="b", end="e")
                attrs[es[-1]].update(begin=None, timestamp=0, end="")
            names = {n for e in es for n in e[:2]} | {"z"}
            st = R.graph(cname, [(e, Attr(attrs[e])) for e in es], iso=("z",), node_attr={n: a for n, a in na.items() if n in names})
            for b, e in windows(cname, sc):
                for inc in ([None] if is_interval(cname) else INCL):
                    sel = q_edges(cname, es, b, e, None, None, inc or (True, False))
                    for vals in itertools.product((False, True), repeat=4):
                        fl = dict(zip(flags, vals))
                        kw = dict(fl) if inc is None else dict(fl, inclusive=inc)
                        pred = value(lambda v, sel=sel, fl=fl: nx_differs(cname, v, sel, attrs, fl, na))
                        ctx.expect("export", cname, "to_subgraph", st, (b, e), kw, pred)
                        if inc in (None, (True, False)) or ctx.thorough:
                            ctx.expect("export", cname, "to_networkx_graph", st, (b, e), kw, pred)
                    sel0 = sel
                    ctx.expect("export", cname, "to_subgraph", st, (b, e), {} if inc is None else {"inclusive": inc},
                               value(lambda v, sel=sel0: nx_differs(cname, v, sel, attrs, {}, na)), tag="defaults")
            fl = dict(zip(flags, (True,) * 4))
            for b, e in windows(cname, sc)[:2]:
                def again(v, sel=q_edges(cname, es, b, e)):
                    return nx_differs(cname, v, sel, attrs, fl, na)
                ctx.expect("export", cname, "to_subgraph", st, (b, e), fl, value(again), tag="all")
                ctx.expect("export", cname, "to_networkx_graph", st, (b, e), {}, value(
                    lambda v, sel=q_edges(cname, es, b, e): nx_differs(cname, v, sel, attrs, {}, na)), tag="defaults")


def grid_graphs(cname, b, L, n):
    """edges over half-length positions of n snapshots of length L from b; the extremes always occur"""
    h = L / 2 if (L / 2) != int(L / 2) else int(L / 2)
    P = [b + h * i for i in range(2 * n + 1)]
    if is_interval(cname):
        out = []
        for i in range(len(P)):
            for j in range(i, len(P)):
                out.append([("x", "y", P[0], P[0]), ("a", "b", P[i], P[j]), ("x", "y", P[-1], P[-1])])
        return out
    return [[("x", "y", P[0]), ("a", "b", p), ("c", "b", p), ("y", "x", P[-1])] for p in P]


def snapshots_of(cname, es, b, L, n):
    out = []
    for i in range(n):
        lo, hi = b + L * i, b + L * (i + 1)
        last = i == n - 1
        if is_interval(cname):
            out.append([e for e in es if member(cname, e, lo, None if last else hi)])
        else:
            out.append([e for e in es if e[2] >= lo and (last or e[2] < hi)])
    return out


@check("C09", "to_snapshots of the four graph classes is evaluated by number and by length over graphs whose edges begin/end at every "
       "half-length position of the snapshot grid (first and last instant included), with the flags passed through: snapshot i "
       "must hold the edges of [b+iL, b+(i+1)L), the last one through the end; bad arguments raise NetworkXError.")
def c09(ctx):
    R = ctx.run
    for cname in GRAPHS:
        for b, L in ((0, 4), (-8, 4), (-3, 2), (1, 0.5)):
            for n in ((2, 3, 4, 5) if ctx.thorough else (2, 3)):
                gs = grid_graphs(cname, b, L, n)
                for gi, es in enumerate(gs):
                    es = list(dict.fromkeys(es))
                    attrs = {e: {"w": i} for i, e in enumerate(es)}
                    na = {"a": Attr(p=1)}
                    st = R.graph(cname, [(e, Attr(attrs[e])) for e in es], node_attr=na)
                    exp = snapshots_of(cname, es, b, L, n)
                    flags = ["multigraph", "edge_data", tdata(cname), "node_data"]
                    fl = {f: bool((gi >> i) & 1) for i, f in enumerate(flags)}

                    def pred(v, exp=exp, fl=fl, attrs=attrs, L=L, length=False):
                        if length:
                            if not isinstance(v, tuple) or len(v) != 2:
                                return f"yields {show(v)}, expected (snapshots, length)"
                            if v[1] != L:
                                return f"yields length {v[1]!r}, expected {L!r}"
                            v = v[0]
                        if not isinstance(v, (list, tuple)):
                            raise Und("snapshots")
                        if len(v) != len(exp):
                            return f"yields {len(v)} snapshots, expected {len(exp)}"
                        for i, (g, es_) in enumerate(zip(v, exp)):
                            m = nx_differs(cname, g, es_, attrs, fl, na, f"snapshot {i} has")
                            if m:
                                return m
                    ctx.expect("snapshots", cname, "to_snapshots", st, (), dict(fl, number_of_snapshots=n), value(pred), tag="number")
                    ctx.expect("snapshots", cname, "to_snapshots", st, (), dict(fl, length_of_snapshots=L), value(pred), tag="length")
                    ctx.expect("snapshots", cname, "to_snapshots", st, (), dict(fl, number_of_snapshots=n, return_length=True),
                               value(lambda v, p=pred: p(v, length=True)), tag="number")
                    ctx.expect("snapshots", cname, "to_snapshots", st, (), dict(fl, length_of_snapshots=L, return_length=True),
                               value(lambda v, p=pred: p(v, length=True)), tag="length")
                    # a length that does not divide the span: one shorter snapshot at the end
                    L2 = L * 0.75 * n / (n - 1) if n > 2 else L * 1.5
                    n2 = int(-(-(L * n) // L2))
                    exp2 = snapshots_of(cname, es, b, L2, n2)
                    if n2 >= 2:
                        ctx.expect("snapshots", cname, "to_snapshots", st, (), dict(fl, length_of_snapshots=L2),
                                   value(lambda v, p=pred, x=exp2: p(v, exp=x)), tag="rest")
        # counts whose float length, multiplied back, stays short of the span
        for b, span, n, step in ((0, 1, 49, None), (-1, 1, 49, None), (0, 3, 47, None), (0, 1, 10, 0.1), (0, 1, 5, 0.2), (0, 0.6, 6, 0.1)):
            L = step or span / n
            mid, fin = [(b + L * (i + 0.5)) for i in (0, n // 2 - 1, n - 1)], b + span
            es = [("x", "y", b), ("a", "b", mid[0]), ("c", "b", mid[1]), ("b", "d", mid[2]), ("a", "d", fin)]
            if is_interval(cname):
                es = [e + (max(e[2:]),) for e in es] + [("c", "d", mid[0], mid[1])]
            st = graph(R, cname, es)
            exp = [[e for e in es if e[2] < (fin + 1 if i == n - 1 else b + L * (i + 1)) and
                    (e[3] > b + L * i or e[2] >= b + L * i if is_interval(cname) else e[2] >= b + L * i)] for i in range(n)]

            def short(v, exp=exp):
                if not isinstance(v, (list, tuple)):
                    raise Und("snapshots")
                if len(v) != len(exp):
                    return f"yields {len(v)} snapshots, expected {len(exp)}"
                for i, (g, x) in enumerate(zip(v, exp)):
                    m = nx_differs(cname, g, x, {e: {} for e in es}, {}, {}, f"snapshot {i} has")
                    if m:
                        return m
            ctx.expect("snapshots", cname, "to_snapshots", st, (), {"length_of_snapshots": L} if step else {"number_of_snapshots": n}, value(short),
                       tag="rounding")
        st = graph(R, cname, [("a", "b") + es_times(cname)[0], ("b", "c") + es_times(cname)[1]])
        for kw in ({}, {"number_of_snapshots": 2, "length_of_snapshots": 2}, {"number_of_snapshots": 1}, {"number_of_snapshots": 0},
                   {"number_of_snapshots": -3}, {"number_of_snapshots": 2.5}, {"length_of_snapshots": 0}, {"length_of_snapshots": -1},
                   {"length_of_snapshots": -0.5}, {"number_of_snapshots": 3.0}):
            ctx.expect("arguments", cname, "to_snapshots", st, (), kw, raises("NetworkXError"), tag="invalid")


@check("C10", "to_snapshot_graph of the four graph classes is evaluated over graphs with overlapping, nested, touching, disjoint and "
       "zero-length edges: the snapshots must be the consecutive pairs of distinct begin/end times (the instants, for impulses) "
       "and hold exactly the edges active there, with the flags passed through.")
def c10(ctx):
    R = ctx.run
    for cname in GRAPHS:
        if is_interval(cname):
            spans = [(0, 4), (2, 6), (1, 3), (4, 8), (-4, 0), (-4, 9), (10, 12), (0, 4), (2, 2), (0, 0), (-4, -4), (9, 9)]
        else:
            spans = [(0,), (2,), (-4,), (4,), (6,), (0,), (1,), (-1,), (3,), (5,)]
        sets = []
        m = len(spans)
        for i in range(m):
            for j in range(i, m):
                k = (i * 5 + j * 3 + 1) % m
                sets.append([("a", "b") + spans[i], ("b", "c") + spans[j], ("a", "b") + spans[k]])
        for gi, es in enumerate(sets):
            sc = (1, 0.25, 16)[gi % 3]         # the distances must not matter: neither whole numbers nor small gaps
            es = [e[:2] + tuple(x * sc for x in e[2:]) for e in dict.fromkeys(es)]
            attrs = {e: {"w": i} for i, e in enumerate(es)}
            na = {"a": Attr(p=1)}
            st = R.graph(cname, [(e, Attr(attrs[e])) for e in es], node_attr=na, iso=("z",))
            flags = ["multigraph", "edge_data", tdata(cname), "node_data"]
            fl = {f: bool((gi >> i) & 1) for i, f in enumerate(flags)}
            if is_interval(cname):
                ts = sorted({x for e in es for x in e[2:] if e[2] != e[3]})
                keys = {(x, y): q_edges(cname, es, x, y) for x, y in zip(ts, ts[1:])}
                keys.update({(e[2], e[2]): q_edges(cname, es, e[2], e[2]) for e in es if e[2] == e[3]})
            else:
                keys = {(e[2], e[2]): [x for x in es if x[2] == e[2]] for e in es}

            def pred(v, keys=keys, fl=fl, attrs=attrs):
                if not isinstance(v, Inst) or v.cls not in SNAP:
                    raise Und("snapshot graph")
                got = v.state["snapshots"]
                if set(got) != set(keys):
                    return f"has snapshots at {sorted(got)}, expected {sorted(keys)}"
                for k in keys:
                    mm = nx_differs(cname, dict.__getitem__(got, k), keys[k], attrs, fl, na, f"snapshot {k} has")
                    if mm:
                        return mm
            ctx.expect("snapshot graph", cname, "to_snapshot_graph", st, (), fl, value(pred))
