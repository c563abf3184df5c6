"""Snapshot graphs, validation, degrees, model independence, timestamps, intervals, attributes."""
from checks3 import *
from ev import Gen
from world import representatives


# ====================================================================== snapshot selection
def selected(segs, start, end):
    return [k for k in sorted(segs) if (start is None or k[0] >= start or k[1] > start) and (end is None or k[0] < end)]


def selector_cases(thorough):
    """(segments, start, end): order types of a snapshot [a, b), a neighbour, and a window"""
    out = []
    for sp in (4, 0.25):
        for a, b, s in representatives(3, lambda v: v[0] <= v[1], 1):
            out.append(((a * sp, b * sp), s * sp, None))
            out.append(((a * sp, b * sp), None, s * sp))
        for a, b, s, e in representatives(4, lambda v: v[0] <= v[1] and v[2] < v[3], 1):
            out.append(((a * sp, b * sp), s * sp, e * sp))
    return out


def result_op(meth, recv, args=(), kw=()):
    return Opaque(("call", recv, meth, tuple(args), tuple(kw)))


SELECTORS = ["number_of_nodes", "order", "is_multigraph", "is_directed", "to_directed", "to_undirected", "size", "has_node", "degree",
             "get", "compute_network_statistic", "subgraph"]


def selection_queries(ctx, R, rule, cname, st, keys, kw, tag=None, which=SELECTORS):
    """every selecting method applies to exactly the snapshots of `keys`, in this order"""
    mem = [dict.__getitem__(st["snapshots"], k) for k in keys]

    def names(v):
        if not isinstance(v, (list, tuple)):
            raise Und(f"result of type {type(v).__name__}")
        out = []
        for x in v:
            if not isinstance(x, Opaque):
                raise Und("member result")
            out.append(x.name)
        return out

    def expect(meth, args, kws, each):
        def c(v):
            got, want = names(v), [each(m) for m in mem]
            if [base_of(g) for g in got] != [m.name for m in mem]:
                return f"applies to {[base_of(g) for g in got]}, expected {[m.name for m in mem]}"
            for g, w in zip(got, want):
                if w is not None and g != w:
                    if not same_call(g, w):
                        return f"yields {show(g)}, expected {show(w)}"
        ctx.expect(rule, cname, meth, st, args, dict(kw, **kws), value(c), tag=tag)
    for m in which:
        if m == "get":
            expect(m, (), {}, lambda g: g.name)
        elif m == "has_node":
            expect(m, ("x",), {}, lambda g: ("call", g, "has_node", ("x",), ()))
        elif m == "size":
            expect(m, (), {"weight": "w"}, lambda g: ("call", g, "size", (), (("weight", "w"),)))
            expect(m, (), {}, lambda g: ("call", g, "size", (), (("weight", None),)))
        elif m == "degree":
            expect(m, (), {"nbunch": ["x"], "weight": "w"}, lambda g: ("call", g, "degree", (["x"],), (("weight", "w"),)))
            expect(m, (), {}, lambda g: None)
            expect(m, (), {"weight": "w"}, lambda g: ("call", g, "degree", "?", (("weight", "w"),)))
        elif m == "compute_network_statistic":
            f = Opaque("stat")
            expect(m, (f,), {"k": 3}, lambda g: ("apply", f, (g,), (("k", 3),)))
        elif m == "subgraph":
            def sub(v):
                if not isinstance(v, Inst):
                    raise Und("subgraph result")
                if v.cls != cname:
                    return f"yields a {v.cls}, expected a {cname}"
                got = v.state["snapshots"]
                if sorted(got) != sorted(set(keys)):
                    return f"has snapshots {sorted(got)}, expected {sorted(set(keys))}"
                for k, g in zip(keys, mem):
                    x = dict.__getitem__(got, k)
                    if not isinstance(x, Opaque):
                        raise Und("subgraph member")
                    if not same_call(x.name, ("call", g, "subgraph", (["x"],), ())):
                        return f"snapshot {k} is {x}, expected the subgraph of {g}"
            ctx.expect(rule, cname, m, st, (["x"],), kw, value(sub), tag=tag)
        else:
            expect(m, (), {}, lambda g, m=m: ("call", g, m, (), ()))


def base_of(n):
    """the member a result was computed from"""
    while isinstance(n, tuple):
        if n[0] == "call":
            n = n[1].name if isinstance(n[1], Opaque) else n[1]
        elif n[0] == "apply":
            n = n[2][0].name if n[2] and isinstance(n[2][0], Opaque) else None
        elif n[0] == "copy":
            n = n[1].name if isinstance(n[1], Opaque) else n[1]
        else:
            return n
    return n


def same_call(g, w):
    """the same external call, keyword or positional"""
    if g == w:
        return True
    if isinstance(g, tuple) and isinstance(w, tuple) and g[:1] == w[:1] and len(g) == len(w) == 5 and g[1:3] == w[1:3]:
        if w[3] == "?":                 # any node argument, but with these keywords
            return all(kv in g[4] or kv[1] in g[3] for kv in w[4])

        def flat(t):
            return sorted([repr(x) for x in t[3]] + [repr(v) for k, v in t[4] if v is not None])
        return flat(g) == flat(w)
    return False


@check("C13", "All selecting methods of SnapshotGraph/SnapshotDiGraph are compiled and evaluated over opaque member graphs for "
       "every order type of a snapshot interval and a window (open bounds, 0 included) next to neighbouring snapshots, and for "
       "index selections: each must apply the requested operation to exactly the selected members in time order; combining "
       "indices and times is rejected.")
def c13(ctx):
    R = ctx.run
    for cname in SNAP:
        for i, (seg, s, e) in enumerate(selector_cases(ctx.thorough)):
            others = [[], [(seg[1], seg[1] + 2)], [(seg[0] - 3, seg[0])], [(seg[0] - 3, seg[0]), (seg[1] + 1, seg[1] + 2)],
                      [(seg[0] - 1, seg[1] + 1), (seg[0] - 0.125, seg[0] + 0.125)]]
            for j, oth in enumerate(others):
                if not ctx.thorough and (i + j) % 2 and oth:
                    continue
                segs = sorted({seg, *oth})
                st = snap_state(R, cname, segs)
                keys = selected(segs, s, e)
                kw = {}
                if s is not None:
                    kw["start"] = s
                if e is not None:
                    kw["end"] = e
                which = SELECTORS if ctx.thorough else [SELECTORS[(i + j) % len(SELECTORS)], SELECTORS[(i + j + 5) % len(SELECTORS)], "get", "subgraph"]
                selection_queries(ctx, R, "window", cname, st, keys, kw, which=SELECTORS if ctx.thorough or i % 5 == 0 else which)
        segs = [(-2, 0), (0, 0), (0, 3), (5, 9)]
        st = snap_state(R, cname, segs)
        for sb in ([], [0], [3], [-1], [1, 3], [2, 0], (0, 1), [0, 1, 2, 3], [-1, -2], [0, 1, 0], [2, 2], range(1, 3)):
            selection_queries(ctx, R, "index", cname, st, [segs[x] for x in sb], {"sbunch": sb})
        selection_queries(ctx, R, "index", cname, st, segs, {}, tag="all")
        for m in SELECTORS:
            a = {"has_node": ("x",), "compute_network_statistic": (Opaque("stat"),), "subgraph": (["x"],)}.get(m, ())
            for kw in ({"sbunch": [0], "start": 0}, {"sbunch": [0], "end": 5}, {"sbunch": [0], "start": 0, "end": 5}, {"sbunch": [], "start": 1},
                       {"sbunch": [0], "end": 0}):
                ctx.expect("both", cname, m, st, a, kw, raises("ValueError"))
        for m in ("add_nodes_from", "add_edges_from"):
            for kw in ({"sbunch": [0], "start": 0}, {"sbunch": [0], "end": 0}, {"sbunch": [], "start": 1, "end": 2}):
                ctx.expect("both", cname, m, st, (["x"] if m == "add_nodes_from" else [("x", "y")],), kw, rejected(st, "ValueError"))
        for g in ("g0", "g2"):
            ctx.expect("members", cname, "__iter__", st, (), {}, value(lambda v: None if [x.name for x in iterable(v)] == ["g0", "g1", "g2", "g3"] else f"yields {v}"))


def rejected(st, *names):
    """raises one of these and leaves the graph as it was"""
    before = whole(st)
    r = raises(*names)

    def pred(o):
        m = r(o)
        if m:
            return m
        if o[3] is not None and whole(o[3]) != before:
            return f"raises but changes the graph: {diff_text(st, o[3])}"
    return pred


# ====================================================================== snapshot updates
def pieces(segs, start, end):
    """[(resulting interval, number of the snapshot it is cut from)] in time order"""
    out = [(a, b, i) for i, (a, b) in enumerate(segs)]
    for t in (start, end):
        if t is not None:
            out = [p for a, b, i in out for p in ([(a, t, i), (t, b, i)] if a < t < b else [(a, b, i)])]
    return sorted(((a, b), i) for a, b, i in out)


@check("C14", "SnapshotGraph/SnapshotDiGraph.add_nodes_from/add_edges_from are evaluated for every order type of a snapshot interval "
       "and an update window: intervals are cut exactly at the window bounds inside them, the pieces are distinct copies of their "
       "snapshot, and exactly the pieces inside the window receive the update once.")
def c14(ctx):
    R = ctx.run
    for cname in SNAP:
        cs = selector_cases(ctx.thorough)
        for i, (seg, s, e) in enumerate(cs):
            # neighbours apart, touching, overlapping, nested
            others = [[], [(seg[1], seg[1] + 2)], [(seg[0] - 3, seg[0]), (seg[1] + 1, seg[1] + 4)], [(seg[0] - 1, seg[1] + 1)],
                      [(seg[0] - 2, seg[0] + 0.125), (seg[0] - 0.0625, seg[1] + 3)]]
            for oth in others:
                segs = sorted({seg, *oth})
                st = snap_state(R, cname, segs)
                cut = pieces(segs, s, e)
                keys = [k for k, _ in cut]
                if len(set(keys)) != len(keys):
                    continue            # two pieces with one interval: not specified
                target = selected(keys, s, e)
                kw = {}
                if s is not None:
                    kw["start"] = s
                if e is not None:
                    kw["end"] = e
                update(ctx, R, cname, st, cut, target, kw)
        segs = [(-2, 0), (0, 0), (0, 3), (5, 9)]
        st = snap_state(R, cname, segs)
        for sb in ([], [0], [-1], [1, 3], [2, 0], [0, 1, 2, 3]):
            update(ctx, R, cname, st, pieces(segs, None, None), [segs[x] for x in sb], {"sbunch": sb}, tag="index")
        update(ctx, R, cname, st, pieces(segs, None, None), segs, {}, tag="all")


def update(ctx, R, cname, st, cut, target, kw, tag=None):
    keys, origin = [k for k, _ in cut], {k: f"g{i}" for k, i in cut}
    for meth, arg in (("add_nodes_from", ["x", "y"]), ("add_edges_from", [("x", "y")])):
        def pred(o):
            m = failed(o)
            if m:
                return m
            got = o[3]["snapshots"]
            if sorted(got) != keys:
                return f"leaves snapshots {sorted(got)}, expected {keys}"
            mem = {k: dict.__getitem__(got, k) for k in keys}
            for k in keys:
                if not isinstance(mem[k], Opaque):
                    raise Und("member")
                if base_of(mem[k].name) != origin[k]:
                    return f"snapshot {k} holds {mem[k]}, expected (a copy of) {origin[k]}"
            if len(set(mem.values())) != len(keys):
                return f"snapshots {[k for k in keys if list(mem.values()).count(mem[k]) > 1]} share one graph"
            calls = R.last.calls()
            recv, spent = [], set()
            for r, name, args, kws, f in calls:
                if not isinstance(r, Opaque):
                    continue
                if name != meth:
                    if name in ("add_node", "add_edge", "remove_node", "remove_edge", "clear", "update"):
                        raise Und("other updates of members")
                    continue
                if args and isinstance(args[0], Gen):
                    t = f.args[1][0]
                    if t.op != "obj" or R.last.S.objs[t.a[0]].loops:
                        raise Und("iterator passed on")
                    if t in spent and arg:
                        return f"passes one iterator on to several snapshots, which only the first receives (line {f.line})"
                    spent.add(t)
                if args[:1] != [arg] or {x: y for x, y in kws.items()} != {"q": 1}:
                    return f"calls {name}({show(args)}, {show(kws)}), expected ({arg}, q=1)"
                recv.append(r)
            want = [mem[k] for k in target]
            if sorted(map(repr, recv)) != sorted(map(repr, want)):
                return f"updates {recv}, expected {want}"
        ctx.expect("update", cname, meth, st, (arg,), dict(kw, q=1), pred, tag=tag)


# ====================================================================== snapshot insertion
@check("C22", "insert/add_snapshot/__len__/__iter__ of SnapshotGraph/SnapshotDiGraph are evaluated for every order type of existing and "
       "new snapshot times: the new graph is stored under exactly the given interval or instant, iteration is in time order, edge "
       "lists build a graph of the right class, and inconsistent time arguments raise ValueError without a change.")
def c22(ctx):
    R = ctx.run
    for cname in SNAP:
        for segs in ([], [(0, 2)], [(-4, -2), (3, 6)], [(0, 0), (2, 2)], [(0, 2), (0, 5), (2, 5)], [(2, 2), (2.5, 2.5), (3, 3)]):
            st = snap_state(R, cname, segs)
            for s, e in ((0, 2), (-6, -5), (10, 12), (2, 2), (-1, 0), (0, 0), (0.5, 0.75), (2, 3), (3, 6), (0, 3), (2.5, 2.5), (2.25, 2.25), (-4, -4)):
                for how in ("interval", "time") if s == e else ("interval",):
                    kw = {"start": s, "end": e} if how == "interval" else {"time": s}
                    n = Opaque("new")

                    def pred(o, s=s, e=e):
                        m = failed(o)
                        if m:
                            return m
                        got = o[3]["snapshots"]
                        want = {k: Opaque("g%d" % i) for i, k in enumerate(segs)}
                        want[(s, e)] = n
                        if dict(dict.items(got)) != want:
                            return f"leaves {show(got)}, expected {show(want)}"
                    ctx.expect("insert", cname, "insert", st, (n,), kw, pred, tag=how)
                    ctx.expect("insert", cname, "add_snapshot", st, (), dict(kw, graph=n), pred, tag=how)
                    for falsy in ([("a", "b"), ("b", "c"), ("b", "a")], []):
                        for multi in ((False, True) if cname == "SnapshotDiGraph" else (False,)):
                            cls = ("Multi" if multi else "") + ("DiGraph" if cname == "SnapshotDiGraph" else "Graph")

                            def built(o, s=s, e=e, falsy=falsy, cls=cls):
                                m = failed(o)
                                if m:
                                    return m
                                g = dict.get(o[3]["snapshots"], (s, e))
                                if not isinstance(g, NX):
                                    if g is None:
                                        return f"no snapshot at {(s, e)}"
                                    raise Und("built snapshot")
                                w = NX(cls)
                                for a, b in falsy:
                                    w.addedge(a, b, {})
                                if g != w:
                                    return f"stores {show(g)}, expected {show(w)}"
                            ctx.expect("insert", cname, "add_snapshot", st, (falsy,), dict(kw, **({"multi": True} if multi else {})), built,
                                       tag="edges" + ("-multi" if multi else ""))
                    # an empty networkx graph is still a graph
                    if s == e:
                        eg = NX("Graph")

                        def kept(o, s=s, e=e, eg=eg):
                            m = failed(o)
                            if m:
                                return m
                            g = dict.get(o[3]["snapshots"], (s, e))
                            if not isinstance(g, NX) or g != eg:
                                return f"stores {show(g)}, expected the given empty graph"
                        ctx.expect("insert", cname, "add_snapshot", st, (), dict(kw, graph=eg), kept, tag="empty graph")
            for kw in ({}, {"start": 1}, {"end": 1}, {"start": 0}, {"end": 0}, {"time": 1, "start": 1}, {"time": 0, "end": 3}, {"time": 1, "start": 1, "end": 2},
                       {"time": 0, "start": 0}, {"start": 3, "end": 1}, {"start": 0, "end": -1}, {"start": 0.5, "end": 0.25}):
                ctx.expect("arguments", cname, "insert", st, (Opaque("new"),), kw, rejected(st, "ValueError"))
                ctx.expect("arguments", cname, "add_snapshot", st, (), dict(kw, graph=Opaque("new")), rejected(st, "ValueError"))
                ctx.expect("arguments", cname, "add_snapshot", st, ([("a", "b")],), kw, rejected(st, "ValueError"))
            ctx.expect("members", cname, "__len__", st, (), {}, equals(len(segs)))
            ctx.expect("members", cname, "__iter__", st, (), {}, value(lambda v: None if [x.name for x in iterable(v)] ==
                                                                       ["g%d" % i for i in range(len(segs))] else f"yields {v}"))
