"""Validation, degrees, model independence, attribute isolation, unique timestamps, interval."""
from checks4 import *
import train


# ====================================================================== validation
def reversed_windows(cname):
    """(edge times, begin, end) with begin > end, every order type"""
    return cases(cname, valid=False) + fine_cases(cname, valid=False)


@check("C15", "Every operation of the four graph classes that documents NetworkXError is compiled and evaluated for every order type of "
       "an edge and a reversed window (0 included), for reversed new intervals, missing bounds of an exact match and malformed edge "
       "tuples: it must raise NetworkXError and leave the state exactly as it was.")
def c15(ctx):
    R = ctx.run
    for cname in GRAPHS:
        d, iv = is_directed(cname), is_interval(cname)
        for i, (tm, b, e) in enumerate(reversed_windows(cname)):
            es = [("a", "b") + tm] + extras(cname, tm, i)
            for model in ((None, Model(0), Model(1)) if i % 4 == 0 or ctx.thorough else (None,)):
                st = graph(R, cname, es, **({} if model is None else {"model": model}))
                w = {"begin": b, "end": e}
                for tag, kw in (("", {}), ("u", {"u": "a"}), ("v", {"v": "b"}), ("uv", {"u": "a", "v": "b"}), ("list", {"u": ["a", "b"]})):
                    if model is None or kw:
                        ctx.expect("window", cname, "edges", st, (), dict(w, **kw), rejected(st, "NetworkXError"), tag=tag)
            st = graph(R, cname, es)
            ctx.expect("window", cname, "has_edge", st, ("a", "b"), w, rejected(st, "NetworkXError"))
            if i % 3 == 0:
                # the window is judged for nodes without edges and for edges that are not there, too
                s2 = graph(R, cname, es, iso=("z",))
                for m in ["degree"] + (["in_degree", "out_degree"] if d else []):
                    ctx.expect("window", cname, m, s2, ("z",), w, rejected(s2, "NetworkXError"), tag="no edges")
                ctx.expect("window", cname, "edges", s2, (), dict(w, u="z"), rejected(s2, "NetworkXError"), tag="no edges")
                ctx.expect("window", cname, "edges", s2, (), dict(w, u="a", v="z"), rejected(s2, "NetworkXError"), tag="no edges")
                if not iv:
                    ctx.expect("window", cname, "has_node", s2, ("z",), w, rejected(s2, "NetworkXError"), tag="no edges")
            # exact matching names an interval; a reversed one may be rejected but never matches or removes anything
            ctx.expect("window", cname, "degree", st, ("a",), w, rejected(st, "NetworkXError"))
            if d:
                for m in ("in_degree", "out_degree"):
                    ctx.expect("window", cname, m, st, ("a",), w, rejected(st, "NetworkXError"))
            if iv:
                ctx.expect("window", cname, "remove_edge", st, ("a", "b"), w, rejected(st, "NetworkXError"))
                if d:
                    ctx.expect("window", cname, "to_subgraph", st, (b, e), {}, rejected(st, "NetworkXError"))
                    ctx.expect("window", cname, "to_networkx_graph", st, (b, e), {}, rejected(st, "NetworkXError"))
            else:
                ctx.expect("window", cname, "has_node", st, ("a",), w, rejected(st, "NetworkXError"))
                ctx.expect("window", cname, "nodes", st, (), w, rejected(st, "NetworkXError"))
                ctx.expect("window", cname, "number_of_nodes", st, (), w, rejected(st, "NetworkXError"))
                ctx.expect("window", cname, "to_subgraph", st, (b, e), {}, rejected(st, "NetworkXError"))
                ctx.expect("window", cname, "to_networkx_graph", st, (b, e), {}, rejected(st, "NetworkXError"))
                ctx.expect("window", cname, "remove_node", st, ("a",), w, rejected(st, "NetworkXError"))
        if iv:
            # new edges with a reversed interval
            for sp in (4, 0.25):
                for b, e in world.representatives(2, lambda v: v[0] > v[1], 1):
                    for base in bases(cname):
                        st = R.graph(cname, [(x, Attr(a)) for x, a in base], iso=("z",))
                        for u, v in (("a", "b"), ("b", "a"), ("n", "m"), ("a", "n"), ("a", "a"), ("z", "b")):
                            ctx.expect("interval", cname, "add_edge", st, (u, v, b * sp, e * sp), {"w": 1}, rejected(st, "NetworkXError"))
                        ctx.expect("interval", cname, "add_edges_from", st, ([("n", "m", b * sp, e * sp)],), {}, rejected(st, "NetworkXError"))
            T = times(cname)
            for base in bases(cname)[1:]:
                st = R.graph(cname, [(x, Attr(a)) for x, a in base])
                for b, e in ((0, None), (None, 0), (3, None), (None, 3), (-2, None), (None, -2)):
                    for m in ("has_edge", "remove_edge"):
                        u, v = base[0][0][:2]
                        ctx.expect("exact", cname, m, st, (u, v), dict(win(b, e), overlapping=False), rejected(st, "NetworkXError"))
                u, v = base[0][0][:2]
                ctx.expect("exact", cname, "remove_edge", st, (u, v), {"overlapping": False}, rejected(st, "NetworkXError"))
        n = len(times(cname)[0]) + 2
        for base in bases(cname):
            st = R.graph(cname, [(x, Attr(a)) for x, a in base])
            for k in (0, 1, 2, 3, 4, 5, 6):
                if k == n:
                    continue
                ctx.expect("tuple", cname, "add_edges_from", st, ([tuple("abcdef"[:2]) + tuple(range(k - 2)) if k > 1 else tuple("a"[:k])],), {},
                           rejected(st, "NetworkXError"))


# ====================================================================== degrees
def deg_edges(cname, es, n, kind):
    """edges counted by a degree variant, once per end that counts"""
    d = is_directed(cname)
    out = []
    for e in es:
        if not d:
            if n in e[:2]:
                out.append(e)
        else:
            if kind in ("degree", "out_degree") and e[0] == n:
                out.append(e)
            if kind in ("degree", "in_degree") and e[1] == n:
                out.append(e)
    return out


def delta_interval(cname, es, n, kind, b, e):
    """predicate on a degree change list"""
    lo = min(x[2] for x in es) if b is None else b
    hi = max(x[3] for x in es) if e is None else e
    inc = deg_edges(cname, es, n, kind)
    ev = {}
    for x in inc:
        if member_of(x, lo, hi):
            if x[2] >= lo:
                ev[x[2]] = ev.get(x[2], 0) + 1
            if x[3] < hi:
                ev[x[3]] = ev.get(x[3], 0) + 1
    active = {t: len([x for x in inc if x[2] <= t < x[3]]) for t in ev}

    def c(v):
        if not isinstance(v, (list, tuple)) or any(not isinstance(p, tuple) or len(p) != 2 for p in v):
            if isinstance(v, (int, float)):
                return f"yields {show(v)}, expected a list of (time, degree)"
            raise Und("change list")
        ts = [p[0] for p in v]
        if ts != sorted(ts):
            return f"yields {show(v)}, times not ascending"
        if sorted(set(ts)) != sorted(ev) or any(ts.count(t) != ev[t] for t in ev):
            return f"yields {show(v)}, expected one entry per begin/end at {sorted(ev.items())}"
        last = {t: x for t, x in v}
        if last != active:
            return f"yields {show(v)}, but the degrees after these times are {sorted(active.items())}"
    return value(c)


def member_of(x, lo, hi):
    return world.member_interval(x, lo, hi)


def delta_impulse(cname, es, n, kind, b, e, inc):
    want = {}
    for x in deg_edges(cname, es, n, kind):
        if world.member_impulse(x, b, e, inc):
            want[x[2]] = want.get(x[2], 0) + 1

    def c(v):
        if not isinstance(v, (list, tuple)):
            if isinstance(v, (int, float)):
                return f"yields {show(v)}, expected a list of (time, count)"
            raise Und("change list")
        if sorted(v) != sorted(want.items()):
            return f"yields {show(v)}, expected {sorted(want.items())}"
    return value(c)


def mean_is(x):
    def c(v):
        if isinstance(v, bool) or not isinstance(v, (int, float)) or abs(v - x) > 1e-9:
            return f"yields {show(v)}, expected {x}"
    return value(c)


def degree_graphs(cname):
    if is_interval(cname):
        spans = [(0, 4), (2, 6), (4, 8), (0, 0), (0, 2), (-4, 0), (-4, 8), (2, 2), (1, 2), (4, 6), (4, 4)]
    else:
        spans = [(0,), (2,), (4,), (-4,), (2,), (6,), (0,), (-4,)]
    out = []
    for i in range(len(spans)):
        for j in range(len(spans)):
            k = (3 * i + 5 * j + 1) % len(spans)
            l = (i + 2 * j + 3) % len(spans)
            es = [(0, "b") + spans[i], ("b", 0) + spans[j], ("b", "c") + spans[k], ("c", 0) + spans[l]]
            if (i + j) % 3 == 0:
                es = es[:2] + [("c", "d") + spans[k]]
            if (i + 2 * j) % 5 == 0:
                es = es[:2] + [("b", "b") + spans[k], (0, 0) + spans[l]]
            seen, keep = set(), []
            for x in es:
                if canon(cname, x) not in seen:
                    seen.add(canon(cname, x))
                    keep.append(x)
            out.append(keep)
    return out


@check("C16", "degree/in_degree/out_degree of the four graph classes are compiled and evaluated per node, as mean and as change list over "
       "graphs with touching, nested, simultaneous, opposite and parallel edges, windows with open bounds and on event times, and all "
       "inclusive settings, and compared with the edges of the node in the window.")
def c16(ctx):
    R = ctx.run
    for cname in GRAPHS:
        d, iv = is_directed(cname), is_interval(cname)
        kinds = ["degree"] + (["in_degree", "out_degree"] if d else [])
        ws = [(None, None), (0, 4), (2, 4), (-4, 0), (0, None), (None, 4), (None, 0), (4, 8), (-6, 12), (1, 3), (2, None), (0, 8), (3, 3), (0, 0), (2, 2)]
        for gi, es in enumerate(degree_graphs(cname)):
            sc = SCALES[gi // 3 % 3]
            zero = (0, "", ())[gi % 3]
            es = [tuple(zero if n == 0 else n for n in x[:2]) + tuple(t * sc for t in x[2:]) for x in es]
            st = graph(R, cname, es, iso=("z",))
            for wi, (b, e) in enumerate(ws):
                b, e = b and b * sc, e and e * sc
                if not ctx.thorough and wi and (gi + wi) % 3:
                    continue
                for inc in ((None,) if iv else INCL):
                    w = dict(win(b, e), **({} if inc is None else {"inclusive": inc}))
                    i2 = inc or (True, False)
                    sel = q_edges(cname, es, b, e, None, None, i2)
                    # an open end of an impulse degree reaches through the last instant, which it does anyway
                    N = q_nodes(cname, es, b, e, i2, ("z",))
                    for kind in kinds:
                        for n in (zero, "b", "c", "z"):
                            ctx.expect("node", cname, kind, st, (n,), w, equals(len(deg_edges(cname, sel, n, kind))))
                            if iv:
                                lo = min(x[2] for x in es) if b is None else b
                                hi = max(x[3] for x in es) if e is None else e
                                # at a single instant a zero-length edge there both begins and ends: the list is not specified
                                if lo < hi or (lo == hi and None in (b, e) and all(x[2] < x[3] or x[2] != lo for x in es)):
                                    ctx.expect("changes", cname, kind, st, (n,), dict(w, delta=True), delta_interval(cname, es, n, kind, b, e))
                            else:
                                ctx.expect("changes", cname, kind, st, (n,), dict(w, delta=True), delta_impulse(cname, es, n, kind, b, e, i2))
                        if N:
                            k2 = sum(len(deg_edges(cname, sel, n, kind)) for n in N) / len(N)
                            ctx.expect("mean", cname, kind, st, (), w, mean_is(k2))


# ====================================================================== model independence
@check("C17", "edges() (plain, with data, with one attribute) of the four graph classes is evaluated with the predictive model absent, "
       "choosing the node route and choosing the time route, for every order type of an edge and a window, endpoint argument shapes "
       "and inclusive settings: all three must give the specified edges and data. An alias and effect analysis of the training code shows "
       "that it writes nothing of the graph's content.")
def c17(ctx):
    R = ctx.run
    for cname in GRAPHS:
        training_case(ctx, R, cname)
    for cname in GRAPHS:
        incs = [None] if is_interval(cname) else list(INCL)
        for i, (tm, b, e) in enumerate(cases(cname)):
            if not ctx.thorough and is_interval(cname) and i % 3:
                continue
            es = [("a", "b") + tm] + extras(cname, tm, i // 3)
            attrs = {x: {"w": j} if j % 2 == 0 else {"q": j} for j, x in enumerate(es)}
            for inc in (incs if ctx.thorough or is_interval(cname) else incs[i % 4:i % 4 + 1] + incs[:1]):
                w = dict(win(b, e), **({} if inc is None else {"inclusive": inc}))
                model_case(ctx, R, cname, es, attrs, b, e, inc, w, [("a", None), (None, "b"), ("a", "b"), (["a", "c"], None), ("b", "a"), (None, ["b"]), ("z", None),
                                                                   ("nope", None), (["a", "nope"], ["b"]), (["z"], "b")][:None if i % 4 == 0 or ctx.thorough else 4])
        for gi, sc in [(i, x) for i in range(3) for x in (SCALES if ctx.thorough else SCALES[i % 2:i % 2 + 1])]:
            es = endpoint_graphs(cname, sc)[gi]
            attrs = {x: {"w": j} if j % 2 == 0 else {"q": j} for j, x in enumerate(es)}
            for b, e in windows(cname, sc):
                names = ["a", "b", "c", "z", "nope", ["a", "b"], {"c"}, []] if gi < 2 else ["a", ("x", "y"), "ab", 0, [0, 1], {("x", "y")}]
                w = win(b, e)
                model_case(ctx, R, cname, es, attrs, b, e, None, w, [(x, y) for x in [None] + names for y in [None] + names][:: 1 if ctx.thorough else 3] + OVERLAP)


def training_case(ctx, R, cname):
    """training reads the graph and writes nothing but the model"""
    if not ctx.mine():
        return
    seen, bad = train.training(R.prog, cname)
    construct = f"{cname}.generate_predictive_model"
    if seen is None:
        ctx.undecided("training", construct, "no training method")
        return
    for x in seen:
        R.functions[x] = True
    for f, l, name, what in bad:
        ctx.violation("training", name, f, l, f"{name} {what}: training the lookup model changes the graph it is trained on")
    if not bad:
        ctx.ok("training", construct)


# endpoint lists that share nodes (both routes must still look at every node of either list)
OVERLAP = [(["a", "b"], ["a"]), (["a"], ["b", "a"]), (["a", "b"], ["b", "a"]), (["b", "c", "a"], {"a", "c"}), (["a", "b"], "b")]


def model_case(ctx, R, cname, es, attrs, b, e, inc, w, pairs):
    for m in (None, Model(0), Model(1)):
        st = R.graph(cname, [(x, Attr(attrs[x])) for x in es], iso=("z",), **({} if m is None else {"model": m}))
        tag = "no model" if m is None else f"route {m.which}"
        for k, (u, v) in enumerate(pairs):
            sel = q_edges(cname, es, b, e, u, v, inc or (True, False))
            kw = dict(w)
            if u is not None:
                kw["u"] = u
            if v is not None:
                kw["v"] = v
            ctx.expect("route", cname, "edges", st, (), kw, edge_list(cname, sel), tag=tag)
            if k % 2 == 0:
                ctx.expect("route", cname, "edges", st, (), dict(kw, data=True), edge_data(cname, [(x, attrs[x]) for x in sel]), tag=tag)
                ctx.expect("route", cname, "edges", st, (), dict(kw, data="w", default=7), edge_data(cname, [(x, attrs[x].get("w", 7)) for x in sel]), tag=tag)


# ====================================================================== attribute isolation
def chain(ctx, rule, cname, first, steps, judge, tag, kept=()):
    """run operations one after the other; judge the last state; `kept` = caller objects that must stay as they are"""
    if not ctx.mine():
        return
    R = ctx.run
    before = [digest(x) for x in kept]
    st = first
    track = {id(x): x for x in kept}
    construct = f"{cname}.{steps[-2][0] if len(steps) > 1 else steps[-1][0]}[{tag}]"
    try:
        for i, (m, a, k) in enumerate(steps):
            o = R.invoke(cname, m, st, a, k)
            msg = failed(o)
            if msg:
                break
            st = o[1].state if isinstance(o[1], Inst) else o[3]
            # what became of the caller's own objects if the graph stored them
            org = getattr(R.last, "origin", {})
            track = {k: org.get(id(x)) for k, x in track.items() if x is not None}
        else:
            msg = judge(("ok", None, None, st))
        if not msg and any(track.get(id(x)) is not None and digest(track[id(x)]) != b for x, b in zip(kept, before)):
            msg = "changes a dictionary of the caller, which the graph stored as its own"
        if not msg and [digest(x) for x in kept] != before:
            msg = "changes an object the caller passed in"
    except ParamEffect as ex:
        msg = f"changes an object the caller passed in ({ex})"
    except Exception as ex:
        ctx.undecided(rule, construct, ex)
        return
    if msg is None:
        ctx.ok(rule, construct)
        return
    f, l = ctx.where(cname, steps[0][0])
    ctx.violation(rule, construct, f, l, f"{cname}: {'; '.join(m + call(a, k) for m, a, k in steps)} on {describe(first)}: {msg}")


from rep import call, ParamEffect


@check("C19", "Bulk insertions and imports of the six graph classes are evaluated and followed by a single attribute-changing operation "
       "on the resulting abstract state, whose dictionaries keep their identity: every other edge, node and caller-owned dictionary "
       "must be unaffected.")
def c19(ctx):
    R = ctx.run
    for cname in GRAPHS:
        T = times(cname)
        for base in bases(cname):
            st = R.graph(cname, [(e, Attr(a)) for e, a in base], iso=("z",))
            for pair in ((("a", "b") + T[0], ("b", "c") + T[0]), (("n", "m") + T[1], ("n", "m") + T[2]), (("n", "m") + T[1], ("m", "n") + T[2]),
                         (("n", "n") + T[0], ("a", "n") + T[0])):
                for attr in ({}, {"w": 9}):
                    for j in (0, 1):
                        exp = base
                        for e in pair:
                            exp = merged(cname, exp, e, attr)
                        exp = merged(cname, exp, pair[j], {"x": 1, "w": 4})
                        chain(ctx, "edges", cname, st, [("add_edges_from", (list(pair),), dict(attr)), ("add_edge", pair[j], {"x": 1, "w": 4})],
                              leaves(R, cname, exp, ("z",)), "bulk edges")
            # single insertions that happen to carry the same attributes
            for pair in ((("a", "b") + T[0], ("a", "b") + T[1]), (("n", "m") + T[1], ("n", "m") + T[2]), (("n", "m") + T[0], ("m", "n") + T[1]),
                         (("n", "m") + T[0], ("n", "o") + T[0]), (("n", "n") + T[0], ("n", "n") + T[1])):
                for attr in ({"w": 9}, {}):
                    for j in (0, 1):
                        exp = base
                        for e in pair:
                            exp = merged(cname, exp, e, attr)
                        exp = merged(cname, exp, pair[j], {"x": 1, "w": 4})
                        chain(ctx, "edges", cname, st, [("add_edge", pair[0], dict(attr)), ("add_edge", pair[1], dict(attr)),
                                                        ("add_edge", pair[j], {"x": 1, "w": 4})],
                              leaves(R, cname, exp, ("z",)), "single edges")
            names = {n for e, _ in base for n in e[:2]} | {"z"}
            for attr in ({}, {"p": 7}):
                for n, m in (("n", "m"), ("a", "n"), ("z", "n")):
                    na = {x: {} for x in names | {n, m}}
                    for x in (n, m):
                        na[x] = dict(na[x], **attr)
                    na[m] = dict(na[m], p=8, y=2)
                    iso = tuple(x for x in ("z", n, m) if x not in {y for e, _ in base for y in e[:2]})
                    chain(ctx, "nodes", cname, st, [("add_node", (n,), dict(attr)), ("add_node", (m,), dict(attr)), ("add_node", (m,), {"p": 8, "y": 2})],
                          leaves(R, cname, base, tuple(dict.fromkeys(iso)), {x: Attr(a) for x, a in na.items()}), "single nodes")
                for last in ("n", "m", "z", "a", "o"):
                    d = {"k": 1}
                    nodes = ["n", ("m", d), "z", ("a", d), "o"]
                    na = {n: {} for n in names}
                    for n, x in (("n", {}), ("m", {"k": 1}), ("z", {}), ("a", {"k": 1}), ("o", {})):
                        na[n] = dict(na.get(n, {}), **dict(attr, **x))
                    na[last] = dict(na[last], p=8, y=2)
                    iso = tuple(x for x in ("z", "n", "m", "a", "o") if x == "z" or x not in {n for e, _ in base for n in e[:2]})
                    chain(ctx, "nodes", cname, st, [("add_nodes_from", (nodes,), dict(attr)), ("add_node", (last,), {"p": 8, "y": 2})],
                          leaves(R, cname, base, iso, {n: Attr(a) for n, a in na.items()}), "bulk nodes", kept=(d, nodes))
        # importing leaves source and result independent
        names = ("begin", "end") if is_interval(cname) else ("timestamp",)
        es = [("a", "b") + T[0], ("b", "c") + T[1], ("c", "c") + T[0]]
        for src in ("Graph", "DiGraph", "MultiGraph", "MultiDiGraph"):
            for j in range(3):
                g = NX(src, {"a": {"p": 1}, "b": {}, "c": {}}, [(e[0], e[1], dict({"w": i}, **stamp(cname, e, names))) for i, e in enumerate(es)])
                exp = [(e, {"w": i}) for i, e in enumerate(es)]
                exp = merged(cname, exp, es[j], {"w": 50, "x": 1})
                chain(ctx, "import", cname, {}, [("from_networkx_graph", (g,), {}), ("add_edge", es[j], {"w": 50, "x": 1})],
                      leaves(R, cname, exp), "networkx", kept=(g,))
    for cname in INTERVAL:
        for sg in SNAP:
            kind = "DiGraph" if sg == "SnapshotDiGraph" else "Graph"
            for j in range(2):
                members = [NX(kind, {"a": {}, "b": {}, "c": {}}, [("a", "b", {"w": i}), ("b", "c", {})] if i != 1 else [("b", "c", {})]) for i in range(3)]
                st = snap_state(R, sg, [(i, i + 1) for i in range(3)], lambda i: members[i])
                exp = [(("a", "b", 0, 1), {"w": 0}), (("a", "b", 2, 3), {"w": 2}), (("b", "c", 0, 3), {})]
                e = exp[j][0]
                chain(ctx, "import", cname, {}, [("from_snapshot_graph", (Inst(sg, st),), {}), ("add_edge", e, {"w": 50, "x": 1})],
                      leaves(R, cname, merged(cname, exp, e, {"w": 50, "x": 1})), "snapshots", kept=tuple(members))


# ====================================================================== unique timestamps
def within(x, b, e, inc):
    if b is not None and not (x >= b if inc[0] else x > b):
        return False
    if e is not None and not (x <= e if inc[1] else x < e):
        return False
    return True


@check("C20", "unique_timestamps/unique_begin_timestamps/unique_end_timestamps are compiled and evaluated for every order type of an "
       "interval and the bounds (0 and open bounds included) next to other edges that share or repeat times, with all inclusive "
       "settings, and compared with the ascending distinct event times within the bounds.")
def c20(ctx):
    R = ctx.run
    import checks6
    if ctx.mine():
        checks6.tree_part(ctx, "traversal")
    meths = [("unique_timestamps", (2, 3)), ("unique_begin_timestamps", (2,)), ("unique_end_timestamps", (3,))]
    for cname in INTERVAL:
        for m, pos in meths:
            if R.prog.find(cname, m) is None:
                continue
            for i, (tm, b, e) in enumerate(cases(cname) + fine_cases(cname)):
                for k in (range(6) if ctx.thorough else (i,)):
                    es = [("a", "b") + tm] + extras(cname, tm, k)
                    st = graph(R, cname, es)
                    times_ = sorted({x[p] for x in es for p in pos})
                    for inc in INCL:
                        # an absent bound does not restrict; whether it is then exclusive of the extremes is left open
                        if (b is None and not inc[0]) or (e is None and not inc[1]):
                            continue
                        kw = dict(win(b, e), inclusive=inc)
                        ctx.expect("unique", cname, m, st, (), kw, value(lambda v, t=[x for x in times_ if within(x, b, e, inc)]: None if isinstance(v, (list, tuple)) and list(v) == t else f"yields {show(v)}, expected {t}"))
                    ctx.expect("unique", cname, m, st, (), win(b, e), value(lambda v, t=[x for x in times_ if within(x, b, e, (True, True))]: None if isinstance(v, (list, tuple)) and list(v) == t else f"yields {show(v)}, expected {t}"), tag="defaults")
            ctx.expect("unique", cname, m, graph(R, cname, []), (), {}, value(lambda v: None if isinstance(v, (list, tuple)) and not v else f"yields {show(v)}, expected nothing"), tag="empty")


# ====================================================================== interval
@check("C21", "interval() of the four graph classes is evaluated after every removal and insertion over graphs with 1-4 edges whose extremes "
       "are shared, single, zero-length, 0 or negative, and compared with the exact span of the remaining edges; for an index of any "
       "size, the first and last instant IntervalTree keeps are followed through add and remove over opaque subtrees.")
def c21(ctx):
    R = ctx.run
    import checks6
    if ctx.mine():
        checks6.tree_ends(ctx)
    for cname in GRAPHS:
        iv = is_interval(cname)
        spans = [(0, 4), (2, 6), (-4, 0), (-4, 6), (4, 4), (6, 6), (-4, -4), (0, 0), (2, 4)] if iv else [(0,), (2,), (-4,), (6,), (4,)]
        n = len(spans)
        for i in range(n):
            for j in range(n):
                for k in (range(n) if ctx.thorough else ((2 * i + 3 * j + 1) % n,)):
                    sc = SCALES[(i + j) % 3]
                    nxt = tuple(x * sc for x in spans[(i + 1) % n])
                    es = [("a", "b") + spans[i], ("b", "c") + spans[j], ("c", "d") + spans[k]]
                    es = list(dict.fromkeys(x[:2] + tuple(t * sc for t in x[2:]) for x in es))
                    st = graph(R, cname, es)
                    ctx.expect("span", cname, "interval", st, (), {}, span(es))
                    for x in es:
                        rest = [y for y in es if y != x]
                        if not rest:
                            continue
                        steps = [("remove_edge", x if iv else x[:2], {"overlapping": False} if iv else {"begin": x[2], "end": x[2]}),
                                 ("remove_node", (x[0],), {})]
                        for m, a, kw in steps:
                            o = run_ok(ctx, cname, m, st, a, kw)
                            if o is None:
                                continue
                            left = rest if m == "remove_edge" else [y for y in es if x[0] not in y[:2]]
                            if left:
                                ctx.expect("span", cname, "interval", o[3], (), {}, span(left), tag="after " + m)
                                for y in (("q", "r") + nxt, x):
                                    o2 = run_ok(ctx, cname, "add_edge", o[3], y, {})
                                    if o2:
                                        ctx.expect("span", cname, "interval", o2[3], (), {}, span(left + [y]), tag="after add_edge")


def span(es):
    want = (min(e[2] for e in es), max(e[-1] for e in es))
    return value(lambda v: None if isinstance(v, (list, tuple)) and tuple(v) == want else f"yields {show(v)}, expected {want}")
