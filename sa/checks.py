"""One function per property: enumerates its obligations over the summaries."""
from ev import Und, PyErr, Attr, NX, Ext, Gen, View, Inst, Opaque, Model, G
import world
from world import is_directed, is_interval
from spec import *

CHECKS = {}
SPREAD = {"C01", "C02", "C05", "C06", "C07", "C11", "C13", "C14", "C15", "C16", "C17", "C18", "C20", "C21", "C23"}


def check(pid, explanation):
    def deco(f):
        CHECKS[pid] = (f, explanation)
        return f
    return deco


def win(begin, end):
    kw = {}
    if begin is not None:
        kw["begin"] = begin
    if end is not None:
        kw["end"] = end
    return kw


def default_inclusive(cname, meth):
    """documented in every signature"""
    return (True, True) if cname == "ImpulseDiGraph" and meth in ("has_edge", "remove_edge") else (True, False)


def window_queries(ctx, rule, cname, es, st, b, e, incl=None, iso=()):
    """every query that takes a window selects the same edges"""
    x = {} if incl is None else {"inclusive": incl}
    inc = incl or (True, False)
    dflt = incl or default_inclusive(cname, "has_edge")
    w = dict(win(b, e), **x)
    E_ = q_edges(cname, es, b, e, None, None, inc)
    N = q_nodes(cname, es, b, e, inc, iso)
    ctx.expect(rule, cname, "edges", st, (), w, edge_list(cname, E_))
    for u in ("a",):
        ctx.expect(rule, cname, "edges", st, (), dict(w, u=u), edge_list(cname, q_edges(cname, es, b, e, u, None, inc)), tag="u")
    ctx.expect(rule, cname, "edges", st, (), dict(w, v="b"), edge_list(cname, q_edges(cname, es, b, e, None, "b", inc)), tag="v")
    ctx.expect(rule, cname, "edges", st, (), dict(w, u="a", v="b"), edge_list(cname, q_edges(cname, es, b, e, "a", "b", inc)), tag="uv")
    ctx.expect(rule, cname, "has_edge", st, ("a", "b"), w, truth(bool(q_edges(cname, es, b, e, "a", "b", dflt))))
    ctx.expect(rule, cname, "nodes", st, (), w, node_set(N))
    ctx.expect(rule, cname, "number_of_nodes", st, (), w, equals(len(N)))
    for n in ("a", "b") + tuple(iso):
        ctx.expect(rule, cname, "has_node", st, (n,), w, truth(n in N))
    ctx.expect(rule, cname, "degree", st, ("b",), w, equals(len([1 for y in E_ if incident(y, "b")])))


def to_sub_edges(cname, es):
    """edges of the exported simple graph"""
    d = is_directed(cname)

    def c(v):
        if not isinstance(v, NX):
            raise Und("exported graph")
        k = (lambda y: y[:2]) if d else (lambda y: tuple(sorted(y[:2])))
        if {k(y) for y in v.edges} != {k(y) for y in es}:
            return f"exports {show(v.edges)}, expected the edges of {show(list(es))}"
        if set(v.nodes) != {n for y in es for n in y[:2]}:
            return f"exports nodes {sorted(v.nodes)}, expected those of {show(list(es))}"
    return value(c)


@check("C01", "Every window query of IntervalGraph/IntervalDiGraph (edges by all four endpoint routes, has_edge, nodes, "
       "has_node, number_of_nodes, degree, to_subgraph) is compiled into a guarded summary; its membership guard is "
       "evaluated for every order type of (edge begin, edge end, window begin, window end, 0), open bounds included, next to "
       "varying second edges, and compared with [begin, end) membership; that the index finds every edge it was given is decided "
       "by following insertion and lookup over opaque subtrees.")
def c01(ctx):
    R = ctx.run
    import checks6
    if ctx.mine():
        checks6.tree_part(ctx, "insert", "lookup")
    for cname in INTERVAL:
        for i, ((s, t), b, e) in enumerate(cases(cname) + fine_cases(cname, True)):
            for k in (range(6) if ctx.thorough else (i,)):
                es = [("a", "b", s, t)] + extras(cname, (s, t), k)
                st = graph(R, cname, es, iso=("z",))
                window_queries(ctx, "window", cname, es, st, b, e, iso=("z",))
                if is_directed(cname):
                    E_ = q_edges(cname, es, b, e)
                    ctx.expect("window", cname, "in_degree", st, ("b",), win(b, e), equals(sum(y[1] == "b" for y in E_)))
                    ctx.expect("window", cname, "out_degree", st, ("a",), win(b, e), equals(sum(y[0] == "a" for y in E_)))
                ctx.expect("window", cname, "to_subgraph", st, (b, e), {}, to_sub_edges(cname, q_edges(cname, es, b, e)))


@check("C02", "Every window query of ImpulseGraph/ImpulseDiGraph is compiled into a guarded summary and evaluated for every "
       "order type of (timestamp, window begin, window end, 0), open bounds and the four inclusive settings included; a window "
       "with equal bounds selects exactly that instant.")
def c02(ctx):
    R = ctx.run
    for cname in IMPULSE:
        for i, ((t,), b, e) in enumerate(cases(cname) + fine_cases(cname, True)):
            for k in (range(6) if ctx.thorough else (i, i // 6)):
                es = [("a", "b", t)] + extras(cname, (t,), k)
                st = graph(R, cname, es, iso=("z",))
                for inc in list(INCL) + [None]:
                    window_queries(ctx, "window", cname, es, st, b, e, inc, iso=("z",))
                    w = dict(win(b, e), inclusive=inc) if inc else win(b, e)
                    inc = inc or (True, False)
                    if is_directed(cname):
                        E_ = q_edges(cname, es, b, e, None, None, inc)
                        ctx.expect("window", cname, "in_degree", st, ("b",), w, equals(sum(y[1] == "b" for y in E_)))
                        ctx.expect("window", cname, "out_degree", st, ("a",), w, equals(sum(y[0] == "a" for y in E_)))
                    ctx.expect("window", cname, "to_subgraph", st, (b, e, inc), {},
                               to_sub_edges(cname, q_edges(cname, es, b, e, None, None, inc)))
                ctx.expect("window", cname, "to_subgraph", st, (b, e), {}, to_sub_edges(cname, q_edges(cname, es, b, e)))
                st = R.graph(cname, [(x, Attr(w=j)) for j, x in enumerate(es)], iso=("z",))
                for inc in (None, INCL[i % 4]):
                    gone = q_edges(cname, es, b, e, "a", "b", inc or default_inclusive(cname, "remove_edge"))
                    if b is None or e is None or b <= e:
                        ctx.expect("window", cname, "remove_edge", st, ("a", "b"), dict(win(b, e), **({"inclusive": inc} if inc else {})),
                                   leaves(R, cname, without([(x, {"w": j}) for j, x in enumerate(es)], gone), tuple(dict.fromkeys([n for x in es for n in x[:2]] + ["z"]))))


# ====================================================================== insertion
from observe import leaves, canon_state, first_difference


def times(cname):
    return [(0, 4), (2, 6), (-4, 0), (0, 0)] if is_interval(cname) else [(0,), (2,), (-3,)]


def merged(cname, es, e, attr):
    """(edge, attributes) list after inserting e"""
    out, hit = [], False
    for x, a in es:
        if canon(cname, x) == canon(cname, e):
            out.append((x, dict(a, **attr)))
            hit = True
        else:
            out.append((x, dict(a)))
    if not hit:
        out.append((e, dict(attr)))
    return out


def bases(cname):
    T = times(cname)
    return [[], [(("a", "b") + T[0], {"w": 1})],
            [(("a", "b") + T[0], {"w": 1}), (("b", "c") + T[1], {}), (("b", "a") + T[2], {"k": 5})],
            [(("a", "a") + T[0], {"w": 1}), (("a", "b") + T[0], {})]]


@check("C04", "add_edge/add_edges_from/add_node/add_nodes_from of the four graph classes are compiled to guarded effects; for "
       "new, parallel, repeated, swapped and self-loop edges over several existing graphs the resulting state is compared "
       "with the state of the expected graph, structurally or through every public query; index insertion is followed over "
       "opaque subtrees.")
def c04(ctx):
    R = ctx.run
    import checks6
    if ctx.mine():
        checks6.tree_part(ctx, "insert")
    for cname in GRAPHS:
        T = times(cname)
        for base in bases(cname):
            na = {"z": Attr(p=1), "a": Attr(p=2)}
            names = {n for e, _ in base for n in e[:2]} | {"z"}
            na = {k: v for k, v in na.items() if k in names}
            st = R.graph(cname, [(e, Attr(a)) for e, a in base], iso=("z",), node_attr=na)
            for u, v in (("a", "b"), ("b", "a"), ("a", "c"), ("n", "m"), ("a", "a"), ("z", "b"), ("n", "n"), ("c", "b")):
                for t in T:
                    for attr in ({}, {"w": 9}, {"q": 1}) if ctx.thorough or t == T[0] else ({"w": 9},):
                        e = (u, v) + t
                        exp = merged(cname, base, e, attr)
                        ctx.expect("insert", cname, "add_edge", st, e, attr, leaves(R, cname, exp, ("z",), na))
            for e1, e2 in ((("a", "b") + T[0], ("b", "c") + T[0]), (("n", "m") + T[1], ("m", "n") + T[1]),
                           (("a", "b") + T[1], ("a", "b") + T[2]), (("a", "n") + T[0], ("a", "n") + T[0])):
                for attr in ({}, {"w": 9}):
                    exp = merged(cname, merged(cname, base, e1, attr), e2, attr)
                    ctx.expect("insert", cname, "add_edges_from", st, ([e1, e2],), attr, leaves(R, cname, exp, ("z",), na))
            ctx.expect("insert", cname, "add_edges_from", st, ([],), {"w": 9}, leaves(R, cname, base, ("z",), na))
            for n in ("a", "z", "n"):
                for attr in ({}, {"p": 7, "r": 1}):
                    na2 = {k: Attr(x) for k, x in na.items()}
                    na2[n] = Attr(na2.get(n, {}), **attr)
                    iso = tuple(dict.fromkeys(("z",) + ((n,) if n not in names else ())))
                    ctx.expect("insert", cname, "add_node", st, (n,), attr, leaves(R, cname, base, iso, na2))
            for attr in ({}, {"p": 7}):
                na2 = {k: Attr(x) for k, x in na.items()}
                for n, x in (("n", {}), ("z", {}), ("m", {"k": 1}), ("a", {"p": 0})):
                    na2[n] = Attr(na2.get(n, {}), **dict(attr, **x))
                iso = tuple(x for x in ("z", "n", "m", "a") if x == "z" or x not in names)
                ctx.expect("insert", cname, "add_nodes_from", st, (["n", "z", ("m", {"k": 1}), ("a", {"p": 0})],), attr,
                           leaves(R, cname, base, iso, na2))
            # node labels that are tuples themselves
            na2 = {k: Attr(x) for k, x in na.items()}
            na2.update({("t",): Attr(), ("p", "q"): Attr(), ("p", "r"): Attr(k=1)})
            iso = ("z", ("t",), ("p", "q"), ("p", "r"))
            ctx.expect("insert", cname, "add_nodes_from", st, ([("t",), ("p", "q"), (("p", "r"), {"k": 1})],), {},
                       leaves(R, cname, base, iso, na2))


# ====================================================================== removal
def without(es, gone):
    return [(e, a) for e, a in es if e not in gone]


@check("C05", "remove_edge/remove_node of the four graph classes are compiled to guarded effects; for every order type of an "
       "edge and a window (and exact matching), next to parallel, reversed, sharing and unrelated edges, the resulting state "
       "is compared with the graph that lacks exactly the selected edges; index removal is followed over opaque subtrees.")
def c05(ctx):
    R = ctx.run
    import checks6
    if ctx.mine():
        checks6.tree_part(ctx, "remove")
    for cname in GRAPHS:
        d = is_directed(cname)
        incs = [None] if is_interval(cname) else list(INCL) + [None]
        for i, (tm, b, e) in enumerate(cases(cname) + fine_cases(cname)[::1 if ctx.thorough else 5]):
            if not ctx.thorough and is_interval(cname) and i % 2:
                continue
            for k in (range(6) if ctx.thorough else (i // 2,)):
                edges = [("a", "b") + tm] + extras(cname, tm, k)
                es = [(x, {"w": j}) for j, x in enumerate(edges)]
                st = R.graph(cname, [(x, Attr(a)) for x, a in es], iso=("z",))
                iso = tuple(dict.fromkeys([n for x in edges for n in x[:2]] + ["z"]))
                for inc in incs:
                    w = dict(win(b, e), **({} if inc is None else {"inclusive": inc}))
                    gone = q_edges(cname, edges, b, e, "a", "b", inc or default_inclusive(cname, "remove_edge"))
                    ctx.expect("remove", cname, "remove_edge", st, ("a", "b"), w,
                               leaves(R, cname, without(es, gone), iso))
                    gone = [x for x in edges if incident(x, "b") and member(cname, x, b, e, inc or (True, False))]
                    left = without(es, gone)
                    keep = any(incident(x, "b") for x, _ in left)
                    iso2 = tuple(n for n in iso if n != "b" or keep)
                    ctx.expect("remove", cname, "remove_node", st, ("b",), w, leaves(R, cname, left, iso2))
        T = times(cname)
        times0 = sorted({x for t in T for x in t})
        times0 = [times0[0] - 1] + times0 + [times0[-1] + 1]
        for base in bases(cname)[1:] + [[(("b", "a") + T[0], {"w": 1}), (("a", "b") + T[1], {"w": 2})],
                                        [(("a", "b") + t, {"w": j}) for j, t in enumerate(T)],
                                        [(("a", "b") + t, {}) for t in T] + [(("c", "b") + t, {}) for t in T],
                                        [(("b", "b") + t, {"w": j}) for j, t in enumerate(T)] + [(("a", "b") + T[0], {})]]:
            edges = [x for x, _ in base]
            na = {"a": {"p": 1}, "b": {"q": 2}, "z": {"p": 0}}
            na = {n: a for n, a in na.items() if n == "z" or any(n in x[:2] for x in edges)}
            st = R.graph(cname, [(x, Attr(a)) for x, a in base], iso=("z",), node_attr={n: Attr(a) for n, a in na.items()})
            iso = tuple(dict.fromkeys([n for x in edges for n in x[:2]] + ["z"]))
            for u in ("a", "b", "c", "z", "n"):
                for v in ("a", "b", "c", "z", "n"):
                    gone = q_edges(cname, edges, None, None, u, v)
                    ctx.expect("remove", cname, "remove_edge", st, (u, v), {}, leaves(R, cname, without(base, gone), iso, na),
                               tag="all")
                    if is_interval(cname):
                        for t in T:
                            gone = [x for x in edges if canon(cname, x) == canon(cname, (u, v) + t)]
                            ctx.expect("remove", cname, "remove_edge", st, (u, v) + t, {"overlapping": False},
                                       leaves(R, cname, without(base, gone), iso, na), tag="exact")
                    if base[0][0][:2] == base[-1][0][:2] or len(base) > 3:
                        for b in times0:
                            for e in times0:
                                if e < b or (u, v) == ("n", "n"):
                                    continue
                                gone = q_edges(cname, edges, b, e, u, v, default_inclusive(cname, "remove_edge"))
                                ctx.expect("remove", cname, "remove_edge", st, (u, v, b, e), {}, leaves(R, cname, without(base, gone), iso, na), tag="many")
                gone = [x for x in edges if incident(x, u)]
                ctx.expect("remove", cname, "remove_node", st, (u,), {},
                           leaves(R, cname, without(base, gone), tuple(n for n in iso if n != u), {n: a for n, a in na.items() if n != u}), tag="all")
            # removing and inserting again
            for x, a in base:
                o = run_ok(ctx, cname, "remove_edge", st, x[:2] + (() if not is_interval(cname) else x[2:]),
                           {"overlapping": False} if is_interval(cname) else {"begin": x[2], "end": x[2]})
                if o:
                    ctx.expect("remove then insert", cname, "add_edge", o[3], x, {"w": 5},
                               leaves(R, cname, without(base, [x]) + [(x, {"w": 5})], iso, na))


def run_ok(ctx, cname, meth, st, args, kw):
    try:
        o = ctx.run.invoke(cname, meth, st, args, kw)
    except Exception as ex:
        ctx.undecided("composition", f"{cname}.{meth}", ex)
        return None
    return o if o[0] == "ok" else None
