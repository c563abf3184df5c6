"""Properties of importers, text files, snapshot graphs, validation."""
from checks2 import *
from rep import describe
from ev import Ev


def holds(run, cname, es, iso=(), node_attr=None, exact_class=None):
    """predicate: the result is a graph holding exactly these (edge, attributes)"""
    inner = leaves(run, cname, es, iso, node_attr)

    def pred(o):
        m = failed(o)
        if m:
            return m
        v = o[1]
        if not isinstance(v, Inst):
            if v is None or isinstance(v, (list, dict, NX)):
                return f"yields {show(v)}, expected a {cname}"
            raise Und("resulting graph")
        if v.cls != (exact_class or cname):
            return f"yields a {v.cls}, expected a {exact_class or cname}"
        return inner(("ok", None, None, v.state))
    return pred


# ====================================================================== importers
def stamp(cname, e, names):
    if is_interval(cname):
        return {names[0]: e[2], names[1]: e[3]}
    return {names[0]: e[2]}


@check("C11", "from_networkx_graph (default and custom time attribute names, all four networkx classes, extra attributes) and "
       "from_snapshot_graph (runs of presence/absence over several snapshots, swapped orientation, begin/period) are evaluated "
       "and the resulting graph is compared with the expected timed edges and attributes; the source must not be modified.")
def c11(ctx):
    import itertools
    R = ctx.run
    for cname in GRAPHS:
        T = es_times(cname)
        iv0 = is_interval(cname)
        namings = [("begin", "end"), ("s", "t"), ("end", "begin"), ("w", "begin")] if is_interval(cname) else [("timestamp",), ("when",), ("w",)]
        argn = ("begin", "end") if is_interval(cname) else ("timestamp",)
        for names in namings:
            for src in ("Graph", "DiGraph", "MultiGraph", "MultiDiGraph"):
                base = [("a", "b") + T[0], ("b", "c") + T[1], ("c", "c") + T[2], ("d", "a") + T[3]]
                if src.startswith("Multi"):
                    base += [("a", "b") + T[1], ("b", "a") + T[2]]
                for shift in (0, 1, 2):
                    odd = {n: i for i, n in enumerate(literal_names(R)) if n not in ("u", "v", "t", "begin", "end") or not iv0 and n in ("begin", "end")}
                    attrs = [{}, odd, {}, odd, {}, odd][:len(base)] if shift == 2 else [dict(zip(("q", "timestamp" if is_interval(cname) else "begin", "k", "r"), range(i % 3 * (1 + shift)))) if i else {} for i in range(len(base))]
                    attrs = [{k: v for k, v in a.items() if k not in names} for a in attrs]
                    g = NX(src, {n: {} for n in dict.fromkeys(x for e in base for x in e[:2])},
                           [(e[0], e[1], dict(a, **stamp(cname, e, names))) for e, a in zip(base, attrs)])
                    kw = {a: n for a, n in zip(argn, names) if a != n}
                    exp = []
                    for e, a in zip(base, attrs):
                        exp = merged(cname, exp, e, a)
                    ctx.expect("import", cname, "from_networkx_graph", {}, (g,), kw, holds(R, cname, exp), args_kept=True)
        ctx.expect("import", cname, "from_networkx_graph", {}, (NX("Graph"),), {}, holds(R, cname, []), tag="empty")
    for cname in INTERVAL:
        for sg in SNAP:
            n = 4 if ctx.thorough else 3
            for (begin, period) in ((0, 1), (-2, 0.5), (5, 3), (0, 1.5), (0.5, 2.5), (0, 0.25)):
                for pats in itertools.product(range(2 ** n), repeat=2 if ctx.thorough or (begin, period) == (0, 1) else 1):
                    pats = pats * (2 if len(pats) == 1 else 1)
                    for swap in (False, True) if not is_directed(cname) else (False,):
                        kind = "DiGraph" if sg == "SnapshotDiGraph" else "Graph"
                        members, runs = [], {}
                        for i in range(n):
                            es = []
                            for j, (u, v) in enumerate((("a", "b"), ("b", "c"))):
                                if (pats[j] >> i) & 1:
                                    a = {"w": 10 * j + i} if j == 0 else {}
                                    p = (v, u) if swap and kind == "Graph" and i % 2 else (u, v)
                                    es.append(p + (a,))
                                    r = runs.setdefault((u, v), [])
                                    if r and r[-1][1] == i:
                                        r[-1][1] = i + 1
                                    else:
                                        r.append([i, i + 1, a])
                            if swap:
                                es.reverse()
                            members.append(NX(kind, {x: {} for e in es for x in e[:2]}, es))
                        st = snap_state(R, sg, [(i, i + 1) for i in range(n)], lambda i: members[i])
                        exp = [((u, v, begin + period * x, begin + period * y), dict(a)) for (u, v), r in runs.items() for x, y, a in r]
                        kw = {} if (begin, period) == (0, 1) else {"begin": begin, "period": period}
                        ctx.expect("import", cname, "from_snapshot_graph", {}, (Inst(sg, st),), kw, holds(R, cname, exp), args_kept=True)
        # an edge listed twice in one snapshot keeps its run
        for kind in ("MultiGraph", "MultiDiGraph"):
            for twice in (0, 1, 2):
                members = [NX(kind, {"a": {}, "b": {}}, [("a", "b", {})] * (2 if i == twice else 1)) for i in range(3)]
                st = snap_state(R, "SnapshotGraph", [(i, i + 1) for i in range(3)], lambda i: members[i])
                ctx.expect("import", cname, "from_snapshot_graph", {}, (Inst("SnapshotGraph", st),), {},
                           holds(R, cname, [(("a", "b", 0, 3), {})]), tag="parallel")


# ====================================================================== text files
def fmt(delim, fields):
    return delim.join(token(x) for x in fields) + "\n"


from ev import token


def kv(a):
    return [f"{k}={token(v)}" for k, v in a.items()]


def floats(e):
    return e[:2] + tuple(float(x) for x in e[2:])


def written(ctx, R, cname, st, args, kw):
    """lines save_to_txt writes, None when undecided; an error message when it fails"""
    try:
        ev = R.evaluator(cname, "save_to_txt", st, args, kw)
        o = ev.outcome()
        if o[0] != "ok":
            return "fails: " + failed(o)
        out = ""
        for name, w in ev.writes("write", "writelines", "writerow", "writerows"):
            parts = list(w[0]) if name == "writelines" and isinstance(w[0], (list, tuple)) else w
            if name[:8] == "writerow" or len(w) != 1 or not all(isinstance(x, str) for x in parts):
                raise Und("writer other than write()")
            out += "".join(parts)
        lines = out.split("\n")
        if not out:
            raise Und("writer other than write()")
        return [x + "\n" for x in lines[:-1]] + ([lines[-1]] if lines[-1] else [])
    except (Und, PyErr) as ex:
        ctx.undecided("round trip", f"{cname}.save_to_txt", ex)
        return None
    except Exception as ex:
        ctx.undecided("round trip", f"{cname}.save_to_txt", f"internal {ex}")
        return None


@check("C12", "save_to_txt/load_from_txt are evaluated on symbolic text (opaque tokens for numbers): what is saved loads back to "
       "the same edges and attributes for every delimiter; comments, blank lines, column orders, durations, merging, bad "
       "delimiters/orders/values and the snapshot matrix format are compared with their documented meaning.")
def c12(ctx):
    R = ctx.run
    for cname in GRAPHS:
        iv = is_interval(cname)
        tk = "intervaltype" if iv else "timestamptype"
        T = es_times(cname)
        graphs = [
            [(("a", "b") + T[0], {}), (("b", "c") + T[1], {"w": 2}), (("c", "a") + T[2], {"w": 1, "color": "red"})],
            [((1, 2) + T[0], {"k": "x"}), ((2, 1) + T[1], {}), ((0, 1) + T[2], {"z": 0, "y": 5})],
            [(("a", "b") + T[0], {}), (("a", "b") + T[1], {}), (("a", "a") + T[3], {"w": 3})],
            [(("a", "b") + T[0], {n: i for i, n in enumerate(literal_names(R)) if n not in ("u", "v", "t", "begin", "end")}), (("a", "b") + T[1], {"q": 1})],
            # instants with many digits: clock readings, large and small fractions
            [(("a", "b") + tuple(x * 1262454 + 1262454010 for x in T[0]), {"w": 1262454011}), (("b", "c") + tuple(x * 1262454.125 for x in T[1]), {}),
             (("c", "a") + tuple(x * 1.0000001 + 3e-9 for x in T[2]), {"w": 0.1 + 0.2})],
        ]
        for gi, es in enumerate(graphs):
            st = R.graph(cname, [(e, Attr(a)) for e, a in es])
            for delim in (" ", ",", ";", "|", "\t", "::", ".", "*", "+"):
                kw = {} if delim == " " else {"delimiter": delim}
                lines = written(ctx, R, cname, st, ("f",), kw)
                if lines is None:
                    continue
                if isinstance(lines, str):
                    f, l = ctx.where(cname, "save_to_txt")
                    ctx.violation("round trip", f"{cname}.save_to_txt", f, l, f"{cname}.save_to_txt on {describe(st)} {lines}")
                    continue
                exp = [(floats(e), {k: (float(v) if isinstance(v, int) else v) for k, v in a.items()}) for e, a in es]
                ctx.expect("round trip", cname, "load_from_txt", {}, ("f",), kw, holds(R, cname, exp), hooks={"open": lines}, tag=f"save{delim!r}")
                # what a file in the documented format means
                doc = [fmt(delim, list(e) + kv(a)) for e, a in es]
                ctx.expect("format", cname, "load_from_txt", {}, ("f",), kw, holds(R, cname, exp), hooks={"open": doc}, tag="plain")
                if delim in (" ", ","):
                    for pr in (True, False):
                        ctx.expect("format", cname, "load_from_txt", {}, ("f",), dict(kw, predict=pr), holds(R, cname, exp), hooks={"open": doc}, tag=f"predict={pr}")
                noisy = ["# header\n", "\n", "   \n"] + [x[:-1] + ("# note # 2\n" if i else "#" + x) for i, x in enumerate(doc)] + ["#\n", "\n"]
                ctx.expect("format", cname, "load_from_txt", {}, ("f",), kw, holds(R, cname, exp), hooks={"open": noisy}, tag="comments")
                if delim != "%":
                    noisy = ["% header\n"] + [x[:-1] + "%note#\n" for x in doc] + ["\n"]
                    ctx.expect("format", cname, "load_from_txt", {}, ("f",), dict(kw, comments="%"), holds(R, cname, exp), hooks={"open": noisy}, tag="comments=%")
                if "/" not in delim:
                    noisy = ["// header\n"] + [x[:-1] + delim + "p=a/b//note // 2\n" for x in doc] + ["//\n"]
                    ctx.expect("format", cname, "load_from_txt", {}, ("f",), dict(kw, comments="//"), holds(R, cname, [(e, dict(a, p="a/b")) for e, a in exp]), hooks={"open": noisy}, tag="comments=//")
        # column orders
        import itertools
        es = graphs[0]
        exp = [(floats(e), {k: (float(v) if isinstance(v, int) else v) for k, v in a.items()}) for e, a in es]
        cols = ("u", "v", "begin", "end") if iv else ("u", "v", "t")
        for order in itertools.permutations(range(len(cols))):
            lines = [fmt(",", [e[i] for i in order] + kv(a)) for e, a in es]
            ctx.expect("order", cname, "load_from_txt", {}, ("f",), {"delimiter": ",", "order": tuple(cols[i] for i in order)},
                       holds(R, cname, exp), hooks={"open": lines})
        # node and time types
        for nt, conv in (("int", int), ("str", str), ("float", float)):
            ess = graphs[1]
            exp2 = [((conv(str(e[0])) if nt != "str" else e[0], e[1]) + tuple(float(x) for x in e[2:]), {k: (float(v) if isinstance(v, int) else v) for k, v in a.items()}) for e, a in ess]
            if nt == "str":
                continue
            ctx.expect("types", cname, "load_from_txt", {}, ("f",), {"nodetype": G(nt), tk: G("int")}, holds(R, cname, exp2),
                       hooks={"open": [fmt(" ", list(e) + kv(a)) for e, a in ess]}, tag=nt)
        bad = [fmt(" ", ["a", "b"] + list(T[0]))]
        ctx.expect("types", cname, "load_from_txt", {}, ("f",), {"nodetype": G("float")}, raises("TypeError"), hooks={"open": bad}, tag="bad node")
        for k in range(len(T[0])):
            bad = [fmt(" ", ["a", "b"] + ["x" if i == k else y for i, y in enumerate(T[0])])]
            ctx.expect("types", cname, "load_from_txt", {}, ("f",), {}, raises("TypeError"), hooks={"open": bad}, tag="bad time")
        # rejected arguments
        ok = [fmt(" ", list(e)) for e, a in graphs[0]]
        ctx.expect("arguments", cname, "load_from_txt", {}, ("f",), {"delimiter": "="}, raises("ValueError"), hooks={"open": ok}, tag="delimiter")
        orders = [("u", "v", "begin"), ("u", "v"), ("u", "x", "begin", "end"), ("x", "v", "begin", "end"), ("u", "v", "x", "y"),
                  ("u", "v", "begin", "end", 3)] if iv else [("u", "v"), ("u", "x", "t"), ("x", "v", "t"), ("u", "v", "x"), ("u", "v", "t", "t")]
        for o in orders:
            ctx.expect("arguments", cname, "load_from_txt", {}, ("f",), {"order": o}, raises("ValueError"), hooks={"open": ok}, tag="order")
        st = R.graph(cname, [(e, Attr(a)) for e, a in graphs[0]])
        ctx.expect("arguments", cname, "save_to_txt", st, ("f",), {"delimiter": "="}, raises("ValueError"), tag="delimiter")
        ctx.expect("arguments", cname, "save_to_txt", R.graph(cname, []), ("f",), {}, raises("ValueError"), tag="empty graph")
        if iv:
            for which, order in (("begin", ("u", "v", "begin", 3)), ("end", ("u", "v", "end", 3)), ("begin", ("begin", "v", "u", 2.5)), ("end", ("v", "end", "u", 0))):
                d = order[3]
                ess = [(("a", "b"), 0, {}), (("b", "c"), -2, {"w": 1, "c": "x"}), (("a", "c"), 7, {"q": 4})]
                lines, exp = [], []
                for (u, v), x, a in ess:
                    row = {"u": u, "v": v, "begin": x, "end": x}
                    lines.append(fmt(" ", [row[c] for c in order[:3]] + kv(a)))
                    exp.append(((u, v) + ((float(x), float(x) + d) if which == "begin" else (float(x) - d, float(x))),
                                {k: (float(y) if isinstance(y, int) else y) for k, y in a.items()}))
                ctx.expect("duration", cname, "load_from_txt", {}, ("f",), {"order": order}, holds(R, cname, exp), hooks={"open": lines}, tag=which)
            merge_cases(ctx, R, cname)
    snapshot_text(ctx, R)


def merge_cases(ctx, R, cname):
    """merge=(True, gap): an edge whose attributes equal those of a loaded edge of the same pair within reach of the
    search window (gap + 1 beyond either end) is united with it"""
    for gap in (0, 1, 3):
        for lo in range(-12, 16):
            for ln in (0, 1, 3):
                for a2 in ({}, {"w": 1}):
                    first, second = (0.0, 4.0), (float(lo), float(lo + ln))
                    d = is_directed(cname)
                    near = q_edges(cname, [("a", "b") + first], second[0] - gap - 1, second[1] + gap + 1)
                    if near and a2 == {}:
                        exp = [(("a", "b", min(first[0], second[0]), max(first[1], second[1])), {})]
                    else:
                        exp = merged(cname, [(("a", "b") + first, {})], ("a", "b") + second, a2)
                    lines = [fmt(" ", ("a", "b", 0, 4)), fmt(" ", ["a", "b", lo, lo + ln] + kv(a2))]
                    ctx.expect("merge", cname, "load_from_txt", {}, ("f",), {"merge": (True, gap)}, holds(R, cname, exp), hooks={"open": lines})
        lines = [fmt(" ", ("a", "b", 0, 4)), fmt(" ", ("b", "c", 2, 6)), fmt(" ", ("a", "b", 3, 9))]
        exp = [(("a", "b", 0.0, 9.0), {}), (("b", "c", 2.0, 6.0), {})]
        ctx.expect("merge", cname, "load_from_txt", {}, ("f",), {"merge": (True, gap)}, holds(R, cname, exp), hooks={"open": lines}, tag="others kept")
    lines = [fmt(" ", ("a", "b", 0, 4)), fmt(" ", ("a", "b", 3, 9))]
    ctx.expect("merge", cname, "load_from_txt", {}, ("f",), {}, holds(R, cname, [(("a", "b", 0.0, 4.0), {}), (("a", "b", 3.0, 9.0), {})]),
               hooks={"open": lines}, tag="off")


def snapshot_text(ctx, R):
    for cname in SNAP:
        segs = [(-1234567.25, -3e-07), (0, 2), (2, 4), (4, 4), (6.125, 1262454019)]
        members = [NX("Graph", {0: {}, 1: {}}, [(0, 1, {"weight": 1e-9})]), NX("Graph", {0: {}, 1: {}, 2: {}}, [(0, 1, {}), (1, 2, {})]), NX("Graph", {0: {}, 1: {}}, [(0, 1, {"weight": 3})]),
                   NX("Graph", {0: {}}, []), NX("Graph", {0: {}, 1: {}, 2: {}}, [(0, 2, {"weight": 2.5}), (1, 1, {}), (0, 1, {"weight": -1234567.125})])]
        st = snap_state(R, cname, segs, lambda i: members[i])
        for delim in (None, ",", "|", "/"):
            for names in (None, ("begin", "stop"), ("s", "t"), ("t", "t2"), ("x1", "x"), ("end", "start")):
                kw = {}
                if delim:
                    kw["delimiter"] = delim
                if names:
                    kw["start"], kw["end"] = names
                lines = written(ctx, R, cname, st, ("f",), kw)
                if lines is None:
                    continue
                if isinstance(lines, str):
                    f, l = ctx.where(cname, "save_to_txt")
                    ctx.violation("snapshot text", f"{cname}.save_to_txt", f, l, f"{cname}.save_to_txt {lines}")
                    continue

                def pred(v, segs=segs):
                    if not isinstance(v, Inst):
                        raise Und("loaded graph")
                    got = v.state["snapshots"]
                    if sorted(got) != sorted(segs):
                        return f"loads snapshots {sorted(got)}, expected {segs}"
                    for k, m in zip(segs, members):
                        g = dict.__getitem__(got, k)
                        if not isinstance(g, NX):
                            raise Und("loaded snapshot")
                        w = {frozenset(e[:2]): e[2].get("weight", 1) for e in m.edges}
                        x = {frozenset(e[:2]): e[2].get("weight", 1) for e in g.edges}
                        if w != x or set(g.nodes) != set(m.nodes):
                            return f"loads snapshot {k} as {show(g)}, expected {show(m)}"
                ctx.expect("snapshot text", cname, "load_from_txt", {}, ("f",), kw, value(pred), hooks={"open": lines}, tag="save")
                ctx.expect("snapshot text", cname, "load_from_txt", {}, ("f",), kw, value(pred),
                           hooks={"open": ["# c\n", "\n"] + [x[:-1] + " # c # d=1\n" for x in lines] + ["  \n"]}, tag="comments")
                loose = [x[:-1].rsplit(" ", 2) for x in lines]
                if all(len(x) == 3 and "=" not in x[0] for x in loose):
                    dl = delim or ";"
                    loose = [x[0].replace(" ", "  ").replace(dl, " " + dl + " ") + "  " + x[2] + "  " + x[1] for x in loose]
                    loose = [x + "\n" for x in loose[:-1]] + [loose[-1]]
                    ctx.expect("snapshot text", cname, "load_from_txt", {}, ("f",), kw, value(pred), hooks={"open": loose}, tag="either order")
        for d in (" ", "\n"):
            ctx.expect("snapshot text", cname, "load_from_txt", {}, ("f",), {"delimiter": d}, raises("ValueError"), hooks={"open": []}, tag="delimiter")
            ctx.expect("snapshot text", cname, "save_to_txt", st, ("f",), {"delimiter": d}, raises("ValueError"), tag="delimiter")
        ctx.expect("snapshot text", cname, "save_to_txt", snap_state(R, cname, []), ("f",), {}, raises("ValueError"), tag="empty graph")
        for bad in (["0 1;1 0 start=0\n"], ["0 1;1 0 end=0\n"], ["0 1;1 0\n"], ["0 1;1 0 start=x end=1\n"]):
            ctx.expect("snapshot text", cname, "load_from_txt", {}, ("f",), {}, raises("ValueError"), hooks={"open": bad}, tag="interval")
