"""Temporal motifs: C18 (window, order, identity, accepted class) and C23 (agreement of the three results)."""
import ast
import itertools

import front
from checks import check
from ev import Und
from mini import Endless, Mini, Lab, Tm, TimedGraph, Raised, Frame, Opaque, MODELS, Func

FN = "count_temporal_motif"
MOD = "dynetworkx.algorithms.count_temporal_motif"


def locate(prog):
    m = prog.modules.get(MOD)
    if m and FN in m.funcs:
        return Func(m.funcs[FN], m)
    for m in prog.modules.values():
        if FN in m.funcs:
            return Func(m.funcs[FN], m)
    raise front.AnchorLost(FN)


def lab(i):
    return Lab("n", i, i != 0)


def mot(seq):
    return tuple(tuple(Lab("m", x, x != 0) for x in e) for e in seq)


def spec(events, seq, delta):
    """key -> number of instances: strictly increasing times, last - first <= delta, injective node map"""
    L = len(seq)
    flat = [x for e in seq for x in e]
    out = {}
    es = sorted(events, key=lambda e: e[2])

    def go(i, got):
        if len(got) == L:
            key = tuple(x for e in got for x in e[:2])
            f = {}
            for a, b in zip(flat, key):
                if f.setdefault(a, b) != b:
                    return
            if len(set(f.values())) == len(f):
                out[key] = out.get(key, 0) + 1
            return
        for j in range(i, len(es)):
            if got and (es[j][2] <= got[-1][2] or es[j][2] - got[0][2] > delta):
                continue
            go(j + 1, got + [es[j]])
    go(0, [])
    return out


def show(events, seq, delta):
    return (f"edges {[(e[0].rank, e[1].rank, e[2].v) for e in events]}, motif "
            f"{tuple(tuple(x.rank for x in e) for e in seq)}, time limit {delta.v} (times in thousandths)")


def conn(seq):
    return True


SMALL = [((1, 2),), ((0, 1), (1, 0)), ((1, 2), (1, 2)), ((1, 2), (2, 1), (1, 2)), ((1, 2), (1, 2), (1, 2)), ((0, 0),), ((1, 1), (1, 0)),
         ((1, 2), (2, 2)), ((1, 2), (2, 1), (1, 2), (2, 1))]
LARGE = [((1, 2), (2, 3)), ((1, 2), (3, 2)), ((1, 2), (1, 3), (1, 2)), ((0, 1), (1, 2), (2, 0)), ((1, 2), (2, 3), (2, 3)), ((1, 0), (2, 1), (1, 1)),
         ((2, 1), (3, 1), (1, 2))]
HUGE = [((1, 2), (2, 3), (3, 4)), ((1, 2), (1, 3), (1, 4)), ((0, 1), (2, 1), (2, 3), (0, 3))]


def patterns(n, gaps):
    for gs in itertools.product(gaps, repeat=n - 1):
        t = [0]
        for g in gs:
            t.append(t[-1] + g)
        yield t


def build(ends, times):
    ev = []
    for (u, v), t in zip(ends, times):
        x = (lab(u), lab(v), Tm(1, t))
        if x not in ev:
            ev.append(x)
    return ev


def inverse(seq, nodes):
    """endpoints that realise the motif with its node i sent to nodes[i]"""
    ms = list(dict.fromkeys(x for e in seq for x in e))
    f = dict(zip(ms, nodes))
    return [(f[a], f[b]) for a, b in seq]


def cases(thorough):
    """(tag, events, motif, limit)"""
    seen = set()

    def emit(ends, times, seq, deltas, tag):
        ev = build(ends, times)
        for d in deltas:
            k = (tuple(sorted(map(repr, ev))), seq, d)
            if k in seen:
                continue
            seen.add(k)
            yield tag, ev, mot(seq), Tm(0, d)
    gaps = (0, 1, 2)
    for seq in SMALL + LARGE + HUGE:
        L = len(seq)
        ms = len({x for e in seq for x in e})
        maps = list(itertools.permutations(range(3 if ms <= 3 else 4), ms)) if ms <= 3 else [(0, 1, 2, 3), (3, 1, 0, 2), (2, 3, 1, 0)]
        if not thorough and ms >= 3:
            maps = maps[:1] + maps[-1:]
        for mp in maps[:6 if thorough else 2]:
            base = inverse(seq, mp)
            # exactly one candidate instance, every difference order type around the limit, ties included
            for ts in patterns(L, gaps):
                yield from emit(base, ts, seq, (0, 1, 2, 3) if thorough or L < 4 else (1, 3), "window" )
                yield from emit(base[::-1], ts, seq, (0, 2), "order")
            # one more edge at every place: a repetition of each edge, its reverse, a self-loop
            extra = []
            for (u, v) in dict.fromkeys(base):
                extra += [(u, v), (v, u)]
            extra += [(mp[0], mp[0])]
            if not thorough:
                extra = extra[:3] + extra[-1:]
            for x in dict.fromkeys(extra):
                for at in range(L + 1):
                    ends = base[:at] + [x] + base[at:]
                    for ts in patterns(len(ends), (0, 1)):
                        yield from emit(ends, ts, seq, (1, 2) if L < 4 else (2,), "repetition")
        # two candidates that differ in one node: identity
        if ms <= 3:
            other = {a: b for a, b in zip(range(3), (0, 1, 3))}
            base = inverse(seq, tuple(range(ms)))
            ends = base + [(other[u], other[v]) for u, v in base]
            for ts in patterns(len(base), (0, 1)):
                yield from emit(ends, list(ts) * 2, seq, (1, 2), "identity")
            merged = [tuple(0 if x == 1 else x for x in e) for e in base]
            for ts in patterns(len(base), (1,)):
                yield from emit(base + merged, list(ts) * 2, seq, (3,), "identity")
    # long runs: every window slides several times
    runs = [[(0, 1)] * 5, [(0, 1), (1, 0)] * 3, [(0, 1), (0, 1), (1, 0), (1, 0), (0, 1)], [(0, 1), (1, 2), (2, 0)] * 2,
            [(0, 1), (0, 2), (0, 1), (0, 2), (0, 1)], [(1, 0), (1, 1), (1, 0), (1, 1)]]
    for ends in runs:
        for ts in ([0, 1, 2, 3, 4, 5], [0, 0, 1, 1, 2, 2], [0, 1, 1, 2, 4, 4], [0, 2, 3, 3, 5, 6], [0, 3, 6, 9, 12, 15]):
            for seq in SMALL + LARGE:
                if len({x for e in seq for x in e}) > len({x for e in ends for x in e}):
                    continue
                yield from emit(ends, ts, seq, (1, 2, 3) if thorough else (2,), "sliding")


class Motif:
    def __init__(self, ctx):
        self.ctx, self.prog = ctx, ctx.run.prog
        self.f = locate(self.prog)
        self.file, self.line = self.f.mod.path, self.f.fn.lineno

    def run(self, g, seq, delta, policy=0):
        mi = Mini(self.prog, MODELS, policy)
        try:
            return mi.call_fn(self.f, [g, seq, delta], {}), mi
        finally:
            for s in mi.seen:
                self.ctx.run.functions[s] = True

    def fail(self, rule, what, witness):
        self.ctx.violation(rule, FN, self.file, self.line, what + " on " + witness, {"case": witness})

    def shape(self, r):
        if isinstance(r, (list, tuple)) and len(r) == 3 and isinstance(r[1], dict):
            return r
        raise Und("shape of the result")


def und(ctx, rule, ex):
    ctx.undecided(rule, FN, ex)


def guarded(fn):
    try:
        return fn()
    except RecursionError:
        raise Endless("does not come to an end (recursion)")


def isolated(ev):
    nodes = []
    for e in ev:
        for x in e[:2]:
            if x not in nodes:
                nodes.append(x)
    return nodes


def broken(r, want):
    """what is wrong with (total, dictionary) compared with the instances"""
    tot, d = r[0], r[1]
    got = {tuple(k): v for k, v in d.items() if v != 0}
    for k in want:
        if k not in got:
            return f"the instance {tuple(x.rank for x in k)} is missed"
    for k, v in got.items():
        if k not in want:
            return f"{tuple(getattr(x, 'rank', x) for x in k)} is counted, though it is no instance"
        if v != want[k]:
            return f"{tuple(x.rank for x in k)} is counted {v} times instead of {want[k]}"
    return None


RULES = {"window": "edges of an instance lie within the time limit, limit included", "order": "edges of an instance follow each other strictly in time",
         "repetition": "repeated, reversed and simultaneous edges", "identity": "motif nodes stand for different graph nodes",
         "sliding": "counts stay exact while the window slides"}


@check("C18", "Abstract interpretation of count_temporal_motif and its helpers over order types of time differences relative to the limit, with opaque node labels "
       "(identity, order, truth value) and both iteration orders of sets: the instances found must be those of the definition (strictly increasing times, span within the "
       "limit, injective node map), whatever neighbours, repetitions and self-loops surround them; anything but an impulse digraph raises TypeError first.")
def c18(ctx):
    m = Motif(ctx)
    for cls in ("IntervalGraph", "IntervalDiGraph", "ImpulseGraph", "SnapshotGraph", "SnapshotDiGraph"):
        if cls not in ctx.run.prog.classes or not ctx.mine():
            continue
        g = TimedGraph(cls, [lab(0), lab(1)], [], False)
        try:
            guarded(lambda: m.run(g, mot(((0, 1),)), Tm(0, 1)))
            m.fail("only impulse digraphs", f"a {cls} is accepted", f"G of class {cls}")
        except Raised as ex:
            if ex.kind == "TypeError" and ex.line:
                ctx.ok("only impulse digraphs", FN)
            else:
                m.fail("only impulse digraphs", f"a {cls} raises {ex.kind} instead of TypeError", f"G of class {cls}")
        except Endless as ex:
            m.fail("only impulse digraphs", f"a {cls}: {ex}", f"G of class {cls}")
        except Und as ex:
            m.fail("only impulse digraphs", f"a {cls} is used ({ex})", f"G of class {cls}") if str(ex).startswith(cls) else und(ctx, "only impulse digraphs", ex)
    for tag, ev, seq, delta in cases(ctx.thorough):
        if not ctx.mine():
            continue
        want = spec([(a, b, t.v) for a, b, t in ev], seq, delta.v)
        for pol in ((0, 1) if ctx.thorough else (len(ev) % 2,)):
            rule = RULES[tag]
            g = TimedGraph("ImpulseDiGraph", isolated(ev) + [lab(9)], ev)
            try:
                r, mi = guarded(lambda: m.run(g, seq, delta, pol))
                r = m.shape(r)
                bad = broken(r, want)
            except Endless as ex:
                bad = str(ex)
            except Raised as ex:
                bad = f"raises {ex.kind} at line {ex.line}"
            except Exception as ex:
                und(ctx, rule, ex)
                continue
            if bad:
                m.fail(rule, bad, show(ev, seq, delta))
            else:
                ctx.ok(rule, FN)


@check("C23", "The same abstract interpretation, judging the agreement of the three results on every case: the total is the sum over the dictionary, and the "
       "participation table has one row per node of an instance, one column per motif node in order of appearance, and in each cell the sum of the counts of the "
       "instances with that node there.")
def c23(ctx):
    m = Motif(ctx)
    for tag, ev, seq, delta in cases(ctx.thorough):
        if tag == "order" or (tag == "window" and delta.v != 2):
            continue
        if not ctx.mine():
            continue
        g = TimedGraph("ImpulseDiGraph", isolated(ev) + [lab(9)], ev)
        w = show(ev, seq, delta)
        rule = "total is the sum of the counts"
        try:
            r, mi = guarded(lambda: m.run(g, seq, delta, len(ev) % 3))
            r = m.shape(r)
            got = {tuple(k): v for k, v in r[1].items()}
            tot = sum(got.values())
        except Und as ex:
            und(ctx, rule, ex)
            continue
        except Endless as ex:
            m.fail(rule, str(ex), w)
            continue
        except Raised as ex:
            m.fail(rule, f"raises {ex.kind} at line {ex.line}", w)
            continue
        if r[0] != tot:
            m.fail(rule, f"the total is {r[0]}, the counts sum to {tot}", w)
        else:
            ctx.ok(rule, FN)
        rule = "participation table"
        f = r[2]
        if not isinstance(f, Frame):
            und(ctx, rule, "the table is built by operations outside the model")
            continue
        cols = list(dict.fromkeys(x for e in seq for x in e))
        flat = [x for e in seq for x in e]
        cell = {}
        for k, v in got.items():
            for c in cols:
                n = k[flat.index(c)]
                cell[(n, c)] = cell.get((n, c), 0) + v
        rows = {n for k, v in got.items() if v for n in k}
        bad = None
        if list(f.columns) != cols:
            bad = "the columns are not the motif's nodes in order of appearance"
        elif len(set(f.index)) != len(f.index) or {i for i in f.index if any(f.cells[(i, c)] for c in cols)} != {n for n in rows} or set(f.index) - {x for k in got for x in k}:
            bad = "the rows are not the nodes of the instances"
        else:
            for i in f.index:
                for c in cols:
                    if f.cells[(i, c)] != cell.get((i, c), 0) and bad is None:
                        bad = f"node {i.rank} at position {c.rank} is given {f.cells[(i, c)]} instead of {cell.get((i, c), 0)}"
        if bad:
            m.fail(rule, bad, w)
        else:
            ctx.ok(rule, FN)
