"""The interval index."""
import ast

from checks5 import *
import tree as tr
from tree import Shape, Sub, Obj, TV, Known, Cnt, T, Rec, INF

TREE, NODE = "IntervalTree", "Node"


def callees(prog, fn, ci, own=False):
    out = []
    for n in ast.walk(fn):
        if isinstance(n, ast.Call):
            f = n.func
            nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
            if nm and not (own and isinstance(f, ast.Attribute) and not (isinstance(f.value, ast.Name) and f.value.id in ("self", "cls", TREE, NODE))):
                out.append(nm)
    return out


def reach(prog, start, own=False):
    """methods of the tree and node classes and module functions reachable from a method"""
    seen, todo = {}, [start]
    mod = prog.classes[TREE].mod
    while todo:
        m = todo.pop()
        if m in seen:
            continue
        r = prog.find(TREE, m) or prog.find(NODE, m)
        if r is None and m in mod.funcs:
            r = (prog.classes[TREE], mod.funcs[m])
        if r is None or r[1].name == "__init__":
            continue
        seen[m] = r
        todo += callees(prog, r[1], r[0], own)
    return seen


def recursive_op(prog, start, skip=()):
    """(name, subtree parameter, node parameter) of the self-recursive operation an entry point relies on"""
    hits = []
    for m, (ci, fn) in reach(prog, start).items():
        if m in skip or tr.is_gen(fn):
            continue
        if not any(m in reach(prog, c, True) for c in callees(prog, fn, ci, True)):
            continue
        static = any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in fn.decorator_list) or m in ci.mod.funcs
        names = [a.arg for a in fn.args.args][0 if static else 1:]
        if len(names) != 2:
            if any(isinstance(x, ast.Attribute) and x.attr in ("left", "right") for x in ast.walk(fn)):
                return None
            continue
        # the subtree parameter is the one whose .left/.right the function follows
        follows = [n for n in names if any(isinstance(x, ast.Attribute) and x.attr in ("left", "right") and isinstance(x.value, ast.Name) and x.value.id == n
                                           for x in ast.walk(fn))]
        if not follows:
            continue
        if len(follows) != 1:
            return None
        sub = follows[0]
        hits.append((m, sub, [n for n in names if n != sub][0], fn, ci, static))
    return hits[0] if len(hits) == 1 else None


class Ends(str):
    pass


class Silent:
    """a context that keeps nothing: used to learn what insertion does without reporting on it"""

    def __init__(self, ctx):
        self.run, self.thorough = ctx.run, ctx.thorough

    def ok(self, *a, **k):
        pass
    undecided = violation = ok


class TreeCheck:
    def __init__(self, ctx):
        self.ctx, self.prog = ctx, ctx.run.prog
        self.policy = "asc"
        self.contracts = {}
        self.lines = set()
        self.unsure = 0         # undecided insertions: the order kept among equal begins is then not established
        self.trusted = False
        self.moves = True
        self.content = False    # judge what is stored and found, not the count nor the first and last instant
        self.only_ends = False  # judge nothing but the index's first and last instant

    def verdict(self, t, off, seq, msg, sh):
        if self.only_ends:
            m = self.ends(sh, t, seq)
            if m is None and msg:
                raise Und("the tree itself goes wrong")
            return Ends(m) if m else None
        if self.content:
            return msg
        return msg or self.count(t, off) or self.ends(sh, t, seq)

    def blame(self, rule, construct, f, l, msg):
        if rule in ("discard", "remove", "lookup") and not self.trusted:
            self.ctx.undecided(rule, construct, "the order insertion establishes was not decided")
        else:
            self.ctx.violation(rule, construct, f, l, msg)

    def loc(self, meth):
        r = self.prog.find(TREE, meth)
        return (r[0].mod.path, r[1].lineno) if r else ("?", 0)

    def explore(self, rule, meth, body, label, limit=20000):
        """run body on every path; body returns None or a message"""
        ctx = self.ctx
        construct = f"{TREE}.{meth}[{label}]"
        f, l = self.loc(meth)
        bad = None
        n = 0
        try:
            sh = Shape(self.prog, TREE, NODE, self.contracts, self.policy, limit=limit)
            sh.moves = self.moves
            for k, v in sh.paths(body):
                if k == "cut":
                    continue
                n += 1
                if k == "bad":
                    bad = bad or v
                elif k == "und":
                    ctx.undecided(rule, construct, v[0])
                    self.unsure += rule in ("insert", "add")
                elif v is not None:
                    bad = bad or (v, None)
                elif sh.narrowed:
                    ctx.undecided(rule, construct, "another key of the node dictionary")
                    self.unsure += rule in ("insert", "add")
                else:
                    ctx.ok(rule, construct)
            self.lines |= sh.lines
        except Exception as ex:
            ctx.undecided(rule, construct, f"{type(ex).__name__}: {ex}")
            self.unsure += rule in ("insert", "add")
        if bad and self.only_ends and not isinstance(bad[0], Ends):
            ctx.undecided(rule, construct, bad[0])
        elif bad:
            self.blame(rule, construct, f, bad[1] or l, f"{TREE}.{meth} ({label}): {bad[0]}" + (f" (line {bad[1]})" if bad[1] else ""))
        elif n == 0:
            ctx.undecided(rule, construct, "no path analysed")
        return bad is None

    # ------------------------------------------------------------ pieces
    def edge(self):
        return ("u", "v", TV("lo", ["E"]), TV("hi", ["E"]))

    def fresh_node(self, sh):
        ci = self.prog.classes[NODE]
        env = {"a": TV("lo", ["E"]), "b": TV("hi", ["E"])}
        return sh.ev(ast.parse(f"{NODE}(a, b)", mode="eval").body, env, ci)

    def held(self, sh, edges):
        e = sh.new_node("E")
        e.f["edges"] = edges
        e.state = "gone"
        return e

    def tree(self, sh, seq, known, root=None):
        t = Obj(TREE, "tree")
        t.f["nodes"] = Known(known)
        t.f["root"] = root if root is not None else (Sub(seq) if seq else None)
        t.f["number_of_edges"] = Cnt(0)
        t.f["begin"] = TV("lo", [sh.key(a) for a in seq]) if seq else INF
        t.f["end"] = TV("hi", [sh.key(a) for a in seq]) if seq else -INF
        return t

    def ends(self, sh, t, seq):
        """begin and end are those of the stored intervals"""
        seq = sh.expand(seq)
        for k, a, inf in (("lo", "begin", INF), ("hi", "end", -INF)):
            v = t.f.get(a)
            if not seq:
                if not (isinstance(v, float) and v == inf):
                    if isinstance(v, TV):
                        return f"an empty index keeps the old {a}"
                    raise Und(a)
                continue
            if isinstance(v, float) and abs(v) == INF:
                return f"forgets the {a} of the stored intervals"
            if not isinstance(v, TV):
                raise Und(a)
            if v.kind != k:
                return f"takes the index's {a} from the wrong end of an interval"
            if not sh.same_extreme(k, v.atoms, [sh.key(x) for x in seq], seq):
                return f"leaves the index's {a} at the {a} of another interval than the {'first' if k == 'lo' else 'last'}"
        return None

    def count(self, t, off):
        c = t.f.get("number_of_edges")
        if not isinstance(c, Cnt):
            raise Und("number of edges")
        return None if c.off == off else f"counts {c.off:+d} edges instead of {off:+d}"

    # ------------------------------------------------------------ recursive insertion and deletion
    def insertion(self, op):
        m, sub, nod, fn, ci, static = op
        ties = {}

        def run(sh, root, before):
            node = self.fresh_node(sh)
            t = Obj(TREE, "tree")
            out = sh.call_fn(fn, [] if static else [t], {sub: root, nod: node}, ci)
            got = sh.final(out)
            if node not in got:
                return "insertion loses the new interval"
            want = [a for a in sh.expand(got) if a is not node]
            i = got.index(node)
            msg = sh.judge(out, self.put(sh, before, got, node), "insertion")
            return msg, node, got

        def empty(sh):
            r = run(sh, None, [])
            return r if isinstance(r, str) else r[0]

        def grown(sh):
            l, r = T(), T()
            root = sh.plant(sh.new_node(), [l], [r])
            sh.world = [l, root, r]
            res = run(sh, root, [l, root, r])
            if isinstance(res, str):
                return res
            msg, node, got = res
            if msg:
                return msg
            c = sh.pair(node.key, root.key)
            side = "left" if got.index(node) < got.index(root) else "right"
            if c[0] and side != ("left" if c[0] < 0 else "right"):
                return f"insertion puts an interval that begins {'earlier' if c[0] < 0 else 'later'} on the {side} of another"
            if not c[0]:
                ties.setdefault(c[1], set()).add(side)
        self.explore("insert", m, empty, "into an empty subtree")
        self.explore("insert", m, grown, "into a subtree")
        self.learn(ties)

    def learn(self, ties):
        """how intervals with equal begins are kept apart"""
        if ties.get(-1) == {"left"} and ties.get(1) == {"right"}:
            self.policy = "asc"
        elif ties.get(-1) == {"right"} and ties.get(1) == {"left"}:
            self.policy = "desc"
        else:
            self.policy = "none"
        self.trusted = not self.unsure and bool(ties)

    def put(self, sh, before, got, node):
        """the old sequence with the new node where the result has it"""
        g = sh.expand(got)
        i = g.index(node)
        b = sh.expand(before)
        return b[:i] + [node] + b[i:]

    def deletion(self, op):
        m, sub, nod, fn, ci, static = op

        def case(where):
            def body(sh):
                e = self.held(sh, [])
                l, r, x = T(), T(), T()
                t = Obj(TREE, "tree")
                if where == "root":
                    seq = [l, e, r]
                    root = sh.plant(e, [l], [r])
                else:
                    root = sh.new_node()
                    seq = [l, e, r, root, x] if where == "left" else [x, root, l, e, r]
                    i = seq.index(root)
                    sh.plant(root, seq[:i], seq[i + 1:])
                sh.world = list(seq)
                out = sh.call_fn(fn, [] if static else [t], {sub: root, nod: e}, ci)
                e.state = "live"
                return sh.judge(out, [a for a in seq if a is not e], "deletion")
            return body
        for w in ("root", "left", "right"):
            self.explore("discard", m, case(w), {"root": "the subtree's own root", "left": "an interval on its left", "right": "an interval on its right"}[w])

    # ------------------------------------------------------------ add and remove
    def add(self):
        ties = {}
        r = self.prog.find(TREE, "add")
        p = [a.arg for a in r[1].args.args][1]

        def run(sh, seq, known, root=None, edges=None):
            t = self.tree(sh, seq, known, root)
            sh.call_fn(r[1], [t, self.edge()], {}, r[0])
            k = (TV("lo", ["E"]), TV("hi", ["E"]))
            if k not in t.f["nodes"]:
                return "the new interval is missing from the key dictionary"
            e = t.f["nodes"][k]
            if not isinstance(e, Obj):
                raise Und("key dictionary")
            got = sh.final(t.f["root"])
            if e not in got:
                return "the new interval is not in the tree"
            new = not known
            want = self.put(sh, seq, got, e) if new else seq
            msg = sh.judge(t.f["root"], want, "add")
            if not msg and new and not known:
                # where it went
                for a in sh.expand(got):
                    if not isinstance(a, T) and a is not e:
                        c = sh.pair(e.key, a.key)
                        before = got.index(e) < got.index(a)
                        if "insert" in [x[0] for x in self.contracts.values()]:
                            continue
                        if c[0] and (c[0] < 0) != before:
                            msg = "add breaks the search order"
                        elif not c[0]:
                            ties.setdefault(c[1], set()).add("left" if before else "right")
            old = edges or []
            now = e.f.get("edges")
            if not isinstance(now, list):
                raise Und("edges of a node")
            if now != old + [self.edge()] and sorted(map(repr, now)) != sorted(map(repr, old + [self.edge()])):
                return f"add leaves {len(now)} edges at the interval, expected {len(old) + 1}"
            return self.verdict(t, 1, want, msg, sh)

        def empty(sh):
            return run(sh, [], {})

        def new(sh):
            l, r2 = T(), T()
            root = sh.plant(sh.new_node(), [l], [r2])
            sh.world = [l, root, r2]
            return run(sh, [l, root, r2], {}, root)

        def old(sh, ends=("p", "q")):
            e = self.held(sh, [ends + (TV("lo", ["E"]), TV("hi", ["E"]))])
            seq = [T(), e, T()]
            sh.world = list(seq)
            return run(sh, seq, {(TV("lo", ["E"]), TV("hi", ["E"])): e}, None, list(e.f["edges"]))
        self.explore("add", "add", empty, "to an empty index")
        self.explore("add", "add", new, "a new interval")
        self.explore("add", "add", old, "an interval already there")
        for ends in (("v", "u"), ("u", "w"), ("w", "v"), ("u", "u")):
            self.explore("add", "add", lambda sh, x=ends: old(sh, x), f"an interval already there, with the edge {ends}")
        if "insert" not in [x[0] for x in self.contracts.values()]:
            self.learn(ties)

    def remove(self):
        r = self.prog.find(TREE, "remove")
        other = ("p", "q", TV("lo", ["E"]), TV("hi", ["E"]))

        def case(edges):
            def body(sh):
                e = self.held(sh, list(edges))
                seq = [T(), e, T()]
                sh.world = list(seq)
                k = (TV("lo", ["E"]), TV("hi", ["E"]))
                t = self.tree(sh, seq, {k: e})
                sh.call_fn(r[1], [t, self.edge()], {}, r[0])
                left = [x for x in edges if x != self.edge()]
                root = sh.res(t.f["root"])
                want = seq if left else [a for a in seq if a is not e]
                msg = sh.judge(root, want, "remove")
                if self.only_ends:
                    return self.verdict(t, 0, want, msg, sh)
                if msg:
                    return msg
                if left and e.f.get("edges") != left and sorted(map(repr, e.f["edges"])) != sorted(map(repr, left)):
                    return f"remove leaves {len(e.f['edges'])} edges at the interval, expected {len(left)}"
                if bool(left) != (k in t.f["nodes"]):
                    return "remove " + ("drops the interval of another edge" if left else "keeps the interval without edges") + " in the key dictionary"
                return self.verdict(t, len(left) - len(edges), want, None, sh)
            return body
        self.explore("remove", "remove", case([self.edge()]), "the only edge of an interval")
        self.explore("remove", "remove", case([self.edge(), other]), "one of two edges of an interval")
        self.explore("remove", "remove", case([other, self.edge()]), "the second of two edges of an interval")
        self.explore("remove", "remove", case([other]), "an edge that is not there")
        for ends in (("v", "u"), ("u", "w"), ("w", "v"), ("u", "u")):
            near = ends + other[2:]
            self.explore("remove", "remove", case([near, self.edge()]), f"an edge of an interval that also has {ends}")
            self.explore("remove", "remove", case([near]), f"an edge that is not there, next to {ends}")

    # ------------------------------------------------------------ traversal and lookup
    def in_order(self):
        r = self.prog.find(TREE, "inOrder")
        if r is None or not tr.is_gen(r[1]):
            self.ctx.undecided("traversal", f"{TREE}.inOrder", "not a generator")
            return

        def run(sh, root, seq):
            t = Obj(TREE, "tree")
            t.f["root"] = root
            sh.active.append((r[1], {}))
            sh.call_fn(r[1], [t, root], {}, r[0])
            got = []
            for y in sh.yields:
                if isinstance(y, Rec):
                    a = [v for v in y.args.values() if isinstance(v, (Sub, Obj)) or v is None]
                    if len(a) != 1:
                        raise Und("recursion")
                    got += sh.flatten(a[0])
                elif isinstance(y, Obj):
                    got.append(y)
                else:
                    raise Und("what the traversal yields")
            a = [repr(sh.key(x)) for x in sh.expand(got)]
            b = [repr(sh.key(x)) for x in sh.expand(seq)]
            if sorted(a) != sorted(b):
                return "the traversal " + ("misses" if set(b) - set(a) else "repeats") + " stored intervals"

        def empty(sh):
            return run(sh, None, [])

        def some(sh):
            l, x = T(), T()
            root = sh.plant(sh.new_node(), [l], [x])
            return run(sh, root, [l, root, x])
        self.explore("traversal", "inOrder", empty, "of an empty index")
        self.explore("traversal", "inOrder", some, "of a subtree")

    def lookup(self):
        """slice: own edges iff they meet the window; a child is skipped only if nothing below it can"""
        ctx, prog = self.ctx, self.prog
        name = "slice" if prog.find(TREE, "slice") else "__getitem__"
        r = prog.find(TREE, name)
        f, l = self.loc(name)
        q = [x for x in reach(prog, name).items() if tr.is_gen(x[1][1]) and x[0] != name]
        if q:
            f, l = q[0][1][0].mod.path, q[0][1][1].lineno
        construct = f"{TREE}.{q[0][0] if q else name}"
        D = [0, 2, 4, 6] if not ctx.thorough else [0, 2, 4, 6, 8]
        F = sorted({x + d for x in D for d in (-1, 0, 1)})
        wins = [(b, e) for b in D + [None] for e in D + [None] if b is None or e is None or b <= e]
        elems = [(lo, hi) for lo in F for hi in F if lo <= hi]
        bad = None
        n = 0
        try:
            sh = Shape(prog, TREE, NODE, {}, self.policy)
            for lo in D:
                for hi in D:
                    if lo > hi:
                        continue
                    for child in (None, "left", "right"):
                        for M in ([None] if child is None else D):
                            ok = [x for x in elems if child and x[1] <= M and self.below(child, x, (lo, hi)) and self.reached(child, M, (lo, hi), F)]
                            if child and not ok:
                                continue
                            for b, e in wins:
                                n += 1
                                try:
                                    m = self.one_lookup(sh, r, lo, hi, child, M, b, e, ok)
                                except Und as ex:
                                    ctx.undecided("lookup", construct, ex)
                                    continue
                                if m is None:
                                    ctx.ok("lookup", construct)
                                else:
                                    bad = bad or m
            self.lines |= sh.lines
        except Exception as ex:
            ctx.undecided("lookup", construct, f"{type(ex).__name__}: {ex}")
        if bad:
            self.blame("lookup", construct, f, l, f"{construct}: {bad}")

    def below(self, child, x, node):
        """may interval x be stored on that side of the node?"""
        if x == node:
            return False
        if x[0] != node[0]:
            return (x[0] < node[0]) == (child == "left")
        if self.policy == "none":
            return True
        less = x[1] < node[1] if self.policy == "asc" else x[1] > node[1]
        return less == (child == "left")

    def reached(self, child, M, node, F):
        return any(self.below(child, (lo, M), node) for lo in F if lo <= M)

    def one_lookup(self, sh, r, lo, hi, child, M, b, e, ok):
        own = ("u", "v", "own", "edge")
        out = []

        def body(sh):
            node = Obj(NODE, "n")
            node.f.update(low=lo, high=hi, max=max(hi, M if M is not None else hi), edges=[own], left=None, right=None)
            stub = None
            if child:
                stub = Obj(NODE, "child")
                stub.f["max"] = M
                node.f[child] = stub
            t = Obj(TREE, "tree")
            t.f["root"] = node
            sh.active = []
            gen = tr.is_gen(r[1])
            v = sh.call_fn(r[1], [t, b, e], {}, r[0])
            ys = sh.yields if gen else v
            if not isinstance(ys, (list, tuple)):
                raise Und("result of a lookup")
            nown = nrec = 0
            passed = (b, e)
            for y in ys:
                if isinstance(y, Rec):
                    for k, x in y.args.items():
                        o = y.outer.get(k)
                        if x is stub and stub is not None and o is node:
                            nrec += 1
                        elif isinstance(x, (int, float)) and isinstance(o, (int, float)) and b != e and (o in (b, e) or b is None and o == -INF or e is None and o == INF):
                            # the child may be searched in another window as long as that finds the same
                            first = o == b or b is None and o == -INF
                            x = None if x == (-INF if first else INF) else x
                            passed = (x, passed[1]) if first else (passed[0], x)
                        elif not (isinstance(x, (int, float)) and isinstance(o, (int, float)) and x == o) and x is not t and not (x is None and o is None):
                            raise Und("recursive lookup")
                elif y == own:
                    nown += 1
                else:
                    raise Und("what a lookup yields")
            w = (b, e)
            meets = world.member_interval(("u", "v", lo, hi), b, e)
            if nown != (1 if meets else 0):
                return f"the interval [{lo}, {hi}] is {'missed' if nown == 0 else 'reported wrongly' if not meets else 'reported twice'} in the window {w}"
            hit = [x for x in ok if world.member_interval(("u", "v") + x, b, e)] if child else []
            if child and hit and nrec == 0:
                return (f"in the window {w} the {child} side of [{lo}, {hi}] with greatest end {M} is skipped, "
                        f"although it may hold {list(hit[0])}")
            if nrec and passed != (b, e):
                if any(isinstance(z, float) for z in passed) or passed[0] is not None and passed[1] is not None and passed[0] > passed[1]:
                    raise Und("recursive lookup in another window")
                for x in ok:
                    if world.member_interval(("u", "v") + x, b, e) != world.member_interval(("u", "v") + x, *passed):
                        return (f"in the window {w} the {child} side of [{lo}, {hi}] is searched for {passed}, which "
                                f"{'misses' if x in hit else 'finds'} {list(x)}")
            if nrec > 1:
                return f"the {child} side of [{lo}, {hi}] is searched twice in the window {w}"
        for k, v in sh.paths(body):
            if k == "ok" and v is not None:
                return v
            if k == "bad":
                return f"window ({b}, {e}) at [{lo}, {hi}]" + (f" with {child} side" if child else "") + f": {v[0]}"
            if k == "und":
                raise Und(v[0])
        return None

    def empty_lookup(self):
        name = "slice" if self.prog.find(TREE, "slice") else "__getitem__"
        r = self.prog.find(TREE, name)

        def body(sh):
            t = Obj(TREE, "tree")
            t.f["root"] = None
            v = sh.call_fn(r[1], [t, 0, 4], {}, r[0])
            ys = sh.yields if tr.is_gen(r[1]) else v
            return "finds intervals in an empty index" if ys else None
        self.explore("lookup", name, body, "in an empty index")


def set_up(tc, prog):
    ins = recursive_op(prog, "add")
    dis = recursive_op(prog, "remove", skip=(ins[0],) if ins else ())
    if ins:
        tc.contracts[ins[0]] = ("insert", ins[1], ins[2])
    if dis:
        tc.contracts[dis[0]] = ("discard", dis[1], dis[2])
    # the recursive operations may give back another root than they were given
    tc.moves = all(o is None or any(isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Name) and n.value.id == o[1])
                                    and not (isinstance(n.value, ast.Constant)) for n in ast.walk(o[3])) for o in (ins, dis))
    return ins, dis


def tree_ends(ctx):
    """only the first and last instant the index keeps over insertion and removal (C21)"""
    prog = ctx.run.prog
    tc = TreeCheck(Silent(ctx))
    ins, dis = set_up(tc, prog)
    if ins:
        tc.insertion(ins)
    else:
        tc.add()
    tc.ctx, tc.only_ends = ctx, True
    tc.add()
    tc.remove()
    for meth in ("add", "remove"):
        for r in reach(prog, meth).values():
            ctx.run.functions[(r[0].mod.path, r[1].lineno, f"{r[0].name}.{r[1].name}")] = True


def phases(tc, ctx, ins, dis, report=None):
    """all parts of the tree check in turn; only those named in report speak up"""
    quiet = Silent(ctx)

    def turn(name):
        tc.ctx = ctx if report is None or name in report else quiet
    if ins:
        turn("insert")
        tc.insertion(ins)
    turn("insert")
    tc.add()
    if report is None or "remove" in report:
        turn("remove")
        if dis:
            tc.deletion(dis)
        tc.remove()
    if report is None or "traversal" in report:
        turn("traversal")
        tc.in_order()
    if report is None or "lookup" in report:
        turn("lookup")
        tc.lookup()
        tc.empty_lookup()
    tc.ctx = ctx


def tree_part(ctx, *report):
    """what a property of the graph classes needs of the index, for a tree of any size"""
    prog = ctx.run.prog
    if prog.find(TREE, "add") is None or prog.find(TREE, "remove") is None:
        return
    tc = TreeCheck(ctx)
    tc.content = True
    ins, dis = set_up(tc, prog)
    phases(tc, ctx, ins, dis, report)
    for meth in ("add", "remove", "slice", "inOrder"):
        for r in reach(prog, meth).values():
            ctx.run.functions[(r[0].mod.path, r[1].lineno, f"{r[0].name}.{r[1].name}")] = True


@check("C03", "Shape analysis of IntervalTree: insertion, deletion and rotation are analysed over opaque subtrees (recursive calls by contract, "
       "every outcome of height and order comparisons), the result must hold the same in-order sequence plus/minus the interval with exact "
       "subtree maxima on every path; add/remove keep key dictionary, count, begin and end; slice/query is evaluated for every order type "
       "of node, child maximum and window, and may skip a child only if no interval it can hold meets the window.")
def c03(ctx):
    prog = ctx.run.prog
    import front
    for m in ("add", "remove"):
        if prog.find(TREE, m) is None:
            raise front.AnchorLost(f"{TREE}.{m}")
    tc = TreeCheck(ctx)
    ins, dis = set_up(tc, prog)
    for r in list(reach(prog, "add").values()) + list(reach(prog, "remove").values()) + list(reach(prog, "slice").values()) + list(reach(prog, "inOrder").values()):
        ctx.run.functions[(r[0].mod.path, r[1].lineno, f"{r[0].name}.{r[1].name}")] = True
    phases(tc, ctx, ins, dis)
