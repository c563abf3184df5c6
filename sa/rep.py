"""Obligations, verdicts and evidence of one check."""
import collections
import json
import os
import time

from ev import Und, PyErr, ParamEffect, Opaque, NX, Ext, Inst, Attr, TNode

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")


class Ctx:
    def __init__(self, pid, run, tier, seed):
        self.pid, self.run, self.tier, self.seed = pid, run, tier, seed
        self.decided = collections.Counter()      # (rule, construct) -> cases decided
        self.und = collections.Counter()          # (rule, construct, reason) -> cases
        self.viol = {}                            # key -> dict
        self.nviol = 0
        self.samples = []
        self.notes = []
        self.t0 = time.time()
        self.shard, self.shards, self.tick = 0, 1, 0
        self.warmed = {}
        self.turn = 0

    def mine(self):
        """obligations are dealt out to the worker processes in turn"""
        self.tick += 1
        return self.tick % self.shards == self.shard

    def spread(self, fn, n):
        """decide the obligations of fn in n processes"""
        import multiprocessing
        mp = multiprocessing.get_context("fork")
        jobs = []
        for i in range(1, n):
            a, b = mp.Pipe(False)
            p = mp.Process(target=self._worker, args=(fn, i, n, b))
            p.start()
            b.close()
            jobs.append((p, a))
        self.shard, self.shards = 0, n
        err = None
        try:
            fn(self)
        except Exception as ex:
            err = ex
        for p, a in jobs:
            try:
                r = a.recv()
            except EOFError:
                r = {"err": RuntimeError("a worker process was lost")}
            p.join()
            if r["err"] is not None:
                err = err or r["err"]
                if "decided" not in r:
                    continue
            self.decided.update(r["decided"])
            self.und.update(r["und"])
            self.nviol += r["nviol"]
            for k, v in r["viol"].items():
                if k in self.viol:
                    self.viol[k]["count"] += v["count"]
                else:
                    self.viol[k] = v
            self.run.functions.update(r["functions"])
            self.run.unsupported.update(r["unsupported"])
        self.samples = self.samples[:6]
        if err is not None:
            raise err

    def _worker(self, fn, i, n, pipe):
        self.shard, self.shards = i, n
        err = None
        try:
            fn(self)
        except Exception as ex:
            err = ex
        try:
            import pickle
            pickle.dumps(err)
        except Exception:
            err = RuntimeError(f"{type(err).__name__}: {err}")
        pipe.send({"err": err, "decided": self.decided, "und": self.und, "viol": self.viol, "nviol": self.nviol,
                   "functions": self.run.functions, "unsupported": self.run.unsupported})
        pipe.close()
        os._exit(0)

    @property
    def thorough(self):
        return self.tier == "thorough"

    # ---------------------------------------------------------------- sites
    def where(self, cname, meth):
        try:
            S = self.run.summary(cname, meth)
            return S.file, S.line
        except Exception:
            r = self.run.prog.find(cname, meth)
            if r:
                return r[0].mod.path, r[1].lineno
            return "?", 0

    # ---------------------------------------------------------------- verdicts
    def ok(self, rule, construct):
        self.decided[(rule, construct)] += 1

    def undecided(self, rule, construct, reason):
        self.und[(rule, construct, str(reason)[:160])] += 1

    def violation(self, rule, construct, file, line, message, witness=None):
        self.decided[(rule, construct)] += 1
        self.nviol += 1
        k = f"{rule}|{construct}"
        if k in self.viol:
            self.viol[k]["count"] += 1
            return
        self.viol[k] = {"key": k, "rule": rule, "construct": construct, "file": file, "line": line,
                        "message": message, "witness": witness, "count": 1}

    def expect(self, rule, cname, meth, st, args, kw, pred, hooks=None, tag=None, args_kept=False):
        """evaluate one operation on one case and judge its outcome;
        pred(outcome) -> None when as specified, else a message"""
        if not self.mine():
            return None
        construct = f"{cname}.{meth}" + (f"[{tag}]" if tag else "")
        o = None
        try:
            o = self.run.invoke(cname, meth, st, args, kw, hooks=hooks)
            m = pred(o)
        except ParamEffect as ex:
            if not args_kept:
                self.undecided(rule, construct, ex)
                return None
            m = str(ex)
        except Und as ex:
            self.undecided(rule, construct, ex)
            return None
        except PyErr as ex:
            self.undecided(rule, construct, f"error outside the summary: {ex.kind} {ex.msg}")
            return None
        except (KeyboardInterrupt, MemoryError):
            raise
        except Exception as ex:
            self.undecided(rule, construct, f"analyser: {type(ex).__name__}: {ex}")
            return None
        if m is None:
            m = self.warm(cname, meth, st, args, kw, pred, hooks, o)
        if m is None:
            m = self.relabelled(cname, meth, st, args, kw, hooks, o)
        if m is None:
            self.ok(rule, construct)
            if len(self.samples) < 6 and self.decided[(rule, construct)] == 1:
                self.samples.append(f"{rule}: {construct}{call(args, kw)} on {describe(st)} as specified")
            return o
        f, l = self.where(cname, meth)
        if o and o[0] == "raise" and o[2] is not None and getattr(o[2], "line", None):
            l2 = f"; raised at {(getattr(o[2], 'file', '') or '') + ':' if getattr(o[2], 'file', '') else 'line '}{o[2].line}"
        else:
            l2 = ""
        self.violation(rule, construct, f, l,
                       f"{cname}.{meth}{call(args, kw)} on {describe(st)}: {m}{l2}",
                       {"class": cname, "method": meth, "args": repr(args), "kwargs": repr(kw), "graph": describe(st)})
        return None

    def warm(self, cname, meth, st, args, kw, pred, hooks, o):
        """where the class keeps further state: the answer must be the same after earlier queries, and after an
        update that follows them the same as without them"""
        R = self.run
        try:
            live = R.live(cname)
        except Und:
            return None
        if not live or not isinstance(st, dict) or not st.get("#grown") or o[0] not in ("ok",) or len(o) < 4 or not isinstance(o[3], dict):
            return None
        last = self.warmed.get(cname)
        if last and last[0] is st:
            try:
                m = pred(R.invoke(cname, meth, last[1], args, kw, hooks=hooks))
            except (Und, PyErr):
                m = None
            if m:
                return "asked after other queries: " + m
        if all(same(o[3].get(a), st.get(a)) for a in live) or not same_base(o[3], st, live):
            return None
        self.warmed[cname] = (st, o[3])
        k = ("updates", cname, meth)
        self.warmed[k] = self.warmed.get(k, 0) + 1
        if self.warmed[k] > 40 and not self.thorough:
            return None
        for steps in updates(cname, st):
            try:
                a, b = st, o[3]
                for mm, aa, kk in steps:
                    x, y = R.invoke(cname, mm, a, aa, kk), R.invoke(cname, mm, b, aa, kk)
                    if x[0] != "ok" or y[0] != "ok":
                        raise Und("update")
                    a, b = x[3], y[3]
                x, y = R.invoke(cname, meth, a, args, kw, hooks=hooks), R.invoke(cname, meth, b, args, kw, hooks=hooks)
                if x[0] != y[0] or x[0] == "ok" and not same(x[1], y[1]):
                    what = ", ".join(f"{mm}{call(aa, kk)}" for mm, aa, kk in steps)
                    return f"asked again after {what}: {outcome(y)}, but without the first query {outcome(x)}"
            except (Und, PyErr):
                continue
        return None

    def relabelled(self, cname, meth, st, args, kw, hooks, o):
        """the names of the nodes must not matter: an empty string, 0 and tuples are nodes like any other"""
        if not isinstance(st, dict) or "_node" not in st or o[0] not in ("ok", "raise"):
            return None
        self.turn += 1
        if self.turn % (3 if self.thorough else 7):
            return None
        names = [n for n in st["_node"]]
        ren = RENAME[self.turn // 7 % len(RENAME)]
        if not all(isinstance(n, str) and n in ren for n in names) or "_model" in kw:
            return None
        try:
            memo = {}
            s2, a2, k2 = renamed(st, ren, memo), renamed(args, ren, memo), {k: renamed(x, ren, memo) for k, x in kw.items()}
            r = self.run.invoke(cname, meth, s2, a2, k2, hooks=hooks)
            if r[0] not in ("ok", "raise", "pyraise") or r[0] == "pyraise" and r[1] == "TypeError":
                return None
            if o[0] != r[0] or o[0] == "raise" and o[1] != r[1]:
                return f"{outcome(o)}, but with nodes named {ren} {outcome(r)}"
            if o[0] == "raise":
                return None
            keys = [k for k in ("_node", "_adj", "_pred", "_succ") if k in st]
            for x, y in [(o[1], r[1])] + [(o[3][k], r[3][k]) for k in keys if isinstance(o[3], dict) and isinstance(r[3], dict)]:
                if form(renamed(x, ren, {})) != form(y):
                    return f"yields {short(x)}, but with nodes named {ren} it yields {short(y)}"
        except (Und, PyErr):
            return None
        return None

    # ---------------------------------------------------------------- output
    def finish(self, explanation, known):
        nd = sum(self.decided.values())
        nu = sum(self.und.values())
        new = []
        for k, v in sorted(self.viol.items()):
            hit = [x for x in known if x.get("property") == self.pid and x.get("key") == k]
            if hit:
                print(f"KNOWN-FINDING: property={self.pid} {hit[0].get('what', k)}")
            else:
                new.append(v)
        os.makedirs(OUT, exist_ok=True)
        by = collections.defaultdict(lambda: [0, 0])
        for (r, c), n in self.decided.items():
            by[f"{r}: {c}"][0] += n
        for (r, c, why), n in self.und.items():
            by[f"{r}: {c}"][1] += n
        fns = sorted({(os.path.relpath(f, self.run.prog.repo) if os.path.isabs(f) else f, l, n) for f, l, n in self.run.functions
                      if isinstance(f, str)})
        cov = {
            "explanation": explanation,
            "obligations": nd + nu,
            "discharged": nd - self.nviol,
            "undecided": nu,
            "violated": self.nviol,
            "rule_instances": {k: {"decided": a, "undecided": b} for k, (a, b) in sorted(by.items())},
            "undecided_reasons": {f"{r}: {c}: {why}": n for (r, c, why), n in sorted(self.und.items())},
            "functions_analysed": [f"{f}:{l} {n}" for f, l, n in fns],
            "functions_not_summarised": {f"{c}.{m}": w for (c, m), w in sorted(self.run.unsupported.items())},
            "samples": self.samples,
        }
        if self.notes:
            cov["notes"] = self.notes
        out = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "other", "coverage": cov,
               "assumptions": ASSUMPTIONS, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        with open(os.path.join(OUT, f"{self.pid}.json"), "w") as fh:
            json.dump(out, fh, indent=1, default=str)
        for v in new:
            rp = os.path.join(OUT, f"{self.pid}.violation.json")
            with open(rp, "w") as fh:
                json.dump(new, fh, indent=1, default=str)
            f = os.path.relpath(v["file"], self.run.prog.repo) if os.path.isabs(v["file"]) else v["file"]
            print(f"  {f}:{v['line']}: {v['construct']}: [{v['rule']}] {v['message']} ({v['count']} cases)")
        print(f"{self.pid}: {nd} obligations decided, {nu} undecided, {len(new)} violated constructs, "
              f"{len(fns)} functions analysed, {time.time() - self.t0:.1f}s")
        if new:
            print(f"VIOLATION property={self.pid} replay=evidence/{self.pid}.violation.json")
            return 1
        if nd == 0:
            print(f"{self.pid}: nothing could be decided")
            return 2
        return 0


ASSUMPTIONS = [
    "Python, networkx graph, sortedcontainers.SortedDict and built-in container semantics as modelled in sa/ev.py",
    "values are only compared, copied and added as the summary shows; representatives of each order type relative to 0 "
    "stand for all values of that order type (two embeddings, wide and narrow gaps, guard against constants)",
    "constructs the front end does not summarise are counted as undecided, never as holding",
]


def call(args, kw):
    return "(" + ", ".join([repr(a) for a in args] + [f"{k}={v!r}" for k, v in (kw or {}).items()]) + ")"


def describe(st):
    if not st:
        return "no state"
    es = edges_of(st)
    if es is not None:
        iso = [n for n in st.get("_node", {}) if not any(n in e[:2] for e in es)]
        m = st.get("_model")
        return f"edges {es}" + (f", isolated {iso}" if iso else "") + (f", model {m.which}" if m is not None and hasattr(m, 'which') else "")
    if "snapshots" in st:
        return "snapshots " + repr({k: dict.__getitem__(st["snapshots"], k) for k in sorted(st["snapshots"])})
    return repr(st)[:200]


def edges_of(st):
    A = st.get("_adj", st.get("_pred"))
    if A is None:
        return None
    out = []
    for u in A:
        for v in A[u]:
            for e in A[u][v]:
                if e not in out:
                    out.append(e)
    return out


def outcome(o):
    return f"it yields {short(o[1])}" if o[0] == "ok" else f"{o[1]} is raised"


def short(v):
    s = repr(v)
    return s if len(s) < 160 else s[:160] + "..."


def form(v):
    """comparable form of an answer; the order of lists does not count"""
    if v is None or isinstance(v, (bool, int, float, str)):
        return (type(v).__name__ if isinstance(v, bool) else "", v)
    if isinstance(v, dict):
        return ("dict", sorted(((form(k), form(x)) for k, x in dict.items(v)), key=repr))
    if isinstance(v, tuple):
        return ("tuple", [form(x) for x in v])
    if isinstance(v, (list, set, frozenset)):
        return ("list", sorted((form(x) for x in v), key=repr))
    if isinstance(v, Opaque):
        return ("opaque", form(v.name[:2] if isinstance(v.name, tuple) and v.name[:1] == ("copy",) else v.name))
    if isinstance(v, NX):
        def pair(x):
            p = [form(x[0]), form(x[1])]
            return p if v.directed else sorted(p, key=repr)
        # of parallel edges in a simple graph any one's data is kept
        return ("nx", v.cls, form(v.nodes), sorted(((pair(x), form(x[2]) if "Multi" in v.cls else 0) for x in v.edges), key=repr))
    if isinstance(v, Ext) and v.cls == "NodeDataView":
        return ("view", form([list(c[1]) for c in v.calls]), form(dict(v.calls[0][2])))
    if isinstance(v, Inst):
        return ("inst", v.cls, form({k: x for k, x in v.state.items() if k in ("snapshots", "_node", "_adj", "_pred")}))
    raise Und("form of an answer")


def same(a, b):
    return form(a) == form(b)


def same_base(a, b, live):
    return all(same(a[k], b[k]) for k in ("_node", "_adj", "_pred", "snapshots") if k in a and k in b)


def updates(cname, st):
    """what may happen between two queries"""
    if cname.startswith("Snapshot"):
        keys = list(st["snapshots"])
        out = [[("insert", (Opaque("new"),), {"start": k[0], "end": k[1]})] for k in keys[:2]]
        out += [[("add_nodes_from", (["new"],), {"start": (k[0] + k[1]) / 2, "end": k[1] + 1})] for k in keys if k[0] < k[1]][:2]
        return out + [[("insert", (Opaque("new"),), {"start": 90, "end": 91})]]
    edges = []
    for side in ("_adj", "_pred"):
        for u, nb in dict.items(st.get(side) or {}):
            for v, d in dict.items(nb):
                edges += [e for e in d if e not in edges]
    names = list(st["_node"])
    iv = cname.startswith("Interval")
    out, rem = [], []
    ts = [x for e in edges for x in e[2:]]
    far = (max(ts) + 7, max(ts) + 9) if ts else (1, 3)
    new = [(u, v) + (far if iv else far[:1]) for u, v in (("new", "new2"), (names[0] if names else "new", "new2"))]
    for e in edges:
        rem.append(("remove_edge", e, {"overlapping": False}) if iv else ("remove_edge", e[:2] + (e[2], e[2]), {}))
    for r in rem[:3]:
        out.append([r])
        for n in new:
            out.append([r, ("add_edge", n, {})])
        for e in edges[:2]:
            out.append([r, ("add_edge", ("new", "new2") + e[2:], {})])
    out += [[("add_edge", n, {})] for n in new]
    out += [[("add_edge", e, {"w": "new"})] for e in edges[:2]]
    out += [[("remove_node", (n,), {})] for n in names[:3]]
    out += [[("remove_node", (n,), {}), ("add_edge", new[0], {})] for n in names[:3]]
    out += [[("add_node", (n,), {"p": "new"})] for n in (names[:1] + ["new"])]
    return out


LETTERS = "abcdemnxyz"
RENAME = [{"a": "", **{c: c for c in LETTERS[1:]}}, {c: i * 1000 for i, c in enumerate(LETTERS)},
          {c: ("#",) * i for i, c in enumerate(LETTERS)}, {"b": "", **{c: c for c in LETTERS if c != "b"}},
          {c: i * 1000 - 1000 for i, c in enumerate(LETTERS)}]


def renamed(v, ren, memo):
    """deep copy with the nodes renamed; attribute dictionaries are copied as they are and stay shared"""
    if isinstance(v, str):
        return ren.get(v, v)
    if isinstance(v, tuple):
        return tuple(renamed(x, ren, memo) for x in v)
    if v is None or isinstance(v, (bool, int, float)):
        return v
    if id(v) in memo:
        return memo[id(v)][1]
    if isinstance(v, Attr):
        r = Attr(v)
        memo[id(v)] = (v, r)
        return r
    if type(v) in (list, set, frozenset):
        r = type(v)(renamed(x, ren, memo) for x in v)
    elif isinstance(v, dict):
        r = type(v)()
        memo[id(v)] = (v, r)
        for k, x in dict.items(v):
            dict.__setitem__(r, renamed(k, ren, memo), renamed(x, ren, memo))
    elif isinstance(v, TNode):
        r = TNode(v.low, v.high, renamed(v.edges, ren, memo), v.idx)
    elif isinstance(v, NX):
        r = NX(v.cls, {renamed(n, ren, memo): dict(a) for n, a in v.nodes.items()},
               [(renamed(x[0], ren, memo), renamed(x[1], ren, memo)) + tuple(x[2:]) for x in v.edges])
    elif isinstance(v, Ext) and v.cls == "NodeDataView":
        r = Ext(v.cls, [(c[0], renamed(c[1], ren, memo), renamed(c[2], ren, memo)) for c in v.calls])
    elif isinstance(v, Opaque):
        r = v
    else:
        raise Und("renaming")
    memo[id(v)] = (v, r)
    return r
