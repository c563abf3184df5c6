"""Source forms rewritten to one canonical form before analysis (each rewrite keeps what the code does):
 - 'while xs: ... xs.pop() ...' draining a list          -> 'for x in reversed(xs)'
 - recursion over .left/.right that gathers a list       -> recursive generator
 - tree walks with an explicit stack                     -> recursive generator
"""
import ast
import copy


def name(n, x=None):
    return isinstance(n, ast.Name) and (x is None or n.id == x)


def attr_call(n, meth, base=None):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == meth and not n.keywords and \
        (base is None or name(n.func.value, base))


def uses(nodes, x):
    return [n for s in nodes for n in ast.walk(s) if name(n, x)]


def at(new, old):
    ast.copy_location(new, old)
    for n in ast.walk(new):
        if not hasattr(n, "lineno") and hasattr(n, "_attributes") and "lineno" in n._attributes:
            ast.copy_location(n, old)
    return ast.fix_missing_locations(new)


def parse(src, old):
    s = ast.parse(src).body
    for x in s:
        for n in ast.walk(x):
            if hasattr(n, "lineno"):
                n.lineno = n.end_lineno = old.lineno
                n.col_offset = n.end_col_offset = 0
    return s


def blocks(fn):
    """every statement list in a function (nested functions excluded)"""
    todo = [fn]
    while todo:
        n = todo.pop()
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and (b and isinstance(b[0], ast.stmt)):
                yield n, f, b
                todo += [s for s in b if not isinstance(s, (ast.FunctionDef, ast.ClassDef))]
        for h in getattr(n, "handlers", []):
            todo.append(h)


def nonempty_test(t):
    """the name X of 'X', 'len(X)', 'len(X) > 0', 'len(X) != 0', 'X != []'"""
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Gt, ast.NotEq)) and \
            isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value == 0:
        t = t.left
        if not (isinstance(t, ast.Call) and name(t.func, "len")):
            return None
    if isinstance(t, ast.Call) and name(t.func, "len") and len(t.args) == 1:
        t = t.args[0]
    return t.id if name(t) else None


# ---------------------------------------------------------------- draining a list
def fresh_lists(fn):
    """names only ever bound to new lists"""
    good, bad = set(), {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs}
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and name(n.targets[0]):
            v = n.value
            if isinstance(v, (ast.List, ast.ListComp)) or isinstance(v, ast.Call) and (name(v.func, "list") or name(v.func, "sorted")):
                good.add(n.targets[0].id)
                continue
            bad.add(n.targets[0].id)
        elif isinstance(n, (ast.Name,)) and isinstance(n.ctx, ast.Store):
            pass
    stores = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            stores[n.id] = stores.get(n.id, 0) + 1
    assigns = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and name(n.targets[0]):
            assigns[n.targets[0].id] = assigns.get(n.targets[0].id, 0) + 1
    return {x for x in good - bad if stores.get(x) == assigns.get(x)}


def drain(fn):
    lists = None
    for owner, field, b in list(blocks(fn)):
        for i, w in enumerate(b):
            if not isinstance(w, ast.While) or w.orelse:
                continue
            x = nonempty_test(w.test)
            if x is None or len(uses(w.body, x)) != 1 or not w.body:
                continue
            pops = [n for n in ast.walk(w.body[0]) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and
                    name(n.func.value, x) and n.func.attr in ("pop", "popleft")]
            # the pop must run exactly once per round: in the first, simple statement
            if len(pops) != 1 or not isinstance(w.body[0], (ast.Assign, ast.Expr, ast.AugAssign)):
                continue
            if any(isinstance(n, (ast.IfExp, ast.BoolOp, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) for n in ast.walk(w.body[0])):
                continue
            if any(isinstance(n, (ast.Break, ast.Return, ast.Yield, ast.YieldFrom)) for s in w.body for n in ast.walk(s)):
                continue
            if lists is None:
                lists = fresh_lists(fn)
            if x not in lists:
                continue
            p = pops[0]
            first = p.func.attr == "popleft" or p.args and isinstance(p.args[0], ast.Constant) and p.args[0].value == 0
            if p.args and not first and not (isinstance(p.args[0], ast.UnaryOp) or isinstance(p.args[0], ast.Constant) and p.args[0].value == -1):
                continue
            v = f"drained_{x}"
            body = [sub(s, p, ast.Name(v, ast.Load())) for s in w.body]
            it = ast.Name(x, ast.Load()) if first else ast.Call(ast.Name("reversed", ast.Load()), [ast.Name(x, ast.Load())], [])
            loop = at(ast.For(target=ast.Name(v, ast.Store()), iter=it, body=body, orelse=[]), w)
            b[i] = loop
            if len(uses([fn], x)) > 1 + len(uses([s for s in b[:i]], x)):
                b.insert(i + 1, at(ast.Assign([ast.Name(x, ast.Store())], ast.List([], ast.Load())), w))


class _Sub(ast.NodeTransformer):
    def __init__(self, old, new):
        self.old, self.new = old, new

    def visit(self, n):
        if n is self.old:
            return ast.copy_location(self.new, n)
        return self.generic_visit(n)


def sub(s, old, new):
    return _Sub(old, new).visit(s)


# ---------------------------------------------------------------- gathering recursion -> generator
def child_arg(c):
    return any(isinstance(a, ast.Attribute) and a.attr in ("left", "right") for a in list(c.args) + [k.value for k in c.keywords])


def self_call(n, meth):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == meth and name(n.func.value, "self")


def has(n, *kinds):
    return any(isinstance(x, kinds) for x in ast.walk(n))


def gatherer(fn):
    """the generator form of a method that returns the list its recursion over the children gathers, or None"""
    if has(fn, ast.Yield, ast.YieldFrom) or fn.decorator_list:
        return None
    recs = [n for n in ast.walk(fn) if self_call(n, fn.name)]
    walker = any(isinstance(x, ast.Attribute) and x.attr.startswith("_walk_") for x in ast.walk(fn))
    if not walker and (not recs or not any(isinstance(x, ast.Attribute) and x.attr in ("left", "right") for x in ast.walk(fn))):
        return None
    rets = [n for n in ast.walk(fn) if isinstance(n, ast.Return)]
    accs = {n.value.id for n in rets if n.value is not None and name(n.value)}
    if len(accs) > 1 or not rets or not isinstance(fn.body[-1], (ast.Return, ast.If)):
        return None
    acc = next(iter(accs), None)
    if acc in {a.arg for a in fn.args.args}:
        return None
    count = [0]

    def empty(e):
        return isinstance(e, ast.List) and not e.elts or isinstance(e, ast.Call) and name(e.func, "list") and not e.args

    def emit(e, old):
        """statements yielding the elements of a list expression"""
        if empty(e):
            return []
        if isinstance(e, ast.List):
            out = []
            for x in e.elts:
                out += emit(x.value, old) if isinstance(x, ast.Starred) else [at(ast.Expr(ast.Yield(x)), old)]
            return out
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = emit(e.left, old), emit(e.right, old)
            return None if a is None or b is None else a + b
        if isinstance(e, ast.IfExp):
            a, b = emit(e.body, old), emit(e.orelse, old)
            if a is None or b is None:
                return None
            return [at(ast.If(e.test, a or [ast.Pass()], b), old)]
        if isinstance(e, ast.Call) and name(e.func, "list") and len(e.args) == 1:
            return emit(e.args[0], old)
        if self_call(e, fn.name):
            return [at(ast.Expr(ast.YieldFrom(e)), old)]
        if acc is not None and name(e, acc):
            count[0] += 1
            return []
        return None

    def conv(stmts):
        out = []
        for s in stmts:
            if isinstance(s, ast.Return):
                if s.value is None:
                    return None
                e = [] if acc and name(s.value, acc) else emit(s.value, s)
                if e is None or acc and not name(s.value, acc) and count[0]:
                    return None
                out += e + [at(ast.Return(None), s)]
            elif acc and isinstance(s, ast.Assign) and len(s.targets) == 1 and name(s.targets[0], acc):
                n0 = count[0]
                e = emit(s.value, s)
                if e is None:
                    return None
                if count[0] == n0 and s is not first:
                    return None
                out += e
            elif acc and isinstance(s, ast.AugAssign) and name(s.target, acc) and isinstance(s.op, ast.Add):
                e = emit(s.value, s)
                if e is None:
                    return None
                out += e
            elif acc and isinstance(s, ast.Expr) and attr_call(s.value, "append", acc) and len(s.value.args) == 1:
                out.append(at(ast.Expr(ast.Yield(s.value.args[0])), s))
            elif acc and isinstance(s, ast.Expr) and attr_call(s.value, "extend", acc) and len(s.value.args) == 1:
                a = s.value.args[0]
                if not self_call(a, fn.name):
                    return None
                out.append(at(ast.Expr(ast.YieldFrom(a)), s))
            elif isinstance(s, (ast.If, ast.For)):
                n = copy.copy(s)
                n.body = conv(s.body)
                n.orelse = conv(s.orelse)
                if n.body is None or n.orelse is None:
                    return None
                n.body = n.body or [at(ast.Pass(), s)]
                if acc and uses([s.test if isinstance(s, ast.If) else s.iter], acc):
                    return None
                if isinstance(s, ast.For) and self_call(s.iter, fn.name) and not (
                        len(s.body) == 1 and isinstance(s.body[0], ast.Expr) and acc and attr_call(s.body[0].value, "append", acc)):
                    return None
                out.append(n)
            else:
                if acc and uses([s], acc) or any(self_call(x, fn.name) for x in ast.walk(s)) or has(s, ast.Return):
                    return None
                out.append(s)
        return out

    first = next((s for s in fn.body if isinstance(s, ast.Assign) and len(s.targets) == 1 and acc and name(s.targets[0], acc)), None)
    if acc and (first is None or fn.body.index(first) > 0 and uses(fn.body[:fn.body.index(first)], acc)):
        # an early 'return []' before the list exists is fine, any other use is not
        return None
    g = copy.copy(fn)
    g.body = conv(copy.deepcopy(fn.body) if first is None else fn.body)
    if g.body is None or not has(g, ast.Yield):
        return None
    return g


class _ListCalls(ast.NodeTransformer):
    """calls of a method that became a generator: list(...) around them"""
    def __init__(self, meths):
        self.meths = meths

    def visit_YieldFrom(self, n):
        if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr in self.meths:
            return n
        return self.generic_visit(n)

    def visit_For(self, n):
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Attribute) and n.iter.func.attr in self.meths:
            it = n.iter
            n.iter = ast.copy_location(ast.Name("_", ast.Load()), it)
            self.generic_visit(n)
            n.iter = it
            return n
        return self.generic_visit(n)

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in self.meths:
            return at(ast.Call(ast.Name("list", ast.Load()), [n], []), n)
        return n


# ---------------------------------------------------------------- explicit stacks -> recursive generator
def locals_read(stmts, known):
    out = []
    for s in stmts:
        for n in ast.walk(s):
            if name(n) and n.id in known and n.id not in out:
                out.append(n.id)
    return out


def stored(stmts):
    return {n.id for s in stmts for n in ast.walk(s) if name(n) and isinstance(n.ctx, ast.Store)}


def push_of(s, stack):
    """node expressions a statement pushes on the stack, or None"""
    if isinstance(s, ast.Expr) and attr_call(s.value, "append", stack) and len(s.value.args) == 1:
        return [s.value.args[0]]
    if isinstance(s, ast.Expr) and attr_call(s.value, "extend", stack) and len(s.value.args) == 1 and isinstance(s.value.args[0], (ast.Tuple, ast.List)):
        return list(s.value.args[0].elts)
    if isinstance(s, ast.AugAssign) and name(s.target, stack) and isinstance(s.value, (ast.List, ast.Tuple)):
        return list(s.value.elts)
    return None


def is_null_test(t, v, negated=False):
    """'v is None' / 'not v' (negated: 'v', 'v is not None', 'v != None')"""
    if negated:
        return name(t, v) or isinstance(t, ast.Compare) and name(t.left, v) and isinstance(t.ops[0], (ast.IsNot, ast.NotEq)) and \
            isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None
    return isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and name(t.operand, v) or isinstance(t, ast.Compare) and \
        name(t.left, v) and isinstance(t.ops[0], (ast.Is, ast.Eq)) and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None


def walks(cls, fn):
    """rewrites the stack loops of a method; returns the walkers to add to the class"""
    new = []
    known = {a.arg for a in fn.args.args + fn.args.kwonlyargs} | {n.id for n in ast.walk(fn) if name(n) and isinstance(n.ctx, ast.Store)}
    for owner, field, b in list(blocks(fn)):
        for w in [x for x in b if isinstance(x, ast.While)]:
            i = b.index(w)
            if w.orelse:
                continue
            r = inorder(fn, b, i, w, known) or preorder(fn, b, i, w, known)
            if r is None:
                continue
            lo, start, node, body, params, kind = r
            m = f"_walk_{fn.name.strip('_')}_{len(new)}"
            g = ast.FunctionDef(name=m, args=ast.arguments(posonlyargs=[], args=[ast.arg(x) for x in ["self", node] + params],
                                vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[]), body=body(m), decorator_list=[],
                                returns=None, type_comment=None, type_params=[])
            g = at(g, w)
            call = ast.Call(ast.Attribute(ast.Name("self", ast.Load()), m, ast.Load()), [start] + [ast.Name(x, ast.Load()) for x in params], [])
            if kind == "yield":
                rep = [ast.Expr(ast.YieldFrom(call))]
            elif isinstance(kind, tuple):
                rep = [ast.For(target=ast.Name("walked", ast.Store()), iter=call, orelse=[],
                               body=[ast.Expr(ast.Call(ast.Attribute(ast.Name(kind[0], ast.Load()), kind[1], ast.Load()), [ast.Name("walked", ast.Load())], []))])]
            else:
                rep = [ast.For(target=ast.Name(node, ast.Store()), iter=call, body=kind, orelse=[])]
            b[i:i + 1] = [at(s, w) for s in rep]
            for j in sorted(lo, reverse=True):
                del b[j]
            new.append(g)
    return new


def inorder(fn, b, i, w, known):
    """while stack or node: go left pushing, or pop: own statements, then go right (either child order, with or without pruning)"""
    t = w.test
    body_ = list(w.body)
    guard = False
    if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.Or) and len(t.values) == 2:
        names = [nonempty_test(v) or (v.left.id if isinstance(v, ast.Compare) and name(v.left) and is_null_test(v, v.left.id, True) else None)
                 for v in t.values]
    elif isinstance(t, ast.Constant) and t.value is True or isinstance(t, ast.Constant) and t.value == 1:
        names, guard = [], True
    else:
        return None
    if None in names or not body_:
        return None
    first = body_[0]
    prune, rest = None, None

    def step(s, node):
        return s.value.attr if isinstance(s, ast.Assign) and len(s.targets) == 1 and name(s.targets[0], node) and \
            isinstance(s.value, ast.Attribute) and name(s.value.value, node) and s.value.attr in ("left", "right") else None

    def descent(stmts):
        """(stack, node, child, condition) of 'push(node); node = node.left', possibly under a condition"""
        if len(stmts) == 2 and isinstance(stmts[0], ast.Expr) and isinstance(stmts[0].value, ast.Call) and \
                isinstance(stmts[0].value.func, ast.Attribute) and stmts[0].value.func.attr == "append" and \
                name(stmts[0].value.func.value) and len(stmts[0].value.args) == 1 and name(stmts[0].value.args[0]):
            stack, node = stmts[0].value.func.value.id, stmts[0].value.args[0].id
            one = step(stmts[1], node)
            return one and (stack, node, one, None)
        if len(stmts) == 1 and isinstance(stmts[0], ast.If):
            c = stmts[0]
            for yes, no, neg in ((c.body, c.orelse, False), (c.orelse, c.body, True)):
                d = descent(yes)
                if d and d[3] is None and len(no) == 1 and isinstance(no[0], ast.Assign) and name(no[0].targets[0], d[1]) and \
                        isinstance(no[0].value, ast.Constant) and no[0].value.value is None:
                    return d[:3] + (ast.UnaryOp(ast.Not(), c.test) if neg else c.test,)
        return None

    if isinstance(first, ast.While) and not first.orelse:
        d = descent(first.body)
        if not d or d[3] is not None:
            return None
        test = first.test
        if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) and is_null_test(test.values[0], d[1], True):
            prune = test.values[1] if len(test.values) == 2 else ast.BoolOp(ast.And(), test.values[1:])
        elif not is_null_test(test, d[1], True):
            return None
        rest = body_[1:]
        stops = rest and isinstance(rest[0], ast.If) and not rest[0].orelse and len(rest[0].body) == 1 and \
            isinstance(rest[0].test, ast.UnaryOp) and isinstance(rest[0].test.op, ast.Not) and nonempty_test(rest[0].test.operand) == d[0] and \
            (isinstance(rest[0].body[0], ast.Break) or isinstance(rest[0].body[0], ast.Return) and rest[0].body[0].value is None and b[i + 1:] == [])
        if stops:
            rest = rest[1:]
        elif guard or prune is not None:
            return None
    elif isinstance(first, ast.If) and not guard:
        node = names[0] if is_null_test(first.test, names[0], True) or is_null_test(first.test, names[0]) else names[1]
        if is_null_test(first.test, node, True):
            down, rest = first.body, first.orelse
        elif is_null_test(first.test, node):
            down, rest = first.orelse, first.body
        else:
            return None
        if not first.orelse and len(down) > 1 and isinstance(down[-1], ast.Continue):
            down, rest = down[:-1], body_[1:]
        elif len(body_) > 1:
            return None
        d = descent(down)
        if not d:
            return None
        prune = d[3]
    else:
        return None
    stack, node, one, _ = d
    if names and set(names) != {stack, node} or len(rest) < 2:
        return None
    p, tail = rest[0], rest[-1]
    if not (isinstance(p, ast.Assign) and name(p.targets[0], node) and attr_call(p.value, "pop", stack) and not p.value.args):
        return None
    own = rest[1:-1]
    if uses(own + [tail], stack) or node in stored(own) or any(isinstance(n, (ast.Continue, ast.Break)) for s in own + [tail] for n in ast.walk(s)):
        return None
    if has(tail, ast.Return, ast.Yield, ast.YieldFrom):
        return None
    ini = initial(b, i, {stack, node}) or initial(b, i, {stack})
    if ini is None or not isinstance(ini[stack], ast.List) or ini[stack].elts or uses(b[i + 1:], stack) or uses(b[i + 1:], node):
        return None
    start, lo = ini.get(node, ast.Name(node, ast.Load())), ini["#"]
    exprs = ([ast.Expr(prune)] if prune is not None else []) + [tail]
    params = [x for x in locals_read(exprs, known) if x not in (stack, node, "self")]
    if set(params) & (stored(own) | (stored([tail]) - {node})):
        return None
    yields = has(ast.Module(own, []), ast.Yield, ast.YieldFrom)
    if yields:
        if has(ast.Module(own, []), ast.Return):
            return None
        params += [x for x in locals_read(own, known) if x not in params + [stack, node, "self"] and x not in stored(own)]
    broken = [False]

    def body(m):
        def rec(e):
            if isinstance(e, ast.Constant) and e.value is None:
                return ast.Pass()
            if isinstance(e, ast.IfExp) and isinstance(e.orelse, ast.Constant) and e.orelse.value is None:
                return ast.If(e.test, [rec(e.body)], [])
            if isinstance(e, ast.IfExp) and isinstance(e.body, ast.Constant) and e.body.value is None:
                return ast.If(ast.UnaryOp(ast.Not(), e.test), [rec(e.orelse)], [])
            return ast.Expr(ast.YieldFrom(ast.Call(ast.Attribute(ast.Name("self", ast.Load()), m, ast.Load()), [e] + [ast.Name(x, ast.Load()) for x in params], [])))

        def move(s):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and name(s.targets[0], node):
                return [at(rec(s.value), s)]
            if isinstance(s, ast.If) and s.orelse:
                n = copy.copy(s)
                n.body, n.orelse = s.body[:-1] + move(s.body[-1]), s.orelse[:-1] + move(s.orelse[-1])
                if node in stored(s.body[:-1] + s.orelse[:-1]):
                    broken[0] = True
                return [n]
            broken[0] = True
            return [s]
        out = parse(f"if {node} is None:\n    return", w)
        if prune is not None:
            out.append(at(ast.If(ast.UnaryOp(ast.Not(), prune), [ast.Return(None)], []), w))
        out.append(at(rec(ast.Attribute(ast.Name(node, ast.Load()), one, ast.Load())), w))
        out += copy.deepcopy(own) if yields else parse(f"yield {node}", w)
        return out + move(copy.deepcopy(tail))
    body("x")
    if broken[0]:
        return None
    return lo, start, node, body, params, "yield" if yields else own or [ast.Pass()]


def initial(b, i, names):
    """the assignments before statement i that set these names, with nothing that mentions them in between; {'#': their indices}"""
    out, j, idx = {}, i, []
    while j > 0 and set(out) != names:
        s = b[j - 1]
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and name(s.targets[0]) and s.targets[0].id in names - set(out) and \
                not any(uses([s.value], x) for x in out):
            out[s.targets[0].id] = s.value
            idx.append(j - 1)
        elif isinstance(s, (ast.Assign, ast.Expr)) and not any(uses([s], x) for x in names):
            # nothing it changes may be read by the values already moved down
            if any(uses([v], x) for v in out.values() for x in stored([s])):
                break
        else:
            break
        j -= 1
    if set(out) != names:
        return None
    out["#"] = idx
    return out


def split_tuples(fn):
    """a, b = x, y with independent parts -> two assignments"""
    for owner, field, b in list(blocks(fn)):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and \
                    len(s.targets[0].elts) == len(s.value.elts) and all(name(x) for x in s.targets[0].elts) and \
                    all(isinstance(v, (ast.Constant, ast.List, ast.Dict, ast.Name, ast.Attribute)) for v in s.value.elts) and \
                    any(isinstance(v, ast.List) and not v.elts for v in s.value.elts) and \
                    not any(uses([s.value], x.id) for x in s.targets[0].elts):
                b[i:i + 1] = [at(ast.Assign([x], v), s) for x, v in zip(s.targets[0].elts, s.value.elts)]
            i += 1


def preorder(fn, b, i, w, known):
    """while stack: node = stack.pop(); own statements and pushes of node.left / node.right"""
    stack = nonempty_test(w.test)
    if stack is None or len(w.body) < 2:
        return None
    p = w.body[0]
    if not (isinstance(p, ast.Assign) and len(p.targets) == 1 and name(p.targets[0]) and
            (attr_call(p.value, "pop", stack) or attr_call(p.value, "popleft", stack))):
        return None
    node = p.targets[0].id
    rest = w.body[1:]
    ini = initial(b, i, {stack})
    if ini is None or uses(b[i + 1:], stack):
        return None
    v = ini[stack]
    if isinstance(v, ast.Call) and getattr(v.func, "id", getattr(v.func, "attr", "")) == "deque" and v.args:
        v = v.args[0]
    if not isinstance(v, (ast.List, ast.Tuple)) or len(v.elts) != 1:
        return None
    start = v.elts[0]
    pushes = [x for s in rest for x in ast.walk(s) if isinstance(x, ast.stmt) and push_of(x, stack) is not None]
    n_push = sum(len(push_of(x, stack)) for x in pushes)
    if not n_push or len(uses(rest, stack)) != len(pushes):
        return None
    # 'for child in (node.left, node.right): if child...: push(child)' is unrolled
    children = set()
    for x in pushes:
        for e in push_of(x, stack):
            children.add(ast.dump(e))
    params = [x for x in locals_read(rest, known) if x not in (stack, node) and x not in stored(rest) and x != "self"]
    accs = set()
    for s in rest:
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and name(n.func.value) and n.func.value.id in params and \
                    n.func.attr in ("append", "add", "extend", "update"):
                accs.add((n.func.value.id, n.func.attr))
    yields = any(has(s, ast.Yield, ast.YieldFrom) for s in rest)
    if has(w, ast.Break) or any(has(s, ast.Return) for s in rest):
        return None
    kind = None
    if yields:
        if accs:
            return None
        kind = "yield"
    elif len(accs) == 1:
        acc, meth = next(iter(accs))
        if len(uses(rest, acc)) != sum(1 for s in rest for n in ast.walk(s) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and name(n.func.value, acc)):
            return None
        kind = (acc, "append" if meth in ("append", "extend") else "add")
        params.remove(acc)
    else:
        return None
    if stored(rest) & (set(params) | {stack}):
        return None

    def body(m):
        def rec(e, old):
            return at(ast.Expr(ast.YieldFrom(ast.Call(ast.Attribute(ast.Name("self", ast.Load()), m, ast.Load()), [e] + [ast.Name(x, ast.Load()) for x in params], []))), old)

        def conv(stmts):
            out = []
            for s in stmts:
                q = push_of(s, stack)
                if q is not None:
                    out += [rec(e, s) for e in q]
                elif isinstance(s, ast.Continue):
                    out.append(at(ast.Return(None), s))
                elif kind != "yield" and isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and \
                        name(s.value.func.value, kind[0]):
                    a = s.value.args[0]
                    out.append(at(ast.Expr(ast.Yield(a) if s.value.func.attr in ("append", "add") else ast.YieldFrom(a)), s))
                elif isinstance(s, ast.If):
                    n = copy.copy(s)
                    n.body, n.orelse = conv(s.body), conv(s.orelse)
                    out.append(n)
                elif isinstance(s, ast.For) and any(push_of(x, stack) is not None for x in ast.walk(s) if isinstance(x, ast.stmt)) and \
                        isinstance(s.iter, (ast.Tuple, ast.List)) and name(s.target) and not s.orelse:
                    for e in s.iter.elts:
                        for x in conv(copy.deepcopy(s.body)):
                            out.append(_Name(s.target.id, e).visit(x))
                else:
                    out.append(s)
            return out
        return conv(rest)
    return ini["#"], start, node, body, params, kind


class _Name(ast.NodeTransformer):
    def __init__(self, x, e):
        self.x, self.e = x, e

    def visit_Name(self, n):
        return ast.copy_location(copy.deepcopy(self.e), n) if n.id == self.x and isinstance(n.ctx, ast.Load) else n


def plain_yields(fn):
    """for x in E: yield x  ->  yield from E (of a walker); no bare return at the end of a generator"""
    for owner, field, b in list(blocks(fn)):
        for i, s in enumerate(b):
            if isinstance(s, ast.For) and not s.orelse and name(s.target) and len(s.body) == 1 and isinstance(s.body[0], ast.Expr) and \
                    isinstance(s.body[0].value, ast.Yield) and s.body[0].value.value is not None and name(s.body[0].value.value, s.target.id) and \
                    isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Attribute) and s.iter.func.attr.startswith("_walk_"):
                b[i] = at(ast.Expr(ast.YieldFrom(s.iter)), s)
    if len(fn.body) > 1 and isinstance(fn.body[-1], ast.Return) and fn.body[-1].value is None:
        fn.body.pop()


def normalise(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            split_tuples(n)
            drain(n)
    for c in tree.body:
        if not isinstance(c, ast.ClassDef):
            continue
        for f in list(c.body):
            if isinstance(f, ast.FunctionDef):
                c.body += walks(c, f)
        made = set()
        for i, f in enumerate(list(c.body)):
            if isinstance(f, ast.FunctionDef) and gatherer(f) is None:
                plain_yields(f)
            if not isinstance(f, ast.FunctionDef):
                continue
            g = gatherer(f)
            if g is not None:
                plain_yields(g)
                c.body[i] = g
                made.add(f.name)
        if made:
            for f in c.body:
                if isinstance(f, ast.FunctionDef):
                    _ListCalls(made).visit(f)
    return tree
