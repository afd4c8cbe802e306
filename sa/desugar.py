"""Loops written out by hand become for loops again, so that the rules see one form only.

  it = iter(X); while True: try: T = next(it) / except StopIteration: break / body      ->  for T in X: body
  T = next(it, S); while T is not S: body; T = next(it, S)                              ->  for T in X: body
  for i in range(len(X)): .. X[i] ..                                                    ->  for i, e in enumerate(X): .. e ..
  i = 0; while i < len(X): .. X[i] ..; i += 1                                           ->  for i, e in enumerate(X): .. e ..

Only loops that fit exactly are touched; anything else stays as written."""
import ast


def plain(e):
    while isinstance(e, ast.Attribute):
        e = e.value
    return isinstance(e, ast.Name)


def name(e, n=None):
    return isinstance(e, ast.Name) and (n is None or e.id == n)


def is_call(e, f, n=None):
    return isinstance(e, ast.Call) and name(e.func, f) and not e.keywords and (n is None or len(e.args) == n)


def walk(stmts):
    for s in stmts:
        yield from ast.walk(s)


def uses(stmts, n):
    return sum(1 for x in walk(stmts) if isinstance(x, ast.Name) and x.id == n)


def own_jumps(stmts, kinds):
    """break/continue statements belonging to the loop whose body is stmts."""
    out = []

    def go(s):
        if isinstance(s, kinds):
            out.append(s)
        if isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
            for x in s.orelse:
                go(x)
            return
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            return
        for x in ast.iter_child_nodes(s):
            if isinstance(x, (ast.stmt, ast.ExceptHandler)) or hasattr(ast, "match_case") and isinstance(x, ast.match_case):
                go(x)
    for s in stmts:
        go(s)
    return out


def assign1(s):
    """(target, value) of a plain assignment."""
    if isinstance(s, ast.Assign) and len(s.targets) == 1:
        return s.targets[0], s.value
    if isinstance(s, ast.AnnAssign) and s.value is not None:
        return s.target, s.value
    return None, None


class Sub(ast.NodeTransformer):
    def __init__(self, cont, idx, new):
        self.cont, self.idx, self.new = ast.dump(cont), idx, new

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and name(n.slice, self.idx) and ast.dump(n.value) == self.cont:
            return ast.copy_location(ast.Name(self.new, ast.Load()), n)
        return n


class Desugar(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.fn = []

    def visit_FunctionDef(self, f):
        self.fn.append(f)
        self.generic_visit(f)
        f.body = self.block(f.body)
        self.fn.pop()
        return f

    def generic_visit(self, node):
        super().generic_visit(node)
        if self.fn and node is not self.fn[-1] and isinstance(node, (ast.stmt, ast.ExceptHandler)) and \
                not isinstance(node, ast.ClassDef):
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(node, fld, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    setattr(node, fld, self.block(b))
        return node

    def block(self, b):
        b = list(b)
        i = 0
        while i < len(b):
            s = b[i]
            r = None
            if isinstance(s, ast.While):
                r = self.next_loop(b, i) or self.next_default(b, i) or self.index_while(b, i)
            elif isinstance(s, ast.For):
                r = self.index_for(s)
                if r is not None:
                    r = (b[:i] + [r] + b[i + 1:], i)
            if r is not None:
                b, i = r
            i += 1
        return b

    def made(self, b, i, test):
        """Index of the assignment `name = <test value>` just before statement i (only assignments in between)."""
        for j in range(i - 1, max(-1, i - 4), -1):
            t, v = assign1(b[j])
            if t is None:
                return None
            if name(t) and test(t.id, v):
                return j
        return None

    def total(self, n):
        return uses(self.fn[-1].body, n)

    def next_loop(self, b, i):
        s = b[i]
        if not (isinstance(s.test, ast.Constant) and s.test.value) or s.orelse or not s.body or not isinstance(s.body[0], ast.Try):
            return None
        tr = s.body[0]
        if len(tr.body) != 1 or len(tr.handlers) != 1 or tr.orelse or tr.finalbody:
            return None
        t, v = assign1(tr.body[0])
        h = tr.handlers[0]
        if t is None or not is_call(v, "next", 1) or not name(v.args[0]) or not name(h.type, "StopIteration") or \
                len(h.body) != 1 or not isinstance(h.body[0], ast.Break):
            return None
        it = v.args[0].id
        j = self.made(b, i, lambda n, x: n == it and is_call(x, "iter", 1))
        if j is None or self.total(it) != 2:
            return None
        x = assign1(b[j])[1].args[0]
        f = ast.copy_location(ast.For(t, x, s.body[1:] or [ast.copy_location(ast.Pass(), s)], []), s)
        return b[:j] + b[j + 1:i] + [ast.fix_missing_locations(f)] + b[i + 1:], i - 1

    def next_default(self, b, i):
        """T = next(it, S); while T is not S: body; T = next(it, S)"""
        s = b[i]
        c = s.test
        if s.orelse or len(s.body) < 2 or own_jumps(s.body, ast.Continue) or not (
                isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], ast.IsNot) and name(c.left) and
                plain(c.comparators[0])):
            return None
        t, v = assign1(s.body[-1])
        if t is None or not name(t, c.left.id) or not is_call(v, "next", 2) or not name(v.args[0]) or \
                ast.dump(v.args[1]) != ast.dump(c.comparators[0]):
            return None
        k = self.made(b, i, lambda n, x: n == t.id and ast.dump(x) == ast.dump(v))
        if k is None:
            return None
        it = v.args[0].id
        j = self.made(b, k, lambda n, x: n == it and is_call(x, "iter", 1))
        if j is None or self.total(it) != 3 or self.fn[-1] is None:
            return None
        x = assign1(b[j])[1].args[0]
        f = ast.copy_location(ast.For(t, x, s.body[:-1], []), s)
        out = [y for q, y in enumerate(b[:i]) if q not in (j, k)]
        return out + [ast.fix_missing_locations(f)] + b[i + 1:], len(out)

    def steady(self, cont, body):
        """Is the container not rebound, and not changed through its own name, in the loop?"""
        d = ast.dump(cont)
        root = cont
        while isinstance(root, ast.Attribute):
            root = root.value
        for x in walk(body):
            if isinstance(x, ast.Name) and x.id == root.id and isinstance(x.ctx, (ast.Store, ast.Del)):
                return False
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(cont, ast.Attribute) and \
                    x.attr == cont.attr:
                return False
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and ast.dump(x.value) == d:
                return False
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and ast.dump(x.func.value) == d and x.func.attr in (
                    "append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse"):
                return False
        return True

    def rebuilt(self, idx, cont, body, node, keep):
        if not self.steady(cont, body):
            return None
        if any(isinstance(x, ast.Name) and x.id == idx and isinstance(x.ctx, (ast.Store, ast.Del)) for x in walk(body)):
            return None
        self.n += 1
        el = f"_item_{self.n}"
        tr = Sub(cont, idx, el)
        body = [tr.visit(x) for x in body]
        if not uses(body, el):
            return None
        cont = ast.parse(ast.unparse(cont), mode="eval").body
        if keep or uses(body, idx):
            tgt = ast.Tuple([ast.Name(idx, ast.Store()), ast.Name(el, ast.Store())], ast.Store())
            it = ast.Call(ast.Name("enumerate", ast.Load()), [cont], [])
        else:
            # `x = <element>` as the first statement: let the loop bind x itself
            t, v = assign1(body[0])
            if name(t) and name(v, el) and uses(body, el) == 1 and len(body) > 1:
                tgt, it, body = t, cont, body[1:]
            elif isinstance(t, ast.Tuple) and name(v, el) and uses(body, el) == 1 and len(body) > 1:
                tgt, it, body = t, cont, body[1:]
            else:
                tgt, it = ast.Name(el, ast.Store()), cont
        f = ast.For(tgt, it, body, [])
        for x in ast.walk(tgt):
            ast.copy_location(x, node)
        for x in ast.walk(it):
            ast.copy_location(x, node)
        return ast.fix_missing_locations(ast.copy_location(f, node))

    def index_for(self, s):
        r = s.iter
        if not (is_call(r, "range", 1) and is_call(r.args[0], "len", 1) and plain(r.args[0].args[0]) and name(s.target)) or s.orelse:
            return None
        idx = s.target.id
        inside = uses(s.body, idx)
        return self.rebuilt(idx, r.args[0].args[0], s.body, s, self.total(idx) != inside + 1)

    def index_while(self, b, i):
        s = b[i]
        c = s.test
        if s.orelse or not (isinstance(c, ast.Compare) and len(c.ops) == 1 and isinstance(c.ops[0], (ast.Lt, ast.NotEq)) and name(c.left)
                            and is_call(c.comparators[0], "len", 1) and plain(c.comparators[0].args[0])):
            return None
        idx, cont = c.left.id, c.comparators[0].args[0]
        j = self.made(b, i, lambda n, v: n == idx and isinstance(v, ast.Constant) and v.value == 0 and type(v.value) is int)
        if j is None:
            return None
        steps = [k for k, x in enumerate(s.body) if isinstance(x, ast.AugAssign) and name(x.target, idx) and
                 isinstance(x.op, ast.Add) and isinstance(x.value, ast.Constant) and x.value.value == 1]
        if len(steps) != 1:
            return None
        k = steps[0]
        after = s.body[k + 1:]
        if uses(after, idx) or own_jumps(s.body[:k], ast.Continue):
            return None
        body = s.body[:k] + after
        inside = uses(s.body, idx)
        if self.total(idx) != inside + 2 or not body:
            return None                # the index is used after the loop
        f = self.rebuilt(idx, cont, body, s, False)
        if f is None:
            return None
        return b[:j] + b[j + 1:i] + [f] + b[i + 1:], i - 1


def desugar(tree):
    return ast.fix_missing_locations(Desugar().visit(tree))
