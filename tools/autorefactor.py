#!/usr/bin/env python3
"""Development harness: rewrite the whole package with a behaviour-preserving transformation and see that every check stays
quiet.  python3 tools/autorefactor.py [-T name[,name]] [-p C01,..] [-t] [--only file:func]  (-t: run the repository's tests too)"""
import argparse, ast, copy, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PURE = (ast.Name, ast.Attribute, ast.Constant)


def neg(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        m = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
        t = m.get(type(e.ops[0]))
        if t:
            return ast.Compare(e.left, [t()], e.comparators)
    return ast.UnaryOp(ast.Not(), e)


def ends(body):
    s = body[-1]
    if isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
        return True
    if isinstance(s, ast.If) and s.orelse:
        return ends(s.body) and ends(s.orelse)
    return False


class Base(ast.NodeTransformer):
    def __init__(self, only=None):
        self.n = 0
        self.count = 0
        self.only = only

    def fresh(self, p="tmp"):
        self.n += 1
        return f"{p}_{self.n}"

    def do_block(self, stmts):
        return stmts

    def visit_FunctionDef(self, f):
        if any(isinstance(d, ast.Name) and d.id == "overload" or isinstance(d, ast.Attribute) and d.attr == "overload"
               for d in f.decorator_list):
            return f
        if self.only and f.name != self.only:
            for i, s in enumerate(f.body):
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    f.body[i] = self.visit(s)
            return f
        self.fn = f
        return self.func(f)

    def func(self, f):
        self.generic_visit(f)
        return f

    def blocks(self, node):
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(node, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(node, fld, self.do_block(b))
        return node

    def generic_visit(self, node):
        super().generic_visit(node)
        if not isinstance(node, (ast.Module, ast.ClassDef)) and isinstance(node, (ast.stmt, ast.ExceptHandler)):
            self.blocks(node)
        return node

    def visit_Lambda(self, n):
        return n


class InvertIf(Base):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)) :
            if isinstance(n.test, ast.NamedExpr):
                return n
            return ast.If(neg(n.test), n.orelse, n.body)
        return n


class EarlyElse(Base):
    """if c: return ..; rest  ->  if c: return .. else: rest"""
    def do_block(self, b):
        for i, s in enumerate(b[:-1]):
            if isinstance(s, ast.If) and not s.orelse and ends(s.body):
                rest = self.do_block(b[i + 1:])
                return b[:i] + [ast.If(s.test, s.body, rest)]
        return b


class InvertEarly(Base):
    """if c: return/raise ..; rest  ->  if not c: rest else: return .."""
    def do_block(self, b):
        for i, s in enumerate(b[:-1]):
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) and not any(isinstance(x, ast.NamedExpr) for x in ast.walk(s.test)):
                rest = self.do_block(b[i + 1:])
                return b[:i] + [ast.If(neg(s.test), rest, s.body)]
        return b


class DropElse(Base):
    def do_block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.If) and s.orelse and ends(s.body):
                out.append(ast.If(s.test, s.body, []))
                out.extend(self.do_block(s.orelse))
            else:
                out.append(s)
        return out


class TmpReturn(Base):
    def do_block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                v = self.fresh("ret")
                out.append(ast.Assign([ast.Name(v, ast.Store())], s.value, lineno=s.lineno))
                out.append(ast.Return(ast.Name(v, ast.Load())))
            else:
                out.append(s)
        return out


class TmpArgs(Base):
    def do_block(self, b):
        out = []
        for s in b:
            e = s.value if isinstance(s, (ast.Return, ast.Expr, ast.Assign)) else None
            if isinstance(e, ast.Call) and not (isinstance(e.func, ast.Name) and e.func.id == "super") and simple(e.func):
                for i, a in enumerate(e.args):
                    if not isinstance(a, (ast.Name, ast.Constant, ast.Starred, ast.GeneratorExp, ast.Lambda)):
                        v = self.fresh("arg")
                        out.append(ast.Assign([ast.Name(v, ast.Store())], a, lineno=s.lineno))
                        e.args[i] = ast.Name(v, ast.Load())
                for k in e.keywords:
                    if k.arg and not isinstance(k.value, (ast.Name, ast.Constant, ast.Lambda)):
                        v = self.fresh("arg")
                        out.append(ast.Assign([ast.Name(v, ast.Store())], k.value, lineno=s.lineno))
                        k.value = ast.Name(v, ast.Load())
            out.append(s)
        return out


def simple(e):
    while isinstance(e, ast.Attribute):
        e = e.value
    return isinstance(e, ast.Name)


class TmpTest(Base):
    """if <test>: -> cond = <test>; if cond:"""
    def do_block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.If) and not isinstance(s.test, (ast.Name, ast.Constant)):
                v = self.fresh("cond")
                out.append(ast.Assign([ast.Name(v, ast.Store())], s.test, lineno=s.lineno))
                s.test = ast.Name(v, ast.Load())
            out.append(s)
        return out


class Recv(Base):
    """a.b.c(...) -> obj = a.b; obj.c(...)"""
    def do_block(self, b):
        out = []
        for s in b:
            e = s.value if isinstance(s, (ast.Return, ast.Expr, ast.Assign)) else None
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Attribute) \
                    and simple(e.func.value) and not root(e.func.value) in MODS:
                v = self.fresh("obj")
                out.append(ast.Assign([ast.Name(v, ast.Store())], e.func.value, lineno=s.lineno))
                e.func.value = ast.Name(v, ast.Load())
            out.append(s)
        return out


MODS = {"errors", "fields", "helpers", "typing", "collections", "io", "struct", "sys", "datetime", "varints", "warnings", "uuid",
        "codecs", "more_itertools", "decorators", "structures", "abc", "enum", "functools", "dataclasses", "types", "te", "math",
        "pep526", "array", "copy", "inspect", "importlib", "__future__", "typing_extensions"}


def root(e):
    while isinstance(e, ast.Attribute):
        e = e.value
    return getattr(e, "id", None)


class Rename(Base):
    def func(self, f):
        inner = [x for x in ast.walk(f) if x is not f and isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef))]
        if inner:
            self.generic_visit(f)
            return f
        params = {a.arg for a in f.args.args + f.args.kwonlyargs + f.args.posonlyargs} | \
            ({f.args.vararg.arg} if f.args.vararg else set()) | ({f.args.kwarg.arg} if f.args.kwarg else set())
        glob = {n for x in ast.walk(f) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        loc = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params - glob
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id += "_v"
            if isinstance(x, ast.ExceptHandler) and x.name:
                pass
        return f


class ForWhile(Base):
    def do_block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.For) and not s.orelse:
                it = self.fresh("it")
                out.append(ast.Assign([ast.Name(it, ast.Store())], call("iter", s.iter), lineno=s.lineno))
                nx = ast.Assign([s.target], call("next", ast.Name(it, ast.Load())), lineno=s.lineno)
                tr = ast.Try([nx], [ast.ExceptHandler(ast.Name("StopIteration", ast.Load()), None, [ast.Break()])], [], [])
                out.append(ast.While(ast.Constant(True), [tr] + s.body, []))
            else:
                out.append(s)
        return out


class ForNext(Base):
    """x = next(it, None-like sentinel) loops"""
    def do_block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.For) and not s.orelse and isinstance(s.target, ast.Name) and not has(s.body, ast.Continue):
                it, st = self.fresh("it"), self.fresh("done")
                out.append(ast.Assign([ast.Name(st, ast.Store())], call("object"), lineno=s.lineno))
                out.append(ast.Assign([ast.Name(it, ast.Store())], call("iter", s.iter), lineno=s.lineno))
                nx = ast.Assign([s.target], call("next", ast.Name(it, ast.Load()), ast.Name(st, ast.Load())), lineno=s.lineno)
                out.append(nx)
                out.append(ast.While(ast.Compare(ast.Name(s.target.id, ast.Load()), [ast.IsNot()], [ast.Name(st, ast.Load())]),
                                     s.body + [copy.deepcopy(nx)], []))
            else:
                out.append(s)
        return out


class RangeLen(Base):
    def do_block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.For) and not s.orelse and not has([s.iter], ast.GeneratorExp) and not \
                    (isinstance(s.iter, ast.Call) and getattr(s.iter.func, "attr", getattr(s.iter.func, "id", "")) in ("iter_bytes", "iterdecode", "enumerate")) and \
                    not (isinstance(s.iter, ast.Name) and s.iter.id in ("reader", "data")):
                q, i = self.fresh("seq"), self.fresh("i")
                out.append(ast.Assign([ast.Name(q, ast.Store())], call("list", s.iter), lineno=s.lineno))
                get = ast.Assign([s.target], ast.Subscript(ast.Name(q, ast.Load()), ast.Name(i, ast.Load()), ast.Load()), lineno=s.lineno)
                self.loop(out, q, i, get, s)
            else:
                out.append(s)
        return out

    def loop(self, out, q, i, get, s):
        out.append(ast.For(ast.Name(i, ast.Store()), call("range", call("len", ast.Name(q, ast.Load()))), [get] + s.body, [], lineno=s.lineno))


class WhileIdx(RangeLen):
    def loop(self, out, q, i, get, s):
        out.append(ast.Assign([ast.Name(i, ast.Store())], ast.Constant(0), lineno=s.lineno))
        inc = ast.AugAssign(ast.Name(i, ast.Store()), ast.Add(), ast.Constant(1))
        out.append(ast.While(ast.Compare(ast.Name(i, ast.Load()), [ast.Lt()], [call("len", ast.Name(q, ast.Load()))]), [get, inc] + s.body, []))


def call(f, *a):
    return ast.Call(ast.Name(f, ast.Load()), list(a), [])


class CompLoop(Base):
    """x = [e for ..] / return [..] -> loop with append (also dict comps)"""
    def do_block(self, b):
        out = []
        for s in b:
            if isinstance(s, (ast.Assign, ast.AnnAssign, ast.Return)) and isinstance(s.value, (ast.ListComp, ast.DictComp)) and \
                    not any(g.is_async for g in s.value.generators):
                c = s.value
                v = self.fresh("acc")
                lst = isinstance(c, ast.ListComp)
                out.append(ast.Assign([ast.Name(v, ast.Store())], ast.List([], ast.Load()) if lst else ast.Dict([], []), lineno=s.lineno))
                if lst:
                    body = ast.Expr(ast.Call(ast.Attribute(ast.Name(v, ast.Load()), "append", ast.Load()), [c.elt], []))
                else:
                    body = ast.Assign([ast.Subscript(ast.Name(v, ast.Load()), c.key, ast.Store())], c.value, lineno=s.lineno)
                for g in reversed(c.generators):
                    for i in reversed(g.ifs):
                        body = ast.If(i, [body], [])
                    body = ast.For(g.target, g.iter, [body], [], lineno=s.lineno)
                out.append(body)
                s.value = ast.Name(v, ast.Load())
            out.append(s)
        return out


class Flip(Base):
    def visit_Compare(self, n):
        self.generic_visit(n)
        m = {ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        if len(n.ops) == 1 and type(n.ops[0]) in m:
            return ast.Compare(n.comparators[0], [m[type(n.ops[0])]()], [n.left])
        return n


class NotIs(Base):
    def visit_Compare(self, n):
        self.generic_visit(n)
        m = {ast.IsNot: ast.Is, ast.NotIn: ast.In, ast.NotEq: ast.Eq, ast.Lt: ast.GtE, ast.GtE: ast.Lt}
        if len(n.ops) == 1 and type(n.ops[0]) in m:
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [m[type(n.ops[0])]()], n.comparators))
        return n


class Ternary(Base):
    def do_block(self, b):
        out = []
        for s in b:
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
                e = s.value
                a, c = copy.deepcopy(s), copy.deepcopy(s)
                a.value, c.value = e.body, e.orelse
                out.append(ast.If(e.test, [a], [c]))
            else:
                out.append(s)
        return out


class ToTernary(Base):
    """if c: x = a else: x = b -> x = a if c else b"""
    def do_block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1 and isinstance(s.body[0], ast.Assign) and \
                    isinstance(s.orelse[0], ast.Assign) and ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]) \
                    and len(s.body[0].targets) == 1:
                out.append(ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value), lineno=s.lineno))
            elif isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1 and isinstance(s.body[0], ast.Return) and \
                    isinstance(s.orelse[0], ast.Return) and s.body[0].value and s.orelse[0].value:
                out.append(ast.Return(ast.IfExp(s.test, s.body[0].value, s.orelse[0].value)))
            else:
                out.append(s)
        return out


class SplitAnd(Base):
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            body = n.body
            for v in reversed(n.test.values):
                body = [ast.If(v, body, [])]
            return body[0]
        return n


class JoinAnd(Base):
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.If) and not n.body[0].orelse:
            return ast.If(ast.BoolOp(ast.And(), [n.test, n.body[0].test]), n.body[0].body, [])
        return n


class DeMorgan(Base):
    def visit_BoolOp(self, n):
        self.generic_visit(n)
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp):
            op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in n.test.values]))
        return n


class Aug(Base):
    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            return ast.Assign([n.target], ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value), lineno=n.lineno)
        return n


class IsInstSplit(Base):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "isinstance" and isinstance(n.args[1], ast.Tuple) and isinstance(n.args[0], ast.Name):
            return ast.BoolOp(ast.Or(), [call("isinstance", n.args[0], x) for x in n.args[1].elts])
        return n


class InTuple(Base):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(n.comparators[0], (ast.Tuple, ast.Set, ast.List)) and \
                isinstance(n.left, (ast.Name, ast.Attribute)):
            e = ast.BoolOp(ast.Or(), [ast.Compare(n.left, [ast.Eq()], [x]) for x in n.comparators[0].elts])
            return e if isinstance(n.ops[0], ast.In) else ast.UnaryOp(ast.Not(), e)
        return n


class Walrus(Base):
    def do_block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.If):
                t = s.test
                e = t.left if isinstance(t, ast.Compare) else t.operand if isinstance(t, ast.UnaryOp) else t
                if isinstance(e, ast.NamedExpr):
                    out.append(ast.Assign([ast.Name(e.target.id, ast.Store())], e.value, lineno=s.lineno))
                    new = ast.Name(e.target.id, ast.Load())
                    if isinstance(t, ast.Compare):
                        t.left = new
                    elif isinstance(t, ast.UnaryOp):
                        t.operand = new
                    else:
                        s.test = new
            out.append(s)
        return out


class RaiseVar(Base):
    def do_block(self, b):
        out = []
        for s in b:
            if isinstance(s, ast.Raise) and isinstance(s.exc, ast.Call):
                v = self.fresh("error")
                out.append(ast.Assign([ast.Name(v, ast.Store())], s.exc, lineno=s.lineno))
                s.exc = ast.Name(v, ast.Load())
            out.append(s)
        return out


class ChainCmp(Base):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 2 and isinstance(n.comparators[0], PURE):
            return ast.BoolOp(ast.And(), [ast.Compare(n.left, [n.ops[0]], [n.comparators[0]]),
                                          ast.Compare(n.comparators[0], [n.ops[1]], [n.comparators[1]])])
        return n


class WhileTrue(Base):
    def visit_While(self, n):
        self.generic_visit(n)
        if n.orelse or isinstance(n.test, ast.Constant):
            return n
        return ast.While(ast.Constant(True), [ast.If(neg(n.test), [ast.Break()], [])] + n.body, [])


class Inline(Base):
    """x = e; return f(x) -> return f(e) (single use, next statement)"""
    def func(self, f):
        self.uses = {}
        for x in ast.walk(f):
            if isinstance(x, ast.Name):
                self.uses.setdefault(x.id, []).append(x)
        self.generic_visit(f)
        return f

    def do_block(self, b):
        out = list(b)
        i = 0
        while i + 1 < len(out):
            s, t = out[i], out[i + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and \
                    isinstance(t, (ast.Return, ast.Assign, ast.Expr)) and len(self.uses.get(s.targets[0].id, ())) == 2:
                nm = s.targets[0].id
                first = first_eval(t.value) if t.value is not None else None
                if isinstance(first, ast.Name) and first.id == nm:
                    class R(ast.NodeTransformer):
                        def visit_Name(self, n):
                            return s.value if n.id == nm else n
                    t.value = R().visit(t.value)
                    del out[i]
                    continue
            i += 1
        return out


def first_eval(e):
    """The sub-expression evaluated first."""
    while True:
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name):
                if not e.args:
                    return None
                e = e.args[0]
            else:
                e = e.func
        elif isinstance(e, ast.Attribute):
            e = e.value
        elif isinstance(e, ast.Compare):
            e = e.left
        elif isinstance(e, ast.BinOp):
            e = e.left
        elif isinstance(e, ast.Subscript):
            e = e.value
        else:
            return e


class ItemsLoop(Base):
    """for k, v in d.items(): -> for k in d: v = d[k]"""
    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "items" and simple(it.func.value) and \
                isinstance(n.target, ast.Tuple) and len(n.target.elts) == 2 and isinstance(n.target.elts[0], ast.Name):
            d = it.func.value
            k = n.target.elts[0].id
            n.body = [ast.Assign([n.target.elts[1]], ast.Subscript(copy.deepcopy(d), ast.Name(k, ast.Load()), ast.Load()), lineno=n.lineno)] + n.body
            n.target = n.target.elts[0]
            n.iter = d
        return n


class NoOp(Base):
    def func(self, f):
        self.generic_visit(f)
        i = 1 if f.body and isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        f.body.insert(i, ast.Assign([ast.Name("_noop", ast.Store())], ast.Constant(None), lineno=f.lineno))
        return f


class SwapAssign(Base):
    """Adjacent independent self.x = <pure> assignments are swapped."""
    def do_block(self, b):
        out = list(b)
        i = 0
        while i + 1 < len(out):
            s, t = out[i], out[i + 1]
            if self.plain(s) and self.plain(t) and not self.dep(s, t) and not self.dep(t, s):
                out[i], out[i + 1] = t, s
                i += 2
            else:
                i += 1
        return out

    def plain(self, s):
        return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute)) and \
            not any(isinstance(x, (ast.Call, ast.NamedExpr, ast.Yield, ast.Subscript)) for x in ast.walk(s.value))

    def dep(self, s, t):
        a = ast.unparse(s.targets[0])
        return a in ast.unparse(t)


def names_in(nodes, ctx):
    return {x.id for s in nodes for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)}


def bound_in(nodes):
    out = names_in(nodes, ast.Store)
    for s in nodes:
        for x in ast.walk(s):
            if isinstance(x, ast.ExceptHandler) and x.name:
                out.add(x.name)
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                out.add(x.name)
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                out |= {(a.asname or a.name).split(".")[0] for a in x.names}
    return out


def comp_names(nodes):
    return {y.id for s in nodes for x in ast.walk(s) if isinstance(x, ast.comprehension) for y in ast.walk(x.target) if isinstance(y, ast.Name)}


def has(nodes, *kinds):
    return any(isinstance(x, kinds) for s in nodes for x in ast.walk(s))


class Extract(Base):
    """Base for moving statements into new methods/functions of the same class/module."""
    def visit_Module(self, m):
        self.stack = []
        self.new = []
        self.mod = m
        for i, s in enumerate(list(m.body)):
            self.new = []
            r = self.visit(s)
            j = m.body.index(s)
            m.body[j:j + 1] = [r] + self.new if isinstance(s, ast.FunctionDef) else [r]
        return m

    def visit_ClassDef(self, c):
        self.stack.append(c)
        for s in list(c.body):
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                self.new = []
                self.visit(s)
                j = c.body.index(s)
                c.body[j + 1:j + 1] = self.new
        self.new = []
        self.stack.pop()
        return c

    def visit_FunctionDef(self, f):
        if f.decorator_list and any("overload" in ast.unparse(d) or "abstract" in ast.unparse(d) for d in f.decorator_list):
            return f
        if self.only and f.name != self.only or has(f.body, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal):
            return f
        if any(isinstance(x, (ast.FunctionDef, ast.ClassDef)) for s in f.body for x in ast.walk(s)):
            return f
        params = [a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs]
        if f.args.vararg:
            params.append(f.args.vararg.arg)
        if f.args.kwarg:
            params.append(f.args.kwarg.arg)
        kind = "func"
        if self.stack:
            ds = {ast.unparse(d) for d in f.decorator_list}
            kind = "class" if "classmethod" in ds or f.name in ("__init_subclass__", "__new__", "__class_getitem__") else "static" if "staticmethod" in ds else "self"
            if kind != "static" and not params:
                return f
        self.extract(f, params, kind)
        return f

    def helper(self, f, params, kind, body, need, suffix):
        """Make the helper; -> call expression"""
        self.count += 1
        nm = "_" + f.name.strip("_") + "_" + (self.stack[-1].name.lower() + "_" if self.stack else "") + suffix + str(self.count)
        first = params[0] if kind in ("self", "class") else None
        if has_super(body) and kind == "static":
            return None
        ps = ([first] if first else []) + [n for n in need if n != first]
        fd = ast.FunctionDef(nm, ast.arguments([], [ast.arg(p) for p in ps], None, [], [], None, []), body,
                             [ast.Name({"class": "classmethod", "static": "staticmethod"}[kind], ast.Load())] if kind in ("class", "static") else [],
                             None, lineno=1)
        fd.type_params = []
        self.new.append(fd)
        if kind == "func":
            fn = ast.Name(nm, ast.Load())
        elif kind == "static":
            fn = ast.Attribute(ast.Name(self.stack[-1].name, ast.Load()), nm, ast.Load())
        else:
            fn = ast.Attribute(ast.Name(first, ast.Load()), nm, ast.Load())
        return ast.Call(fn, [ast.Name(n, ast.Load()) for n in need if n != first], [])


def has_super(nodes):
    return any(isinstance(x, ast.Name) and x.id == "super" for s in nodes for x in ast.walk(s))


class Tail(Extract):
    """The last statements of a function move to a helper."""
    frac = 0.5

    def extract(self, f, params, kind):
        b = f.body
        doc = 1 if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else 0
        n = len(b) - doc
        if n < 2:
            return
        cut = doc + max(1, int(n * self.frac))
        head, tail = b[:cut], b[cut:]
        if not tail or f.name == "__new__":
            return
        before = set(params)
        for s in head:
            if isinstance(s, (ast.Assign, ast.AnnAssign)) or True:
                before |= bound_in([s])
        used = names_in(tail, ast.Load) & before
        # names possibly unbound
        sure = set(params)
        for s in head:
            if isinstance(s, ast.Assign):
                sure |= bound_in([s])
            elif isinstance(s, ast.AnnAssign) and s.value is not None:
                sure |= bound_in([s])
            elif isinstance(s, ast.With):
                sure |= bound_in(s.body)
            elif isinstance(s, ast.Try):
                x = bound_in(s.body)
                if all(ends(h.body) or bound_in(h.body) >= x for h in s.handlers):
                    sure |= x
            elif isinstance(s, ast.If):
                arms = []
                a = s
                while True:
                    if not ends(a.body):
                        arms.append(bound_in(a.body))
                    if len(a.orelse) == 1 and isinstance(a.orelse[0], ast.If):
                        a = a.orelse[0]
                        continue
                    if not a.orelse:
                        arms.append(set())
                    elif not ends(a.orelse):
                        arms.append(bound_in(a.orelse))
                    break
                if arms:
                    sure |= set.intersection(*arms)
        comp = comp_names(head) - {x for s in head if isinstance(s, ast.Assign) for x in names_in(s.targets, ast.Store)} - set(params)
        if (used - sure) - comp - comp_names(tail):
            return
        need = [n for n in sorted(used & sure)]
        c = self.helper(f, params, kind, tail, need, "rest")
        if c is None:
            return
        f.body = head + [ast.Return(c)]


class Tail2(Tail):
    frac = 0.75


class Tail3(Tail):
    frac = 0.25


class Whole(Tail):
    """def f(..): return self._f_impl(..)"""
    def extract(self, f, params, kind):
        b = f.body
        doc = 1 if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else 0
        if len(b) - doc < 2 or f.name == "__new__" or not self.stack and False:
            return
        tail = b[doc:]
        need = [p for p in params if p in names_in(tail, ast.Load) | names_in(tail, ast.Store)]
        c = self.helper(f, params, kind, tail, need, "impl")
        if c is not None:
            f.body = b[:doc] + [ast.Return(c)]


class LoopBody(Extract):
    """Loop bodies become helpers when they neither leave the loop nor assign locals."""
    def extract(self, f, params, kind):
        bound = set(params) | bound_in(f.body)
        for x in [y for s in f.body for y in ast.walk(s)]:
            if isinstance(x, ast.For) and not has(x.body, ast.Break, ast.Continue, ast.Return) and not (len(x.body) == 1 and isinstance(x.body[0], ast.Expr)):
                st = bound_in(x.body)
                outside = names_in([y for y in ast.walk(f) if isinstance(y, ast.Name) and not any(y is z for s in x.body for z in ast.walk(s))], ast.Load)
                if st & outside or any(isinstance(z, ast.AugAssign) and isinstance(z.target, ast.Name) for s in x.body for z in ast.walk(s)):
                    continue
                used = names_in(x.body, ast.Load) & bound - st
                c = self.helper(f, params, kind, x.body, sorted(used), "each")
                if c is not None:
                    x.body = [ast.Expr(c)]


class CondHelper(Extract):
    """Compound if-tests become predicates."""
    def extract(self, f, params, kind):
        bound = set(params) | bound_in(f.body)
        for x in [y for s in f.body for y in ast.walk(s)]:
            if isinstance(x, ast.If) and isinstance(x.test, (ast.BoolOp, ast.Compare)) and not has([x.test], ast.NamedExpr, ast.Lambda):
                used = names_in([x.test], ast.Load) & bound - comp_names([x.test])
                c = self.helper(f, params, kind, [ast.Return(x.test)], sorted(used), "test")
                if c is not None:
                    x.test = c


class ValueHelper(Extract):
    """x = <expr with call> becomes x = self._helper(..)."""
    def extract(self, f, params, kind):
        bound = set(params) | bound_in(f.body)
        for x in [y for s in f.body for y in ast.walk(s)]:
            if isinstance(x, ast.Assign) and isinstance(x.value, (ast.Call, ast.BinOp, ast.Subscript)) and not has([x.value], ast.NamedExpr, ast.Lambda, ast.GeneratorExp):
                if has_super([x.value]):
                    continue
                used = names_in([x.value], ast.Load) & bound - comp_names([x.value])
                c = self.helper(f, params, kind, [ast.Return(x.value)], sorted(used), "value")
                if c is not None:
                    x.value = c


class IfBody(Extract):
    """The body of an if that neither returns nor assigns locals becomes a helper; one that ends in return too."""
    def extract(self, f, params, kind):
        bound = set(params) | bound_in(f.body)
        for x in [y for s in f.body for y in ast.walk(s)]:
            if isinstance(x, ast.If) and len(x.body) >= 1 and not has(x.body, ast.Break, ast.Continue):
                st = bound_in(x.body)
                comp = comp_names(x.body)
                always = ends(x.body) and not has(x.body, ast.Yield)
                if has(x.body, ast.Return) and not always:
                    continue
                if not always and st - comp:
                    continue
                if any(isinstance(z, ast.Raise) and z.exc is None for s in x.body for z in ast.walk(s)):
                    continue
                if len(x.body) == 1 and isinstance(x.body[0], (ast.Return, ast.Pass)):
                    continue
                if not always and len(x.body) == 1 and isinstance(x.body[0], ast.Expr):
                    continue
                used = names_in(x.body, ast.Load) & bound - comp
                if has(x.body, ast.AugAssign) or (st - comp) & used and not always:
                    continue
                need = sorted(n for n in used if n not in st or n in params)
                if used - set(need) and not always:
                    continue
                c = self.helper(f, params, kind, x.body, need, "case")
                if c is not None:
                    x.body = [ast.Return(c)] if always else [ast.Expr(c)]


T = {k.__name__: k for k in (ForNext, RangeLen, WhileIdx, InvertIf, EarlyElse, InvertEarly, DropElse, TmpReturn, TmpArgs, TmpTest, Recv, Rename, ForWhile, CompLoop, Flip,
                             NotIs, Ternary, ToTernary, SplitAnd, JoinAnd, DeMorgan, Aug, IsInstSplit, InTuple, Walrus, RaiseVar,
                             ChainCmp, WhileTrue, Inline, ItemsLoop, NoOp, SwapAssign, Tail, Tail2, Tail3, Whole, LoopBody,
                             CondHelper, ValueHelper, IfBody)}


def apply(name, repo, only=None):
    n = 0
    of, ofn = (only.split(":") + [None])[:2] if only else (None, None)
    for dp, dn, fs in os.walk(os.path.join(repo, "binobj")):
        for f in fs:
            if not f.endswith(".py"):
                continue
            p = os.path.join(dp, f)
            if of and of not in p:
                continue
            src = open(p).read()
            tree = ast.parse(src)
            new = T[name](ofn).visit(tree)
            ast.fix_missing_locations(new)
            out = ast.unparse(new) + "\n"
            compile(out, p, "exec")
            if ast.dump(ast.parse(src)) != ast.dump(ast.parse(out)):
                n += 1
                open(p, "w").write(out)
    return n


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-T"); ap.add_argument("-p"); ap.add_argument("-t", action="store_true"); ap.add_argument("--only")
    ap.add_argument("-j", type=int, default=3); ap.add_argument("--keep")
    a = ap.parse_args()
    names = a.T.split(",") if a.T else list(T)
    props = a.p.split(",") if a.p else [f"C{i:02d}" for i in range(1, 30)]
    root = tempfile.mkdtemp(prefix="autoref_", dir="/tmp")

    def one(nm):
        d = a.keep or os.path.join(root, nm.replace("+", "_"))
        if os.path.isdir(d):
            shutil.rmtree(d)
        os.makedirs(d)
        shutil.copytree("/repo", d + "/r", ignore=shutil.ignore_patterns(".git", "__pycache__"))
        n = sum(apply(x, d + "/r", a.only) for x in nm.split("+"))
        msg = []
        if a.t:
            t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--no-header", "tests"],
                               cwd=d + "/r", capture_output=True, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=d + "/r"))
            tail = (t.stdout.strip().splitlines() or [""])[-1]
            if " failed" in tail or " error" in tail or " passed" not in tail:
                msg.append("TESTS " + tail)
                msg += [l for l in t.stdout.splitlines() if l.startswith("E ")][:4]
        for p in props:
            try:
                x = subprocess.run([sys.executable, "-m", "sa", p], cwd=VERIF, capture_output=True, text=True, timeout=900,
                                   env=dict(os.environ, BINOBJ_REPO=d + "/r", SA_EVIDENCE=d + "/ev", PYTHONDONTWRITEBYTECODE="1"))
            except subprocess.TimeoutExpired:
                msg.append(f"{p} TIMEOUT")
                continue
            for l in x.stdout.splitlines():
                if l.startswith("  violated") or l.startswith("  undecided"):
                    msg.append(f"{p} {l.strip()}"[:230])
            if x.returncode not in (0, 1):
                msg.append(f"{p} rc={x.returncode} {x.stderr[-300:]}")
        return nm, n, msg
    try:
        with cf.ThreadPoolExecutor(a.j) as ex:
            for nm, n, msg in ex.map(one, names):
                bad = [m for m in msg if " undecided " not in m]
                print(f"{nm}: {n} files, {len(bad)} problems, {len(msg) - len(bad)} undecided")
                for m in bad[:30] + [m for m in msg if " undecided " in m][:8]:
                    print("   ", m)
                sys.stdout.flush()
    finally:
        shutil.rmtree(root, ignore_errors=True)


if __name__ == "__main__":
    main()
