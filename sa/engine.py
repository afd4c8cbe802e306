"""Path-sensitive abstract interpretation of the package's syntax trees.

Executes nothing: each function is walked over provenance terms (see terms.py), forking on conditions the facts do
not decide, inlining in-package helpers, and abstracting each loop by zero iterations or one generic iteration from a
havocked state.  The result of analysing an entry point is a list of Paths (outcome + events + facts).
"""
import ast
import builtins
import itertools
import sys

from .loader import Program, FuncInfo, AnalysisBroken, has_yield
from .terms import *

sys.setrecursionlimit(20000)


class TooComplex(Exception):
    pass


# Method names treated as opaque operations on fields/structs (events), never inlined on a non-super call.
VOCAB = {
    "from_stream", "to_stream", "from_bytes", "to_bytes", "_do_load", "_do_dump", "compute_value_for_dump",
    "validate_contents", "get_expected_size", "to_dict", "partial_load", "partial_dump", "get_field",
    "bind_to_container", "get_size", "make_field_instance",
}

NEVER_NONE_METHODS = {"getvalue", "getbuffer", "tell", "encode", "to_bytes", "decode"}
PURE_BUILTINS = {"len", "isinstance", "issubclass", "hasattr", "callable", "type", "id", "repr", "str", "abs", "min",
                 "max", "int", "float", "bool", "bytes", "tuple", "frozenset", "chr", "ord", "round", "hash",
                 "divmod", "hex", "format", "object", "vars", "dir"}

CANNOT_RAISE = {"len", "isinstance", "issubclass", "hasattr", "callable", "type", "id", "repr", "bool", "object",
                "vars", "dict", "list", "set", "tuple"}

CONTAINERS = {"list", "dict", "set", "bytearray", "collections.OrderedDict", "collections.defaultdict",
              "collections.deque", "defaultdict", "OrderedDict", "deque"}

IMMUT = ("str", "bytes", "int", "float", "bool")

# What known external conversions can raise (besides nothing).
CONV_RAISES = {
    "struct.pack": ["struct.error", "OverflowError"],
    "struct.unpack": ["struct.error"],
    "int.from_bytes": [],
    "to_bytes": ["OverflowError"],
    "encode": ["UnicodeError"],
    "decode": ["UnicodeError"],
    "uuid.UUID": ["ValueError"],
    "datetime.datetime.fromtimestamp": ["OverflowError", "ValueError", "OSError"],
    "timestamp": ["OverflowError", "ValueError"],
}

# ... and what iterating over their result can raise
ITER_RAISES = {"codecs.iterdecode": ["UnicodeError"], "codecs.iterencode": ["UnicodeError"]}

EXT_EXC_BASES = {"struct.error": ["struct.error", "Exception", "BaseException"],
                 "uuid.SafeUUID": []}


class Ty(tuple):
    """(name, args, optional)"""
    def __new__(cls, name, args=(), optional=False):
        return tuple.__new__(cls, (name, tuple(args), optional))
    name = property(lambda s: s[0])
    args = property(lambda s: s[1])
    optional = property(lambda s: s[2])


MAPPING_TYPES = {"dict", "Mapping", "MutableMapping", "OrderedDict", "defaultdict", "ChainMap"}
SEQ_TYPES = {"list", "Sequence", "MutableSequence", "tuple", "Iterable", "Iterator", "Collection", "set", "frozenset",
             "Generator", "AbstractSet", "KeysView", "ValuesView"}
SIZED_IMM = {"bytes", "str"}
NUMERIC = {"int", "float"}


class Event:
    __slots__ = ("kind", "name", "recv", "args", "kw", "res", "node", "fn", "file", "loops", "tries", "facts", "extra",
                 "idx")

    def __init__(self, kind, name=None, recv=None, args=(), kw=None, res=None, extra=None):
        self.kind, self.name, self.recv, self.args, self.kw, self.res, self.extra = (
            kind, name, recv, tuple(args), kw or {}, res, extra)
        self.node = self.fn = self.file = self.facts = None
        self.loops = self.tries = ()
        self.idx = None

    @property
    def line(self):
        return getattr(self.node, "lineno", 0)

    def where(self):
        return f"{self.file}:{self.line} ({self.fn})"

    def __repr__(self):
        a = ", ".join([show(x) for x in self.args] + [f"{k}={show(v)}" for k, v in self.kw.items()])
        r = (show(self.recv) + ".") if self.recv is not None else ""
        return f"[{self.kind} {r}{self.name or ''}({a})" + (f" -> {show(self.res)}" if self.res else "") + \
            (f" {self.extra}" if self.extra else "") + f" @{self.line} L{self.loops}]"


class State:
    __slots__ = ("env", "heap", "ver", "facts", "ev", "taint", "loops", "tries", "types", "cont", "excs", "depth",
                 "loopinfo")

    def __init__(self):
        self.env, self.heap, self.ver, self.types, self.cont = {}, {}, {}, {}, {}
        self.facts = Facts()
        self.ev = None
        self.taint = ()
        self.loops = ()
        self.tries = ()
        self.excs = ()
        self.depth = 0
        self.loopinfo = {}

    def copy(self):
        s = State.__new__(State)
        s.env, s.heap, s.ver = dict(self.env), dict(self.heap), dict(self.ver)
        s.types, s.cont, s.loopinfo = dict(self.types), dict(self.cont), dict(self.loopinfo)
        s.facts, s.ev, s.taint = self.facts, self.ev, self.taint
        s.loops, s.tries, s.excs, s.depth = self.loops, self.tries, self.excs, self.depth
        return s

    def with_facts(self, f):
        s = self.copy()
        s.facts = f
        return s

    def tainted(self, why):
        if why in self.taint:
            return self
        s = self.copy()
        s.taint = s.taint + (why,)
        return s


class Frame:
    __slots__ = ("fid", "fn", "module", "cls", "parent", "locals", "on_yield", "self_term")

    def __init__(self, fid, fn, module, cls, parent=None):
        self.fid, self.fn, self.module, self.cls, self.parent = fid, fn, module, cls, parent
        self.locals = set()
        self.on_yield = None
        self.self_term = None


class Path:
    result = None

    def __init__(self, kind, value, st, entry):
        self.kind, self.value, self.entry = kind, value, entry
        evs = []
        n = st.ev
        while n is not None:
            evs.append(n[1])
            n = n[0]
        evs.reverse()
        self.events = evs
        self.facts = st.facts
        self.taint = st.taint
        self.loopinfo = st.loopinfo
        self.state = st

    def calls(self, *names):
        return [e for e in self.events if e.kind == "call" and (not names or e.name in names)]

    def describe(self, limit=40):
        out = [f"entry {self.entry}", f"outcome {self.kind} {show(self.value) if isinstance(self.value, tuple) else self.value}"]
        out += ["event " + repr(e) for e in self.events[-limit:]]
        out += ["fact " + x for x in self.facts.show()[:60]]
        if self.taint:
            out.append(f"unmodelled: {self.taint}")
        return out


def assigned_names(nodes):
    """Names stored anywhere in these statements (not in nested function bodies)."""
    out = set()
    stack = list(nodes)
    while stack:
        n = stack.pop()
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # only walrus targets leak
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)
            continue
        stack.extend(ast.iter_child_nodes(n))
    return out


def strip_copies(t):
    while t[0] == "copy":
        t = t[3]
    return t


PURE_FORMAT = ("str", "repr", "len", "format", "hex", "chr", "ord", "ascii", "bin", "type", "int", "bool", "sorted", "bytes")


class Engine:
    def __init__(self, prog, entry_vocab=VOCAB, fork_all=False, conv_raises=False, inline=(), opaque=(), max_paths=40000,
                 max_depth=14, assume=()):
        self.p = prog
        self.assume = dict(assume)          # class attribute -> literal names it is taken to hold
        self.vocab = set(entry_vocab) - set(inline) | set(opaque)
        self.opaque_funcs = frozenset(opaque)
        self.fork_all = fork_all
        self.conv_raises = conv_raises
        self.seq = itertools.count(1)
        self.frames = {}
        self.max_paths = max_paths
        self.max_states = 10 * max_paths
        self.max_depth = max_depth
        self.stack = []
        self.lams = {}
        self.dictlits = {}
        self.gens = {}
        self.loopbacks = []
        self.functions_seen = set()
        self.n_states = 0
        self.raise_filter = None
        self.exact = {}
        self.dry = 0
        self.FIELD = self._cls("binobj.fields", "Field")
        self.STRUCT = self._cls("binobj.structures", "Struct")
        self.ERROR = self._cls("binobj.errors", "Error")

    def _cls(self, mod, name):
        r = self.p.lookup(mod, name)
        if not r or r[0] != "cls":
            raise AnalysisBroken(f"public class {mod}.{name} not found")
        return r[1]

    # ================================================================ types
    def parse_ann(self, module, e, cls=None, depth=0):
        if e is None or depth > 8:
            return None
        if isinstance(e, ast.Constant):
            if e.value is None:
                return Ty("None")
            if isinstance(e.value, str):
                try:
                    return self.parse_ann(module, ast.parse(e.value, mode="eval").body, cls, depth + 1)
                except SyntaxError:
                    return None
            return None
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            return self._union([self.parse_ann(module, e.left, cls, depth + 1),
                                self.parse_ann(module, e.right, cls, depth + 1)])
        if isinstance(e, ast.Subscript):
            base = self.p.resolve_expr(module, e.value)
            n = base[1].split(".")[-1] if base and base[0] in ("ext", "cls") else None
            args = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
            if n == "Optional":
                t = self.parse_ann(module, args[0], cls, depth + 1)
                return Ty(t.name, t.args, True) if t else Ty("Any", (), True)
            if n in ("Union", "_Union") and base[0] == "ext":
                return self._union([self.parse_ann(module, a, cls, depth + 1) for a in args])
            if n in ("Final", "ClassVar", "Annotated", "Required"):
                return self.parse_ann(module, args[0], cls, depth + 1)
            if n == "Literal":
                return Ty("str")
            if n == "Callable":
                return Ty("Callable")
            if n == "type" or n == "Type":
                return Ty("type", [self.parse_ann(module, args[0], cls, depth + 1) or Ty("Any")])
            at = [self.parse_ann(module, a, cls, depth + 1) or Ty("Any") for a in args if not isinstance(a, (ast.List,))]
            if base and base[0] == "cls":
                return Ty(base[1], at)
            if n:
                if n in ("Dict", "List", "Tuple", "Set", "FrozenSet"):
                    n = n.lower()
                return Ty(n, at)
            return None
        if isinstance(e, (ast.Name, ast.Attribute)):
            if isinstance(e, ast.Name):
                r = self.p.lookup(module.name, e.id)
                if r is None:
                    return Ty(e.id)
                if r[0] == "expr":
                    if isinstance(r[1], ast.Call):   # TypeVar etc.
                        for kw in r[1].keywords:
                            if kw.arg == "bound":
                                return self.parse_ann(r[2], kw.value, cls, depth + 1)
                        return Ty("Any")
                    return self.parse_ann(r[2], r[1], cls, depth + 1)
            else:
                r = self.p.resolve_expr(module, e)
            if r is None:
                return None
            if r[0] == "cls":
                return Ty(r[1])
            if r[0] == "ext":
                n = r[1].split(".")[-1]
                if n == "Self" and cls:
                    return Ty(cls)
                if n in ("Dict", "List", "Tuple", "Set", "FrozenSet"):
                    n = n.lower()
                return Ty(n)
        return None

    def _union(self, ts):
        opt = any(t and (t.name == "None" or t.optional) for t in ts)
        rest = [t for t in ts if t and t.name != "None" and not (t.name in self.p.classes and t.name.split(".")[-1].startswith("_"))]
        if len(rest) == 1:
            return Ty(rest[0].name, rest[0].args, opt)
        if rest and all(t.name == rest[0].name for t in rest):
            return Ty(rest[0].name, rest[0].args, opt)
        return Ty("Union", [t for t in rest], opt)

    def attr_type(self, cq, name):
        key = ("at", cq, name)
        if key in self.exact:
            return self.exact[key]
        self.exact[key] = None
        ty = None
        c = self.p.classes.get(cq)
        if c:
            for k in c.mro:
                ci = self.p.classes[k]
                if name in ci.methods:
                    fi = ci.methods[name]
                    if fi.has_deco("property", "cached_property"):
                        ty = self.parse_ann(ci.module, fi.node.returns, k)
                        break
                    break
                if name in ci.ann:
                    ty = self.parse_ann(ci.module, ci.ann[name], k)
                    if ty is not None:
                        break
                t2 = self._init_attr_type(ci, name)
                if t2 is not None:
                    ty = t2
                    break
        self.exact[key] = ty
        return ty

    def _init_attr_type(self, ci, name):
        init = ci.methods.get("__init__")
        if not init:
            return None
        fns = [init] + [f for f in ci.methods.values() if f is not init and f.params() and f.name.startswith("_")
                        and not f.name.startswith("__") and set(self.p.roots(f)) == {init.qual}]
        for fi in fns:
            t = self._assigned_type(ci, fi, name)
            if t is not None:
                return t
        return None

    def param_annotation(self, fi, name, depth=0):
        """The annotation of a parameter; for a private helper, the one its (only) caller passes on under."""
        a = fi.annotation(name)
        if a is not None or name not in fi.all_params():
            return a
        cs = self.p.callers(fi) if depth < 6 else None
        if not cs or len(cs) != 1:
            return None
        calls = [n for n in ast.walk(cs[0].node) if isinstance(n, ast.Call) and isinstance(n.func, (ast.Attribute, ast.Name))
                 and (n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id) == fi.name]
        if len(calls) != 1 or any(isinstance(x, ast.Starred) for x in calls[0].args):
            return None
        c = calls[0]
        e = next((k.value for k in c.keywords if k.arg == name), None)
        if e is None and name in fi.params():
            i = fi.params().index(name)
            if isinstance(c.func, ast.Attribute) and fi.cls is not None and "staticmethod" not in fi.decorators:
                i -= 1
            e = c.args[i] if 0 <= i < len(c.args) else None
        if not isinstance(e, ast.Name):
            return None
        if any(isinstance(n, ast.Name) and n.id == e.id and isinstance(n.ctx, ast.Store) for n in ast.walk(cs[0].node)):
            return None
        return self.param_annotation(cs[0], e.id, depth + 1)

    def _assigned_type(self, ci, fi, name):
        for n in ast.walk(fi.node):
            tgt = val = ann = None
            if isinstance(n, ast.Assign) and len(n.targets) == 1:
                tgt, val = n.targets[0], n.value
            elif isinstance(n, ast.AnnAssign):
                tgt, val, ann = n.target, n.value, n.annotation
            if isinstance(tgt, ast.Attribute) and tgt.attr == name and isinstance(tgt.value, ast.Name) and \
                    fi.params() and tgt.value.id == fi.params()[0]:
                if ann is not None:
                    return self.parse_ann(ci.module, ann, ci.qual)
                if isinstance(val, ast.Name):
                    a = self.param_annotation(fi, val.id)
                    if a is not None:
                        return self.parse_ann(ci.module, a, ci.qual)
                    if fi.node.args.vararg and fi.node.args.vararg.arg == val.id:
                        return Ty("tuple", [Ty("Any")])
                if isinstance(val, (ast.ListComp, ast.List)):
                    return Ty("list", [Ty("Any")])
                if isinstance(val, ast.Call) and isinstance(val.func, ast.Name) and val.func.id in (
                        "list", "tuple", "dict", "set"):
                    return Ty(val.func.id, [Ty("Any")])
        return None

    def typeof(self, t, st):
        k = t[0]
        if k == "c":
            return Ty(t[1]) if t[2] is not None else Ty("None")
        if t in st.types:
            return st.types[t]
        if k == "lin":
            return Ty("int")
        if k == "attr":
            bt = self.typeof(t[1], st)
            if bt and bt.name in self.p.classes:
                r = self.attr_type(bt.name, t[2])
                if r is not None:
                    return r
            if bt and bt.name == "type" and bt.args and bt.args[0].name in self.p.classes:
                return self.attr_type(bt.args[0].name, t[2])
            if t[1][0] == "cls":
                return self.attr_type(t[1][1], t[2])
            if t[2] in ("__name__", "__qualname__", "__module__"):
                return Ty("str")
            return None
        if k in ("elem", "sub"):
            if k == "sub" and t[2][0] == "slice":
                return self.typeof(t[1], st)
            bt = self.typeof(t[1], st)
            if bt:
                if bt.name in MAPPING_TYPES and len(bt.args) == 2:
                    return bt.args[1]
                if bt.name in SEQ_TYPES and bt.args:
                    return bt.args[0]
                if bt.name in ("bytes", "bytearray"):
                    return Ty("int")
                if bt.name == "str":
                    return Ty("str")
            return None
        if k == "key":
            bt = self.typeof(t[1], st)
            if bt and bt.name in MAPPING_TYPES and bt.args:
                return bt.args[0]
            return None
        if k == "idx":
            return Ty("int")
        if k == "app":
            if t[1] in ("len", "int", "ord", "id", "hash", "struct.calcsize", "bit_length"):
                return Ty("int")
            if t[1] in ("str", "repr"):
                return Ty("str")
            if t[1] in ("list", "tuple", "set", "dict", "bytes", "frozenset", "float", "bool"):
                inner = self.typeof(t[2], st) if len(t) > 2 and isinstance(t[2], tuple) else None
                return Ty(t[1], inner.args[:1] if inner and t[1] in ("list", "tuple", "set") else ())
            return None
        if k == "copy":
            if t[2] in ("list", "tuple", "set"):
                bt = self.typeof(t[3], st)
                return Ty(t[2], bt.args[-1:] if bt and bt.args else ())
            if t[2] == "dict":
                bt = self.typeof(t[3], st)
                return Ty("dict", bt.args if bt and len(bt.args) == 2 else ())
            return self.typeof(t[3], st)
        if k == "new":
            return Ty(t[2])
        if k == "fstr":
            return Ty("str")
        if k == "tup":
            return Ty("tuple")
        if k == "op":
            a = self.typeof(t[2], st)
            if t[1] == "/" :
                return Ty("float")
            if a and a.name in ("bytes", "str", "int", "float", "list", "bytearray"):
                return Ty(a.name, a.args)
            b = self.typeof(t[3], st)
            if b and b.name in ("bytes", "str") and t[1] in ("+", "*"):
                return Ty(b.name)
            if t[1] in ("&", "|", "<<", ">>", "//", "%", "^"):
                return Ty("int")
            return b if t[1] != "%" else None
        if k == "un":
            return Ty("int")
        if k == "exc":
            return Ty(t[2])
        if k == "phi":
            return None
        return None

    def is_numeric(self, t, st):
        if t[0] in ("lin", "idx"):
            return True
        if is_num_const(t):
            return True
        if t[0] == "c":
            return False
        ty = self.typeof(t, st)
        return bool(ty and ty.name == "int")

    # ================================================================ events
    def emit(self, st, ev, node):
        ev.node = node
        fr = self.frames[self.stack[-1]] if self.stack else None
        if fr is not None:
            ev.fn, ev.file = fr.fn.qual, fr.module.relpath
        ev.loops, ev.tries, ev.facts = st.loops, st.tries, st.facts
        s = st.copy()
        s.ev = (st.ev, ev)
        self.n_states += 1
        if self.n_states > self.max_states:
            raise TooComplex("state budget exhausted")
        return s

    def new(self, st, kind, node=None):
        t = ("new", next(self.seq), kind)
        return t

    def raised(self, st, exc):
        return [("r", exc, st)]

    # ================================================================ expressions
    def ev(self, e, st):
        m = getattr(self, "ev_" + type(e).__name__, None)
        if m is None:
            return [("v", ("unk", next(self.seq)), st.tainted(f"expression {type(e).__name__}"))]
        return m(e, st)

    def ev_list(self, exprs, st):
        """Evaluate expressions left to right: list of ('v',[terms],st) / ('r',exc,st)."""
        res = [("v", [], st)]
        for e in exprs:
            nxt = []
            for tag, vals, s in res:
                if tag == "r":
                    nxt.append((tag, vals, s))
                    continue
                if isinstance(e, ast.Starred):
                    for t2, v, s2 in self.ev(e.value, s):
                        if t2 == "r":
                            nxt.append((t2, v, s2))
                        else:
                            v = self.force_gen_value(v, s2)
                            if v[0] == "tup":
                                nxt.append(("v", vals + list(v[1]), s2))
                            else:
                                nxt.append(("v", vals + [("star", v)], s2))
                else:
                    for t2, v, s2 in self.ev(e, s):
                        nxt.append((t2, vals + [v] if t2 == "v" else v, s2))
            res = nxt
            self.limit(res)
        return res

    def limit(self, res):
        if len(res) > self.max_paths:
            raise TooComplex(f"{len(res)} paths")

    def force_gen_value(self, v, st):
        return v

    def then(self, results, f):
        out = []
        for tag, v, s in results:
            if tag == "r":
                out.append((tag, v, s))
            else:
                out.extend(f(v, s))
        self.limit(out)
        return out

    def ev_Constant(self, e, st):
        if e.value is Ellipsis:
            return [("v", ("c", "ellipsis", None), st)]
        return [("v", C(e.value), st)]

    def ev_JoinedStr(self, e, st):
        exprs = [v.value for v in e.values if isinstance(v, ast.FormattedValue)]
        def f(vals, s):
            # rendering an object calls its __repr__/__str__; not modelled, has no effect on the data
            it = iter(vals)
            parts = []
            for v in e.values:
                if isinstance(v, ast.FormattedValue):
                    x = next(it)
                    if v.format_spec is not None or v.conversion not in (-1, 115):
                        x = ("app", "format", x, C(ast.dump(v.format_spec) if v.format_spec else chr(v.conversion)))
                    parts.append(x)
                elif isinstance(v, ast.Constant):
                    parts.append(C(v.value))
            return [("v", ("fstr", tuple(parts)), s)]
        return self.then(self.ev_list(exprs, st), f)

    def ev_Name(self, e, st):
        return [("v", *self.name(e.id, st))]

    def name(self, n, st):
        fid = self.stack[-1] if self.stack else None
        f = fid
        while f is not None:
            fr = self.frames[f]
            if (f, n) in st.env:
                return st.env[(f, n)], st
            if n in fr.locals:
                return ("unk", next(self.seq)), st.tainted(f"unbound local {n}")
            f = fr.parent
        mod = self.frames[fid].module if fid is not None else None
        return self.global_name(mod, n, st)

    def global_name(self, mod, n, st):
        r = self.p.lookup(mod.name, n)
        if r is None:
            if hasattr(builtins, n):
                return ("ext", n), st
            return ("unk", next(self.seq)), st.tainted(f"unresolved name {n}")
        return self.symbol_value(r, st, mod.name + "." + n)

    def symbol_value(self, r, st, qual):
        if r[0] == "ext":
            return ("ext", r[1][9:] if r[1].startswith("builtins.") else r[1]), st
        if r[0] == "expr":
            return self.static_value(r[2], r[1], st, qual)
        if r[0] == "cls":
            return ("cls", r[1]), st
        if r[0] == "fn":
            return ("fn", r[1]), st
        return r, st

    def static_value(self, module, e, st, qual):
        """Value of a module- or class-level assignment."""
        if isinstance(e, ast.Constant):
            return C(e.value), st
        if isinstance(e, (ast.Dict, ast.List, ast.Set)):
            return ("glob", qual, id(e)), self._register_glob(e, module, st, qual)
        if isinstance(e, ast.Tuple):
            vals = []
            for x in e.elts:
                v, st = self.static_value(module, x, st, qual)
                vals.append(v)
            return ("tup", tuple(vals)), st
        if isinstance(e, (ast.Name, ast.Attribute)):
            if isinstance(e, ast.Name):
                r = self.p.lookup(module.name, e.id)
                if r is None:
                    return ("ext", e.id), st
                return self.symbol_value(r, st, module.name + "." + e.id)
            b, st = self.static_value(module, e.value, st, qual)
            return self.getattr_static(b, e.attr, st)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant):
            return C(-e.operand.value), st
        if isinstance(e, ast.BinOp):
            a, st = self.static_value(module, e.left, st, qual)
            b, st = self.static_value(module, e.right, st, qual)
            return self.binop(OPS.get(type(e.op), "?"), a, b, st), st
        if isinstance(e, ast.Call):
            f, st = self.static_value(module, e.func, st, qual) if isinstance(e.func, (ast.Name, ast.Attribute)) else (None, st)
            if f and f[0] == "ext" and f[1] in ("frozenset", "dict", "tuple", "list", "set", "types.MappingProxyType") and len(e.args) == 1:
                return self.static_value(module, e.args[0], st, qual)
            if f == ("ext", "getattr") and len(e.args) in (2, 3) and isinstance(e.args[1], ast.Constant):
                b, st = self.static_value(module, e.args[0], st, qual)
                if b[0] == "ext":
                    return ("ext", f"{b[1]}.{e.args[1].value}"), st
            if f and f[0] == "cls":
                ci = self.p.classes[f[1]]
                fields = self.dataclass_fields(f[1])
                kw = {}
                names = [x[0] for x in fields]
                for i, a in enumerate(e.args):
                    if i < len(names):
                        kw[names[i]] = a
                for k in e.keywords:
                    if k.arg:
                        kw[k.arg] = k.value
                t = ("new", "static:" + qual + ":" + str(id(e)), f[1])
                s = st.copy()
                for k, v in kw.items():
                    val, s2 = self.static_value(module, v, s, qual)
                    s = s2.copy() if s2 is not s else s
                    s.heap[(t, k)] = val
                return t, s
        return ("globv", qual), st

    def _register_glob(self, e, module, st, qual):
        self.lams.setdefault(("glob", id(e)), (e, module, qual))
        return st

    def glob_items(self, t, st):
        """Literal content of a module/class-level dict/list/set: list of (key, value) or values."""
        e, module, qual = self.lams[("glob", t[2])]
        out = []
        if isinstance(e, ast.Dict):
            for k, v in zip(e.keys, e.values):
                if k is None:
                    return None, st
                kk, st = self.static_value(module, k, st, qual)
                vv, st = self.static_value(module, v, st, qual + "[" + show(kk) + "]")
                out.append((kk, vv))
        else:
            for v in e.elts:
                vv, st = self.static_value(module, v, st, qual)
                out.append((vv, vv))
        return out, st

    def dataclass_fields(self, cq):
        """[(name, annotation, default expr or None, module)] in definition order."""
        out = {}
        for k in reversed(self.p.classes[cq].mro):
            ci = self.p.classes[k]
            if not ci.is_dataclass:
                continue
            for n, a in ci.ann.items():
                src = ast.unparse(a)
                if "ClassVar" in src:
                    continue
                out[n] = (n, a, ci.attrs.get(n), ci.module)
        return list(out.values())

    def ev_Attribute(self, e, st):
        return self.then(self.ev(e.value, st), lambda b, s: self.getattr(b, self.mangle(e.attr), s, e))

    def mangle(self, a):
        if a.startswith("__") and not a.endswith("__"):
            fr = self.frames[self.stack[-1]]
            f = fr
            while f is not None and f.cls is None:
                f = self.frames[f.parent] if f.parent is not None else None
            if f is not None:
                return "_" + f.cls.split(".")[-1].lstrip("_") + a
        return a

    def find_meth(self, cq, name, after=None):
        fi = self.p.find_method(cq, name, after)
        if fi is None and name.startswith("_") and "__" in name:
            # mangled private name: _Cls__name is defined as __name in Cls
            for k in self.p.classes[cq].mro:
                ci = self.p.classes[k]
                pre = "_" + ci.name.lstrip("_")
                if name.startswith(pre + "__") and name[len(pre):] in ci.methods:
                    return ci.methods[name[len(pre):]]
        return fi

    def getattr_static(self, b, a, st):
        if b[0] == "mod":
            r = self.p.lookup(b[1], a)
            if r is None:
                return ("ext", b[1] + "." + a), st
            return self.symbol_value(r, st, b[1] + "." + a)
        if b[0] == "ext":
            return ("ext", b[1] + "." + a), st
        if b[0] == "cls":
            ca = self.p.find_class_attr(b[1], a)
            if ca and ca[0] == "value":
                if self.is_enum(b[1]):
                    return ("enum", ca[1].qual, a), st
                return self.static_value(ca[1].module, ca[2], st, ca[1].qual + "." + a)
            if ca and ca[0] == "method":
                return ("fn", ca[2].qual), st
        return ("attr", b, a), st

    def is_enum(self, cq):
        for k in self.p.classes[cq].mro:
            for b in self.p.classes[k].bases:
                if b and b[0] == "ext" and b[1].split(".")[-1] in ("Enum", "IntEnum", "StrEnum", "Flag", "IntFlag"):
                    return True
        return False

    def enum_members(self, cq):
        return [n for n, v in self.p.classes[cq].attrs.items() if not n.startswith("_")]

    def getattr(self, b, a, st, node):
        """Attribute read; returns results list."""
        if (b, a) in st.heap:
            return [("v", st.heap[(b, a)], st)]
        k = b[0]
        if k in ("mod", "ext"):
            v, s = self.getattr_static(b, a, st)
            return [("v", v, s)]
        if k == "cls":
            if a in ("__name__", "__qualname__", "__module__"):
                return [("v", ("attr", b, a), st)]
            ca = self.p.find_class_attr(b[1], a)
            if ca is None and self.find_meth(b[1], a):
                ca = ("method", None, self.find_meth(b[1], a))
            if ca and ca[0] == "method":
                fi = ca[2]
                if fi.has_deco("classmethod"):
                    return [("v", ("bound", b, fi.qual), st)]
                return [("v", ("fn", fi.qual), st)]
            v, s = self.getattr_static(b, a, st)
            return [("v", v, s)]
        if k == "enum":
            if a == "name":
                return [("v", C(b[2]), st)]
            if a == "value":
                ca = self.p.find_class_attr(b[1], b[2])
                if ca:
                    v, s = self.static_value(ca[1].module, ca[2], st, b[1] + "." + b[2])
                    return [("v", v, s)]
            return [("v", ("attr", b, a), st)]
        if k == "super":
            fi = self.find_meth(b[2], a, after=b[3])
            if fi is not None:
                if fi.has_deco("property"):
                    return self.inline(fi, [b[1]], {}, st, node, recv_cls=b[2])
                if fi.has_deco("staticmethod"):
                    return [("v", ("fn", fi.qual), st)]
                return [("v", ("bound", b[1], fi.qual, "super"), st)]
            return [("v", ("attr", ("superobj", b[1]), a), st)]
        if k == "partial":
            return [("v", ("attr", b, a), st)]
        cq, exact, is_type = self.class_of(b, st)
        if cq is not None:
            fi = self.find_meth(cq, a)
            if fi is not None:
                if fi.has_deco("property", "cached_property") and not is_type:
                    if exact or self.unique_impl(cq, a) or True:
                        if fi.qual in [self.frames[f].fn.qual for f in self.stack]:
                            return [("v", ("attr", b, a), st)]
                        if not exact and not self.unique_impl(cq, a):
                            return [("v", ("attr", b, a), st)]
                        if fi.has_deco("cached_property"):
                            return [("v", ("attr", b, a), st)]
                        return self.inline(fi, [b], {}, st, node, recv_cls=cq)
                if fi.has_deco("staticmethod"):
                    return [("v", ("fn", fi.qual), st)]
                if fi.has_deco("classmethod"):
                    if is_type:
                        return [("v", ("bound", b, fi.qual), st)]
                    return [("v", ("bound", ("app", "type", b), fi.qual, "inst", b), st)]
                return [("v", ("bound", b, fi.qual), st)]
            if a in self.assume:
                return [("v", ("tup", tuple(C(x) for x in self.assume[a])), st)]
            ca = self.p.find_class_attr(cq, a)
            if ca and ca[0] == "value" and ca[1].is_dataclass and a in ca[1].ann and not is_type:
                ca = None          # a dataclass field: an instance attribute
            if ca and ca[0] == "value" and not self.instance_assigned(cq, a):
                if self.has_override_value(cq, a) and not exact:
                    return [("v", ("attr", b, a), st)]
                v, s = self.static_value(ca[1].module, ca[2], st, ca[1].qual + "." + a)
                if v[0] in ("ext", "attr"):
                    return [("v", ("attr", b, a), s)]
                return [("v", v, s)]
        # canonical field name: components[...] elements are keyed by their name
        if a == "name" and k in ("elem", "sub"):
            c = canon_components(b)
            if c is not None:
                return [("v", c, st)]
        t = ("attr", b, a)
        return [("v", t, st)]

    def has_override_value(self, cq, a):
        return any(a in self.p.classes[s].attrs for s in self.p.subclasses.get(cq, ()))

    def unique_impl(self, cq, name):
        base = self.find_meth(cq, name)
        for s in self.p.subclasses.get(cq, ()):
            if self.find_meth(s, name) is not base:
                return False
        return True

    def instance_assigned(self, cq, a):
        key = ("ia", cq, a)
        if key not in self.exact:
            found = False
            for k in self.p.classes[cq].mro:
                for fi in self.p.classes[k].methods.values():
                    for n in ast.walk(fi.node):
                        if isinstance(n, ast.Attribute) and n.attr == a and isinstance(n.ctx, ast.Store) and \
                                isinstance(n.value, ast.Name) and n.value.id in ("self",):
                            found = True
            self.exact[key] = found
        return self.exact[key]

    def class_of(self, t, st):
        """(class qual, exact?, is_type?) of a term."""
        if t in self.exact_terms:
            return self.exact_terms[t]
        if t[0] == "new" and t[2] in self.p.classes:
            return t[2], True, False
        if t[0] == "app" and t[1] == "type" and len(t) == 3:
            cq, ex, ty = self.class_of(t[2], st)
            if cq and not ty:
                return cq, ex, True
        for at, v in st.facts.atoms.items():
            if v and at[0] == "isinst" and at[1] == t and at[2] in self.p.classes:
                return at[2], False, False
            if v and at[0] == "issub" and at[1] == t and at[2] in self.p.classes:
                return at[2], False, True
        ty = self.typeof(t, st)
        if ty:
            if ty.name in self.p.classes:
                return ty.name, False, False
            if ty.name == "type" and ty.args and ty.args[0].name in self.p.classes:
                return ty.args[0].name, False, True
        return None, False, False

    exact_terms = {}

    # ---- subscripts, containers -------------------------------------------------
    def ev_Subscript(self, e, st):
        if isinstance(e.slice, ast.Slice):
            parts = [x for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            def f(vals, s):
                base, rest = vals[0], vals[1:]
                it = iter(rest)
                sl = tuple(next(it) if x is not None else NONE for x in parts)
                return [("v", ("sub", base, ("slice", sl)), s)]
            return self.then(self.ev_list([e.value] + [x for x in parts if x is not None], st), f)
        return self.then(self.ev_list([e.value, e.slice], st), lambda v, s: self.getitem(v[0], v[1], s, e))

    def getitem(self, b, k, st, node):
        if b[0] == "tup" and is_num_const(k):
            try:
                return [("v", b[1][k[2]], st)]
            except IndexError:
                return self.raised(st, ("exc", next(self.seq), "IndexError"))
        if b[0] == "glob" or (b in self.dictlits and (b, "[]", self.canon(k, st)) not in st.heap):
            items, st = self.literal_items(b, st)
            if items is not None:
                out = []
                s = st
                for kk, vv in items:
                    for r, s2 in self.compare("==", k, kk, s, node):
                        if r:
                            out.append(("v", vv, s2))
                        else:
                            s = s2
                            break
                    else:
                        s = None
                    if s is None:
                        break
                if s is not None:
                    out.append(("r", ("exc", next(self.seq), "KeyError"), s))
                return out
        kc = self.canon(k, st)
        if (b, "[]", kc) in st.heap:
            return [("v", st.heap[(b, "[]", kc)], st)]
        if b[0] in ("ext", "fn") or (b[0] == "cls"):
            return [("v", b, st)]      # generic alias
        if b[0] == "new" and is_num_const(k) and b in st.cont:
            c = st.cont[b]
            if all(not x[1] for x in c) and -len(c) <= k[2] < len(c):
                return [("v", c[k[2]][0], st)]
            if len(c) == 1 and c[0][1]:
                return [("v", c[0][0], st)]
        # user-visible containers implemented in the package (Struct, proxies)
        cq, exact, is_type = self.class_of(b, st)
        if cq is not None and not is_type:
            fi = self.find_meth(cq, "__getitem__")
            if fi is not None and not self.recursing(fi):
                return self.inline(fi, [b, k], {}, st, node, recv_cls=cq)
        t = self.canon(("sub", b, k), st)
        out = [("v", t, st)]
        if self.catches(st, ("KeyError", "LookupError", "IndexError")) or self.fork_all:
            ty = self.typeof(b, st)
            atom = ("in", kc, self.canon_container(b, st))
            if k[0] == "key" and self.canon_container(k[1], st) == self.canon_container(b, st):
                return out
            if ty is None or ty.name in MAPPING_TYPES or ty.name == "Any":
                f1 = st.facts.assume_atom(atom, True)
                f0 = st.facts.assume_atom(atom, False)
                out = []
                if f1 is not None:
                    out.append(("v", t, st.with_facts(f1)))
                if f0 is not None:
                    out.append(("r", ("exc", next(self.seq), "KeyError"), st.with_facts(f0)))
            else:
                out.append(("r", ("exc", next(self.seq), "IndexError"), st))
        return out

    def canon(self, t, st):
        if t[0] == "sub":
            b = self.canon_container(t[1], st)
            k = t[2]
            if k[0] == "key" and k[1] == b:
                return ("elem", b, k[2])
            if k[0] == "idx" and k[1] == b:
                return ("elem", b, k[2])
            return ("sub", b, k)
        return t

    def canon_container(self, t, st):
        if t[0] == "view":
            return self.canon_container(t[2], st)
        if t[0] == "copy" and t[2] in ("list", "tuple") and st.ver.get(t, 0) == 0:
            return self.canon_container(t[3], st)
        return t

    def recursing(self, fi):
        return fi.qual in [self.frames[f].fn.qual for f in self.stack]

    def ev_Tuple(self, e, st):
        return self.then(self.ev_list(e.elts, st), lambda v, s: [("v", ("tup", tuple(v)), s)])

    def ev_List(self, e, st):
        return self._seq_literal(e, st, "list")

    def ev_Set(self, e, st):
        return self._seq_literal(e, st, "set")

    def _seq_literal(self, e, st, kind):
        if len(e.elts) == 1 and isinstance(e.elts[0], ast.Starred):
            return self.then(self.ev(e.elts[0].value, st), lambda v, s: self._collect([v], {}, s, e, kind))
        def f(vals, s):
            t = self.new(s, kind)
            s = self.emit(s, Event("alloc", kind, args=vals, res=t), e)
            s.cont[t] = tuple((v, v[0] == "star") for v in vals)
            return [("v", t, s)]
        return self.then(self.ev_list(e.elts, st), f)

    def ev_Dict(self, e, st):
        exprs = []
        for k, v in zip(e.keys, e.values):
            if k is not None:
                exprs.append(k)
            exprs.append(v)
        def f(vals, s):
            t = self.new(s, "dict")
            s = self.emit(s, Event("alloc", "dict", res=t), e)
            it = iter(vals)
            s.cont[t] = ()
            for k, v in zip(e.keys, e.values):
                if k is None:
                    s = self.dict_update(t, next(it), s, e)
                else:
                    kk = next(it)
                    s = self.setitem(t, kk, next(it), s, e)
            if e.keys and all(k is not None for k in e.keys):
                it = iter(vals)
                items = [(next(it), next(it)) for _ in e.keys]
                if all(is_const(k) or k[0] == "enum" for k, _ in items):
                    self.dictlits[t] = (items, s.ver.get(t, 0))
            return [("v", t, s)]
        return self.then(self.ev_list(exprs, st), f)

    def literal_items(self, b, st):
        """(key, value) pairs of a dict whose content is written out: a constant of a module or class, or a
        local literal nothing has changed since."""
        if b[0] == "glob":
            return self.glob_items(b, st)
        if b[0] == "new" and b in self.dictlits and st.ver.get(b, 0) == self.dictlits[b][1]:
            return self.dictlits[b][0], st
        return None, st

    def dict_update(self, t, src, st, node):
        s = self.emit(st, Event("update", "update", recv=t, args=[src]), node)
        s = self.mutate(t, s)
        return s

    def setitem(self, b, k, v, st, node):
        k = self.canon(k, st)
        s = self.emit(st, Event("setitem", "setitem", recv=b, args=[k, v]), node)
        s = s.copy()
        # invalidates other keys' knowledge only if they may alias
        for key in [x for x in s.heap if len(x) == 3 and x[0] == b and x[2] != k and not (is_const(x[2]) and is_const(k))]:
            del s.heap[key]
        s.heap[(b, "[]", k)] = v
        s.ver[b] = s.ver.get(b, 0) + 1
        f = s.facts.copy()
        ty = self.typeof(b, s)
        if b[0] in ("new", "copy", "p", "attr", "kwd") and (ty is None or ty.name not in ("list", "bytearray")):
            f.atoms[("in", k, b)] = True
        s.facts = f
        return s

    def mutate(self, b, st):
        s = st.copy()
        for key in [x for x in s.heap if len(x) == 3 and x[0] == b]:
            del s.heap[key]
        s.ver[b] = s.ver.get(b, 0) + 1
        f = s.facts.copy()
        for a in [a for a in f.atoms if a[0] == "in" and a[2] == b]:
            del f.atoms[a]
        s.facts = f
        if b[0] == "new":
            s.cont.pop(b, None)
        return s

    # ---- operators ---------------------------------------------------------------
    def ev_BinOp(self, e, st):
        op = OPS.get(type(e.op), "?")
        return self.then(self.ev_list([e.left, e.right], st), lambda v, s: [("v", self.binop(op, v[0], v[1], s), s)])

    def resolve(self, t, st):
        c = st.facts.const_of(t)
        return c if c is not None else t

    def binop(self, op, a, b, st):
        ca, cb = self.resolve(a, st), self.resolve(b, st)
        if ca[0] == "c" and cb[0] == "c" and not (op == "*" and (ca[1] not in NUM or cb[1] not in NUM)):
            try:
                return C(PYOPS[op](ca[2], cb[2]))
            except Exception:
                pass
        if is_num_const(ca):
            a = ca
        if is_num_const(cb):
            b = cb
        ta, tb = self.typeof(a, st), self.typeof(b, st)
        nonnum = any(t and t.name in ("bytes", "str", "list", "tuple", "float", "bytearray", "set", "frozenset", "dict") for t in (ta, tb)) or \
            any(x[0] in ("fstr", "tup", "copy", "view", "new") or (x[0] == "c" and x[1] not in NUM) for x in (a, b))
        if not nonnum:
            if op == "+" and (self.is_numeric(a, st) or self.is_numeric(b, st)):
                return lin_add(a, b)
            if op == "-":
                return lin_add(a, b, -1)
            if op == "*" and (is_num_const(a) or is_num_const(b)) and (self.is_numeric(a, st) or self.is_numeric(b, st)):
                # a numeric multiple only if the other operand isn't a sequence of unknown type
                other, k = (b, a) if is_num_const(a) else (a, b)
                if self.is_numeric(other, st):
                    return lin_scale(other, int(k[2]))
        if op in ("|", "&", "+", "*", "^") and not nonnum and repr(a) > repr(b):
            a, b = b, a
        return ("op", op, a, b)

    def ev_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            out = []
            for r, s in self.cond(e, st):
                if isinstance(r, bool):
                    out.append(("v", TRUE if r else FALSE, s))
                else:
                    out.append(("r", r, s))
            return out
        def f(v, s):
            v = self.resolve(v, s) if is_const(self.resolve(v, s)) else v
            if isinstance(e.op, ast.USub):
                if is_num_const(v):
                    return [("v", C(-int(v[2])), s)]
                if v[0] == "c":
                    return [("v", C(-v[2]), s)]
                ty = self.typeof(v, s)
                if ty and ty.name == "float":
                    return [("v", ("un", "-", v), s)]
                return [("v", lin_scale(v, -1), s)]
            if isinstance(e.op, ast.UAdd):
                return [("v", v, s)]
            return [("v", ("un", "~", v), s)]
        return self.then(self.ev(e.operand, st), f)

    def _cond_value(self, e, st):
        out = []
        for r, s in self.cond(e, st):
            if isinstance(r, bool):
                out.append(("v", TRUE if r else FALSE, s))
            else:
                out.append(("r", r, s))
        return out

    ev_Compare = _cond_value

    def ev_BoolOp(self, e, st):
        """Value semantics of and/or."""
        is_and = isinstance(e.op, ast.And)
        pend = [("v", None, st)]
        out = []
        for i, x in enumerate(e.values):
            nxt = []
            for _, _, s in pend:
                for tag, v, s2 in self.ev(x, s):
                    if tag == "r":
                        out.append((tag, v, s2))
                        continue
                    if i == len(e.values) - 1:
                        out.append(("v", v, s2))
                        continue
                    for r, s3 in self.truth(v, s2, e):
                        if not isinstance(r, bool):
                            out.append(("r", r, s3))
                        elif r == is_and:
                            nxt.append(("v", None, s3))
                        else:
                            out.append(("v", v, s3))
            pend = nxt
        return out

    def ev_IfExp(self, e, st):
        out = []
        for r, s in self.cond(e.test, st):
            if not isinstance(r, bool):
                out.append(("r", r, s))
            else:
                out.extend(self.ev(e.body if r else e.orelse, s))
        return out

    def ev_NamedExpr(self, e, st):
        def f(v, s):
            s = s.copy()
            fid = self.stack[-1]
            # a walrus inside a comprehension binds in the enclosing function frame
            while self.frames[fid].fn.name.startswith("<comp") and self.frames[fid].parent is not None:
                fid = self.frames[fid].parent
            s.env[(fid, e.target.id)] = v
            return [("v", v, s)]
        return self.then(self.ev(e.value, st), f)

    def ev_Lambda(self, e, st):
        i = next(self.seq)
        fr = self.frames[self.stack[-1]]
        fi = FuncInfo(fr.fn.qual + ".<lambda>", e, fr.module)
        self.lams[i] = (fi, fr.fid)
        return [("v", ("lam", i), st)]

    def ev_Starred(self, e, st):
        return self.ev(e.value, st)

    def ev_FormattedValue(self, e, st):
        return self.ev(e.value, st)

    def ev_Yield(self, e, st):
        def f(v, s):
            return self.do_yield(v, s, e)
        if e.value is None:
            return self.do_yield(NONE, st, e)
        return self.then(self.ev(e.value, st), f)

    def do_yield(self, v, st, node):
        fr = self.frames[self.stack[-1]]
        s = self.emit(st, Event("yield", "yield", args=[v], extra=None if fr.on_yield is None else "inner"), node)
        if fr.on_yield is None:
            return [("v", NONE, s)]
        out = []
        saved = self.stack
        # run the consumer's body in the consumer's frame
        self.stack = list(fr.on_yield[1])
        try:
            res = fr.on_yield[0](v, s)
        finally:
            self.stack = saved
        for kind, val, s2 in res:
            if kind in ("next", "cont"):
                out.append(("v", NONE, s2))
            else:
                # break/return/raise out of the consumer: abandon the generator (GeneratorExit)
                out.append(("r", ("genexit", kind, val), s2))
        return out

    def ev_YieldFrom(self, e, st):
        def f(v, s):
            res = self.iterate(v, s, e, lambda x, s2: [self._to_exec(r) for r in self.do_yield(x, s2, e)], [])
            out = []
            for kind, val, s2 in res:
                if kind == "next":
                    out.append(("v", NONE, s2))
                elif kind == "raise":
                    out.append(("r", val, s2))
                else:
                    out.append(("v", NONE, s2.tainted("yield from exit")))
            return out
        return self.then(self.ev(e.value, st), f)

    def _to_exec(self, r):
        tag, v, s = r
        return ("next", None, s) if tag == "v" else ("raise", v, s)

    # ---- comprehensions ------------------------------------------------------------
    def ev_ListComp(self, e, st):
        return self.comp(e, st, "list")

    def ev_SetComp(self, e, st):
        return self.comp(e, st, "set")

    def ev_GeneratorExp(self, e, st):
        fr = self.frames[self.stack[-1]]
        i = next(self.seq)
        self.lams[i] = ("genexp", e, list(self.stack))
        return [("v", ("genx", i), st)]

    def ev_DictComp(self, e, st):
        return self.comp(e, st, "dict")

    def comp(self, e, st, kind):
        t = self.new(st, kind)
        s = self.emit(st, Event("alloc", kind, res=t, extra="comp"), e)
        s.cont[t] = ()
        if kind == "dict":
            elt = [e.key, e.value]
        else:
            elt = [e.elt]

        def add(vals, s2):
            if kind == "dict":
                return [("next", None, self.setitem(t, vals[0], vals[1], s2, e))]
            return [("next", None, self.append(t, vals[0], s2, e))]
        res = self.comp_loop(e, e.generators, st=s, elt=elt, sink=add)
        out = []
        for k, v, s2 in res:
            if k == "next":
                out.append(("v", t, s2))
            elif k == "raise":
                out.append(("r", v, s2))
            else:
                out.append(("v", t, s2.tainted("comprehension exit")))
        return out

    def comp_loop(self, e, gens, st, elt, sink, frame=None):
        """Run a comprehension; sink(vals, st) gets each element. Returns exec results."""
        if frame is None:
            fr0 = self.frames[self.stack[-1]]
            fid = next(self.seq)
            fi = FuncInfo(fr0.fn.qual, ast.Lambda(args=EMPTY_ARGS, body=ast.Constant(None)), fr0.module)
            fr = Frame(fid, fi, fr0.module, fr0.cls, parent=fr0.fid)
            fr.fn = _CompFn(fr0.fn)
            for g in gens:
                fr.locals |= assigned_names([g.target])
            self.frames[fid] = fr
            self.stack.append(fid)
            try:
                return self.comp_loop(e, gens, st, elt, sink, fr)
            finally:
                self.stack.pop()
        if not gens:
            out = []
            for tag, vals, s in self.ev_list(elt, st):
                if tag == "r":
                    out.append(("raise", vals, s))
                else:
                    out.extend(sink(vals, s))
            return out
        g = gens[0]

        def body(v, s):
            out = []
            for k, val, s2 in self.assign(g.target, v, s, e):
                if k == "raise":
                    out.append((k, val, s2))
                    continue
                states = [s2]
                for c in g.ifs:
                    nxt = []
                    for s3 in states:
                        for r, s4 in self.cond(c, s3):
                            if r is True:
                                nxt.append(s4)
                            elif r is False:
                                out.append(("next", None, s4))
                            else:
                                out.append(("raise", r, s4))
                    states = nxt
                for s3 in states:
                    out.extend(self.comp_loop(e, gens[1:], s3, elt, sink, frame))
            return out

        # the first iterable is evaluated in the enclosing scope; names resolve through the parent anyway
        out = []
        for tag, it, s in self.ev(g.iter, st):
            if tag == "r":
                out.append(("raise", it, s))
            else:
                out.extend(self.iterate(it, s, e, body, self.comp_havoc(e, frame), keep_break=True))
        return out

    def comp_havoc(self, e, frame):
        names = set()
        for x in ast.walk(e):
            if isinstance(x, ast.NamedExpr):
                names.add(x.target.id)
        f = frame.fid
        while self.frames[f].fn.name.startswith("<comp") and self.frames[f].parent is not None:
            f = self.frames[f].parent
        return [(f, n) for n in names]

    def append(self, t, v, st, node):
        s = self.emit(st, Event("append", "append", recv=t, args=[v]), node)
        s = s.copy()
        s.ver[t] = s.ver.get(t, 0) + 1
        if t in s.cont:
            s.cont[t] = s.cont[t] + ((v, bool(s.loops)),)
        return s

    # ---- truth and comparison ---------------------------------------------------------
    def cond(self, e, st):
        """[(True|False|exc-term, state)]"""
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            pend, out = [st], []
            for x in e.values:
                nxt = []
                for s in pend:
                    for r, s2 in self.cond(x, s):
                        if not isinstance(r, bool):
                            out.append((r, s2))
                        elif r == is_and:
                            nxt.append(s2)
                        else:
                            out.append((r, s2))
                pend = nxt
            return out + [(is_and, s) for s in pend]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [((not r) if isinstance(r, bool) else r, s) for r, s in self.cond(e.operand, st)]
        if isinstance(e, ast.Compare):
            return self.cond_compare(e, st)
        out = []
        for tag, v, s in self.ev(e, st):
            if tag == "r":
                out.append((v, s))
            else:
                out.extend(self.truth(v, s, e))
        return out

    def cond_compare(self, e, st):
        out = []
        res = self.ev_list([e.left] + e.comparators, st)
        for tag, vals, s in res:
            if tag == "r":
                out.append((vals, s))
                continue
            pend = [s]
            for i, op in enumerate(e.ops):
                nxt = []
                for s2 in pend:
                    for r, s3 in self.compare(CMP[type(op)], vals[i], vals[i + 1], s2, e):
                        if r is True:
                            nxt.append(s3)
                        else:
                            out.append((r, s3))
                pend = nxt
            out += [(True, s2) for s2 in pend]
        return out

    def fork(self, st, f_true, f_false):
        out = []
        if f_true is not None:
            out.append((True, st.with_facts(f_true)))
        if f_false is not None:
            out.append((False, st.with_facts(f_false)))
        if not out:
            out = [(True, st.tainted("contradiction"))]
        return out

    def compare(self, op, a, b, st, node):
        if op in ("not in", "is not", "!="):
            pos = {"not in": "in", "is not": "is", "!=": "=="}[op]
            return [((not r) if isinstance(r, bool) else r, s) for r, s in self.compare(pos, a, b, st, node)]
        if op == "in":
            return self.contains(a, b, st, node)
        if op in ("is", "=="):
            return self.equal(op, a, b, st, node)
        # ordering
        ca, cb = self.resolve(a, st), self.resolve(b, st)
        if is_const(ca) and is_const(cb):
            try:
                r = {"<": lambda: ca[2] < cb[2], "<=": lambda: ca[2] <= cb[2], ">": lambda: ca[2] > cb[2],
                     ">=": lambda: ca[2] >= cb[2]}[op]()
                return [(r, st)]
            except TypeError:
                return [(("exc", next(self.seq), "TypeError"), st)]
        if is_const(b) and not is_num_const(b) or is_const(a) and not is_num_const(a):
            return self.fork(st, st.facts.assume_atom(("cmp", op, a, b), True),
                             st.facts.assume_atom(("cmp", op, a, b), False))
        neg = {"<": ">=", "<=": ">", ">": "<=", ">=": "<"}[op]
        return self.fork(st, st.facts.assume_lin(a, op, b), st.facts.assume_lin(a, neg, b))

    def equal(self, op, a, b, st, node):
        if a == b and a[0] != "unk":
            return [(True, st)]
        ra, rb = self.resolve(a, st), self.resolve(b, st)
        # order so that b is the constant
        if (is_const(ra) or is_singleton(ra)) and not (is_const(rb) or is_singleton(rb)):
            a, b, ra, rb = b, a, rb, ra
        if (is_const(ra) or is_singleton(ra)) and (is_const(rb) or is_singleton(rb)):
            if ra[0] == "c" and rb[0] == "c":
                if op == "is" and ra[1] != rb[1]:
                    return [(False, st)]
                return [(ra[2] == rb[2], st)]
            if op == "==" and "enum" in (ra[0], rb[0]) and "c" in (ra[0], rb[0]):
                return [(False, st)]
            return [(ra == rb, st)]
        if is_singleton(rb) or is_const(rb):
            if ra[0] in ("new", "copy", "lam", "bound", "genx", "gen", "tup", "fstr", "partial") and is_singleton(rb):
                return [(False, st)]
            if ra[0] == "lin" or (is_num_const(rb) and rb[1] == "int" and ra[0] != "c"):
                if rb == NONE or rb[0] == "enum":
                    if ra[0] == "lin" or is_len(ra):
                        return [(False, st)]
                else:
                    f1, f0 = st.facts.assume_const(ra, rb, True), st.facts.assume_const(ra, rb, False)
                    if ra[0] == "lin":
                        f1, f0 = st.facts.assume_lin(ra, "==", rb), st.facts.assume_lin(ra, "!=", rb)
                    return self.fork(st, f1, f0)
            if rb[0] == "c" and rb[1] in ("bytes", "str") and len(rb[2]) == 0:
                return self.len_zero(ra, st)
            if rb == NONE and self.never_none(ra, st):
                return [(False, st)]
            if rb[0] == "enum":
                # isinstance facts exclude sentinels
                for at, v in st.facts.atoms.items():
                    if v and at[0] == "isinst" and at[1] == ra and at[2] != rb[1]:
                        return [(False, st)]
            return self.fork(st, st.facts.assume_const(ra, rb, True), st.facts.assume_const(ra, rb, False))
        if self.is_numeric(a, st) or self.is_numeric(b, st):
            return self.fork(st, st.facts.assume_lin(a, "==", b), st.facts.assume_lin(a, "!=", b))
        if a[0] == "tup" and b[0] == "tup":
            if len(a[1]) != len(b[1]):
                return [(False, st)]
            pend, out = [st], []
            for x, y in zip(a[1], b[1]):
                nxt = []
                for s in pend:
                    for r, s2 in self.equal("==", x, y, s, node):
                        (nxt if r is True else out).append(s2 if r is True else (r, s2))
                pend = nxt
            return out + [(True, s) for s in pend]
        kind = "is" if op == "is" else "eq"
        x, y = sorted((a, b), key=repr)
        atom = (kind, x, y)
        f1 = st.facts.assume_atom(atom, True)
        f0 = st.facts.assume_atom(atom, False)
        return self.fork(st, f1, f0)

    def never_none(self, t, st):
        if t[0] in ("new", "copy", "lam", "bound", "fn", "cls", "tup", "fstr", "lin", "idx", "partial", "exc"):
            return True
        if t[0] == "op":
            return True
        if t[0] == "app" and t[1] in ("len", "type", "int", "str", "repr", "list", "tuple", "bytes", "struct.calcsize",
                                      "bit_length", "abs", "sum"):
            return True
        if t[0] == "bext":
            return True
        if t[0] == "res":
            n = st.ev
            while n is not None:
                e = n[1]
                if e.res == t:
                    return e.kind == "call" and e.name in NEVER_NONE_METHODS
                n = n[0]
        return False

    def len_zero(self, t, st):
        ln = self.length(t, st)
        if is_num_const(ln):
            return [(ln[2] == 0, st)]
        return self.fork(st, st.facts.assume_lin(ln, "==", C(0)), st.facts.assume_lin(ln, "!=", C(0)))

    def length(self, t, st):
        t = self.resolve(t, st)
        if t[0] == "c" and t[1] in ("str", "bytes"):
            return C(len(t[2]))
        if t[0] == "tup":
            if not any(x[0] == "star" for x in t[1]):
                return C(len(t[1]))
        if t[0] == "new" and t in st.cont and all(not x[1] for x in st.cont[t]) and t[2] in ("list", "set", "dict") \
                and not st.loopinfo.get(("looped", t)):
            if t[2] == "list":
                return C(len(st.cont[t]))
            if t[2] == "dict" and st.ver.get(t, 0) == 0:
                return C(0)
        if t[0] == "view":
            t = t[2]
        if t[0] == "copy" and st.ver.get(t, 0) == 0:
            return self.length(t[3], st)
        v = st.ver.get(t, 0)
        return ("app", "len", t) if not v else ("app", "len", t, ("ver", v))

    def truth(self, v, st, node):
        c = self.resolve(v, st)
        if c[0] == "c":
            return [(bool(c[2]), st)]
        if c[0] in ("enum", "cls", "fn", "bound", "lam", "partial", "exc", "ext", "mod", "genx", "gen"):
            return [(True, st)]
        if c[0] == "fstr":
            return [(True, st)]
        if c[0] == "tup":
            return [(len(c[1]) > 0, st)]
        if c[0] == "lin":
            return self.fork(st, st.facts.assume_lin(c, "!=", C(0)), st.facts.assume_lin(c, "==", C(0)))
        if c[0] in ("new", "copy", "view"):
            if c[0] == "new" and c[2] in self.p.classes:
                if self.find_meth(c[2], "__bool__") is None and self.find_meth(c[2], "__len__") is None:
                    return [(True, st)]
            if c[0] == "new" and c[2] not in self.p.classes and c[2] not in CONTAINERS:
                return [(True, st)]
            return [(not r if isinstance(r, bool) else r, s) for r, s in self.len_zero(c, st)]
        if c[0] == "op" and c[1] == "-" or is_len(c):
            return self.fork(st, st.facts.assume_lin(c, "!=", C(0)), st.facts.assume_lin(c, "==", C(0)))
        ty = self.typeof(c, st)
        atom = ("truth", c)
        tr = st.facts.assume_atom(atom, True)
        fa = st.facts.assume_atom(atom, False)
        tn = ty.name if ty else None
        opt = bool(ty and ty.optional) or ty is None
        notnone = st.facts.decide_const(c, NONE) is False
        if tr is not None:
            tr = tr.assume_const(c, NONE, False)
            if tr is not None and tn == "int":
                tr = tr.assume_lin(c, "!=", C(0))
            elif tr is not None and tn in SIZED_IMM:
                tr = tr.assume_lin(self.length(c, st), "!=", C(0))
            elif tr is not None and tn == "bool":
                tr = tr.assume_const(c, FALSE, False)
        if fa is not None:
            if tn == "Callable" and opt:
                fa = fa.assume_const(c, NONE, True)
            elif tn == "Callable":
                fa = None
            elif (not opt or notnone) and tn == "int":
                fa = fa.assume_lin(c, "==", C(0))
            elif (not opt or notnone) and tn in SIZED_IMM:
                fa = fa.assume_lin(self.length(c, st), "==", C(0))
            elif tn == "bool" and (not opt or notnone):
                fa = fa.assume_const(c, FALSE, True)
            elif tn in self.p.classes and self.find_meth(tn, "__len__") is None and self.find_meth(tn, "__bool__") is None:
                fa = fa.assume_const(c, NONE, True) if opt else None
        if c in st.facts.nec and FALSE in st.facts.nec[c] and tn == "bool" and (not opt or notnone):
            fa = None
        return self.fork(st, tr, fa)

    def contains(self, k, X, st, node):
        X = self.resolve(X, st)
        if X[0] == "tup" or (X[0] == "new" and X in st.cont and X[2] in ("list", "set") and all(not c[1] for c in st.cont[X])
                             and not st.loopinfo.get(("looped", X))):
            vals = list(X[1]) if X[0] == "tup" else [c[0] for c in st.cont[X]]
            if not any(v[0] == "star" for v in vals):
                pend, out = [st], []
                for v in vals:
                    nxt = []
                    for s in pend:
                        for r, s2 in self.equal("==", k, v, s, node):
                            if r is False:
                                nxt.append(s2)
                            else:
                                out.append((r, s2))
                    pend = nxt
                return out + [(False, s) for s in pend]
        if X[0] == "glob" or X in self.dictlits:
            items, st = self.literal_items(X, st)
            if items is not None:
                return self.contains(k, ("tup", tuple(i[0] for i in items)), st, node)
        if X[0] == "app" and X[1] in ("frozenset", "set", "tuple", "list") and len(X) == 3:
            return self.contains(k, X[2], st, node)
        if X[0] == "cls" and self.is_enum(X[1]):
            return self.contains(k, ("tup", tuple(("enum", X[1], m) for m in self.enum_members(X[1]))), st, node)
        Xc = self.canon_container(X, st)
        kc = self.canon(k, st)
        if kc[0] == "key" and self.canon_container(kc[1], st) == Xc and st.ver.get(Xc, 0) == 0:
            return [(True, st)]
        if Xc[0] == "new" and Xc[2] == "dict" and Xc in st.cont and st.ver.get(Xc, 0) == 0:
            return [(False, st)]
        atom = ("in", kc, Xc)
        return self.fork(st, st.facts.assume_atom(atom, True), st.facts.assume_atom(atom, False))

    # ================================================================ calls
    def ev_Call(self, e, st):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = self.frames[self.stack[-1]]
            while f.cls is None or f.self_term is None:
                if f.parent is None:
                    return [("v", ("unk", next(self.seq)), st.tainted("super() outside method"))]
                f = self.frames[f.parent]
            cq, exact, is_type = self.class_of(f.self_term, st)
            if cq is None:
                cq = f.cls
            if f.cls not in self.p.classes[cq].mro:
                cq = f.cls
            return [("v", ("super", f.self_term, cq, f.cls), st)]
        kwn = [(k.arg, k.value) for k in e.keywords]

        def f(fv, s):
            def g(vals, s2):
                pos = vals[:len(e.args)] if not any(isinstance(a, ast.Starred) for a in e.args) else None
                if pos is None:
                    npos = len(vals) - len(kwn)
                    pos = vals[:npos]
                    kws = vals[npos:]
                else:
                    kws = vals[len(e.args):]
                kw = {}
                stars = []
                for (n, _), v in zip(kwn, kws):
                    if n is None:
                        stars.append(v)
                    else:
                        kw[n] = v
                for v in stars:
                    kw = self.expand_kw(kw, v, s2)
                return self.call(fv, list(pos), kw, s2, e)
            return self.then(self.ev_list(list(e.args) + [v for _, v in kwn], s), g)
        return self.then(self.ev(e.func, st), f)

    def expand_kw(self, kw, v, st):
        if v[0] == "kwd":
            kw = dict(kw)
            for n, t in v[1]:
                kw.setdefault(n, t)
            if v[2] is not None:
                kw["**"] = v[2]
            return kw
        if v[0] == "new" and v[2] == "dict" and v in st.cont:
            known = {x[2][2]: val for x, val in st.heap.items()
                     if len(x) == 3 and x[0] == v and is_const(x[2]) and isinstance(x[2][2], str)}
            if len(known) == st.ver.get(v, 0):
                kw = dict(kw)
                kw.update(known)
                return kw
        kw = dict(kw)
        kw["**"] = v
        return kw

    def call(self, fv, args, kw, st, node):
        k = fv[0]
        if k == "fn":
            fi = self.p.funcs[fv[1]]
            return self.call_function(fi, args, kw, st, node)
        if k == "bound":
            fi = self.p.funcs[fv[2]]
            recv = fv[1]
            sup = len(fv) > 3 and fv[3] == "super"
            if len(fv) > 3 and fv[3] == "inst":
                recv = ("app", "type", fv[4])
            cq, exact, is_type = self.class_of(recv, st)
            name = fi.name
            if name in self.vocab and not sup and name not in self.force_inline:
                return self.opaque(name, recv, args, kw, st, node, fi=fi, self_bound=True)
            if not sup and not exact and cq is not None and not self.unique_impl(cq, name):
                return self.opaque(name, recv, args, kw, st, node, fi=fi, self_bound=True)
            if self.recursing_deep(fi) or len(self.stack) > self.max_depth:
                return self.opaque(name, recv, args, kw, st, node, fi=fi, self_bound=True)
            if fi.is_gen and not fi.has_deco("contextmanager"):
                return self.make_gen(fi, [recv] + args, kw, st, node)
            if fi.has_deco("contextmanager"):
                return self.make_gen(fi, [recv] + args, kw, st, node)
            if self.weird_deco(fi):
                return [(t, v, s.tainted(f"decorator on {fi.qual}")) for t, v, s in
                        self.opaque(name, recv, args, kw, st, node, fi=fi, self_bound=True)]
            return self.inline(fi, [recv] + args, kw, st, node, recv_cls=cq)
        if k == "lam":
            fi, parent = self.lams[fv[1]]
            if self.recursing_deep(fi, 2) or len(self.stack) > self.max_depth:
                return self.opaque("<lambda>", None, args, kw, st, node)
            if fi.is_gen:
                return self.make_gen(fi, args, kw, st, node, parent)
            return self.inline(fi, args, kw, st, node, parent=parent)
        if k == "partial":
            kk = dict(fv[3])
            kk.update(kw)
            return self.call(fv[1], list(fv[2]) + args, kk, st, node)
        if k == "cls":
            return self.construct(fv, fv[1], args, kw, st, node, exact=True)
        if k == "ext":
            return self.call_ext(fv[1], args, kw, st, node)
        if k == "attr":
            return self.call_method(fv[1], fv[2], args, kw, st, node, fv)
        cq, exact, is_type = self.class_of(fv, st)
        if is_type and cq is not None:
            return self.construct(fv, cq, args, kw, st, node, exact=exact)
        # unknown callable value (callback)
        return self.opaque("()", fv, args, kw, st, node)

    force_inline = frozenset()

    def weird_deco(self, fi):
        ok = {"staticmethod", "classmethod", "property", "override", "overload", "abstractmethod", "contextmanager",
              "wraps", "no_type_check", "final"}
        return any(d.split(".")[-1] not in ok for d in fi.decorators)

    def recursing_deep(self, fi, n=1):
        return sum(1 for f in self.stack if self.frames[f].fn.qual == fi.qual) >= n

    def call_function(self, fi, args, kw, st, node):
        if fi.has_deco("contextmanager") or fi.is_gen:
            return self.make_gen(fi, args, kw, st, node)
        if fi.cls is not None and not fi.has_deco("staticmethod") and args:
            # unbound call Cls.method(obj, ...)
            cq, exact, is_type = self.class_of(args[0], st)
            if fi.name in self.vocab and fi.name not in self.force_inline:
                return self.opaque(fi.name, args[0], args[1:], kw, st, node, fi=fi, self_bound=True)
            if self.recursing_deep(fi):
                return self.opaque(fi.name, args[0], args[1:], kw, st, node, fi=fi, self_bound=True)
            return self.inline(fi, args, kw, st, node, recv_cls=cq)
        if fi.qual in self.opaque_funcs or fi.name in self.opaque_funcs or self.recursing_deep(fi) or len(self.stack) > self.max_depth:
            return self.opaque(fi.name, None, args, kw, st, node, fi=fi)
        if self.weird_deco(fi):
            return [(t, v, s.tainted(f"decorator on {fi.qual}")) for t, v, s in
                    self.opaque(fi.name, None, args, kw, st, node, fi=fi)]
        return self.inline(fi, args, kw, st, node)

    opaque_funcs = frozenset()

    def make_gen(self, fi, args, kw, st, node, parent=None):
        i = next(self.seq)
        self.gens[i] = (fi, args, kw, parent)
        return [("v", ("gen", i, fi.qual), st)]

    def bind_args(self, fi, args, kw, st, self_first=None):
        """-> (dict name->term, st) or None if the call doesn't fit the signature."""
        a = fi.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        kw = dict(kw)
        rest_kw = kw.pop("**", None)
        star = None
        plain = []
        for x in args:
            if x[0] == "star":
                star = x[1]
            else:
                plain.append(x)
        extra = []
        for i, v in enumerate(plain):
            if i < len(pos):
                env[pos[i]] = v
            else:
                extra.append(v)
        if star is not None and len(plain) < len(pos) and not a.vararg:
            return None
        if a.vararg:
            if star is not None:
                env[a.vararg.arg] = star if not extra else ("tup", tuple(extra) + (("star", star),))
            else:
                env[a.vararg.arg] = ("tup", tuple(extra))
        elif extra:
            return None
        kwonly = [x.arg for x in a.kwonlyargs]
        for n in list(kw):
            if n in pos or n in kwonly:
                if n in env:
                    return None
                env[n] = kw.pop(n)
        for n in pos + kwonly:
            if n in env:
                continue
            d = fi.default(n)
            if rest_kw is not None and not (star is not None and n in pos):
                env[n] = ("kwget", rest_kw, n)
                if d is None:
                    pass
                continue
            if d is None:
                return None
            env[n] = ("default", d)
        if a.kwarg:
            if rest_kw is not None and not kw:
                taken = tuple(sorted(n for n in pos + kwonly if True))
                env[a.kwarg.arg] = ("kwd", (), rest_kw)
            else:
                env[a.kwarg.arg] = ("kwd", tuple(kw.items()), rest_kw)
        elif kw:
            return None
        return env

    def inline(self, fi, args, kw, st, node, recv_cls=None, parent=None, on_yield=None):
        """Inline a function body; returns value results."""
        self.functions_seen.add(fi.qual)
        env = self.bind_args(fi, args, kw, st)
        if env is None:
            return self.raised(st, ("exc", next(self.seq), "TypeError"))
        fid = next(self.seq)
        cls = fi.cls.qual if fi.cls is not None else None
        fr = Frame(fid, fi, fi.module, cls, parent=parent)
        body = [ast.Return(value=fi.node.body)] if isinstance(fi.node, ast.Lambda) else fi.node.body
        if isinstance(fi.node, ast.Lambda):
            ast.copy_location(body[0], fi.node)
        globs = {n for x in ast.walk(fi.node) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        fr.locals = assigned_names(body) | set(env)
        fr.locals -= globs
        fr.on_yield = on_yield
        self.frames[fid] = fr
        s = st.copy()
        s.depth += 1
        for n, v in env.items():
            if v[0] == "default":
                v, s = self.default_value(fi, v[1], s)
            elif v[0] == "kwget":
                d = fi.default(n)
                ann = fi.annotation(n)
                if v not in s.types and ann is not None:
                    ty = self.parse_ann(fi.module, ann, cls)
                    if ty:
                        s.types[v] = ty
            if v[0] in ("res", "elem", "sub", "phi", "unk") and v not in s.types and self.typeof(v, s) is None:
                ann = fi.annotation(n)
                if ann is not None:
                    ty = self.parse_ann(fi.module, ann, cls)
                    if ty and ty.name not in ("Any", "Union", "object"):
                        s.types[v] = ty
            s.env[(fid, n)] = v
        if fi.cls is not None and fi.params() and not fi.has_deco("staticmethod"):
            fr.self_term = env.get(fi.params()[0])
        self.stack.append(fid)
        try:
            res = self.block(body, s)
        finally:
            self.stack.pop()
        out = []
        for kind, v, s2 in res:
            s2 = self.drop_frame(s2, fid)
            if kind == "next":
                out.append(("v", NONE, s2))
            elif kind == "ret":
                out.append(("v", v, s2))
            elif kind == "raise":
                out.append(("r", v, s2))
            else:
                out.append(("v", NONE, s2.tainted(f"stray {kind}")))
        self.limit(out)
        return out

    def drop_frame(self, s, fid):
        # closures created in the frame may still need its variables: keep them if any lambda refers to it
        if any(isinstance(v, tuple) and len(v) == 2 and v[1] == fid for v in self.lams.values()) or \
                any(isinstance(v, tuple) and v[0] == "genexp" and fid in v[2] for v in self.lams.values() if isinstance(v[0], str)):
            return s
        s = s.copy()
        for k in [k for k in s.env if k[0] == fid]:
            del s.env[k]
        s.depth -= 1
        return s

    def default_value(self, fi, d, st):
        if isinstance(d, ast.Lambda):
            i = ("deflam", fi.qual, d.lineno, d.col_offset)
            self.lams[i] = (FuncInfo(fi.qual + ".<default>", d, fi.module), None)
            return ("lam", i), st
        return self.static_value(fi.module, d, st, fi.qual + ".<default>")

    # ---- opaque calls ----------------------------------------------------------
    def canon_args(self, fi, recv, args, kw, self_bound):
        """Map to parameter names when the signature is known."""
        if fi is None:
            return None
        ps = fi.params()
        if self_bound and ps and not fi.has_deco("staticmethod"):
            ps = ps[1:]
        out = {}
        for i, v in enumerate(args):
            if v[0] == "star" or i >= len(ps):
                return None
            out[ps[i]] = v
        for k, v in kw.items():
            out[k] = v
        return out

    def opaque(self, name, recv, args, kw, st, node, fi=None, self_bound=False, ret=None, kind="call", can_raise=True,
               raises=None):
        res = ("res", next(self.seq), name)
        named = self.canon_args(fi, recv, args, kw, self_bound)
        if named is not None:
            ev = Event(kind, name, recv=recv, args=args, kw=named, res=res)
        else:
            ev = Event(kind, name, recv=recv, args=args, kw=kw, res=res)
        ev.extra = fi.qual if fi is not None else None
        s = self.emit(st, ev, node)
        if ret is None and fi is not None:
            cls = fi.cls.qual if fi.cls else None
            if recv is not None and cls is not None:
                cq, _, _ = self.class_of(recv, st)
                cls = cq or cls
            ret = self.parse_ann(fi.module, fi.node.returns, cls)
            if ret and ret.name in ("Any", "Union", "object", "None"):
                ret = None
        if ret is not None:
            s.types[res] = ret
        # a call may mutate the mutable containers handed to it
        s = self.escape(args, kw, s, name, recv)
        out = [("v", res, s)]
        if raises is not None:
            for r in raises:
                out.append(("r", ("exc", next(self.seq), r, res), s))
        elif can_raise and (self.fork_all or st.tries):
            out.append(("r", ("exc", next(self.seq), "AnyExc", res), s))
        return out

    def escape(self, args, kw, st, name, recv):
        return st

    def call_method(self, recv, name, args, kw, st, node, fv):
        """Method of an object that isn't an in-package class (or callback attribute)."""
        rt = self.typeof(recv, st)
        # Mapping-like operations
        if recv[0] == "ext":
            return self.call_ext(recv[1] + "." + name, args, kw, st, node)
        if recv[0] == "glob":
            r = self.glob_method(recv, name, args, st, node)
            if r is not None:
                return r
        if name in ("keys", "values", "items") and not args and not kw:
            if recv[0] == "kwd":
                return [("v", ("view", name, recv), st)]
            return [("v", ("view", name, self.canon_container(recv, st)), st)]
        isdict = recv[0] in ("new", "copy") and (recv[2] in ("dict", "deepcopy", "copy")) or recv[0] == "kwd" or \
            (rt is not None and rt.name in MAPPING_TYPES)
        unknown_ok = rt is None or rt.name in ("Any", "Union")
        if name == "get" and 1 <= len(args) <= 2 and not kw and (isdict or unknown_ok):
            d = args[1] if len(args) == 2 else NONE
            out = []
            for r, s in self.contains(args[0], recv, st, node):
                if r is True:
                    for t, v, s2 in self.getitem_nofork(recv, args[0], s, node):
                        out.append((t, v, s2))
                elif r is False:
                    out.append(("v", d, s))
            return out
        if name == "setdefault" and len(args) == 2 and (isdict or unknown_ok):
            out = []
            for r, s in self.contains(args[0], recv, st, node):
                if r is True:
                    out.extend(self.getitem_nofork(recv, args[0], s, node))
                else:
                    s = self.setitem(recv, args[0], args[1], s, node)
                    out.append(("v", args[1], s))
            return out
        if name == "update" and (isdict or (recv[0] == "new" and recv[2] == "set")) :
            s = st
            for a in args:
                s = self.dict_update(recv, a, s, node)
            for k, v in kw.items():
                if k == "**":
                    s = self.dict_update(recv, v, s, node)
                else:
                    s = self.setitem(recv, C(k), v, s, node)
            return [("v", NONE, s)]
        if name == "pop" and (isdict or unknown_ok) and args:
            s = self.emit(st, Event("delitem", "pop", recv=recv, args=args[:1]), node)
            v = ("res", next(self.seq), "pop")
            k = self.canon(args[0], s)
            s = s.copy()
            s.heap.pop((recv, "[]", k), None)
            s.ver[recv] = s.ver.get(recv, 0) + 1
            f = s.facts.copy()
            f.atoms[("in", k, recv)] = False
            s.facts = f
            out = [("v", v, s)]
            if len(args) == 1 and (self.fork_all or self.catches(st, ("KeyError", "LookupError"))):
                out.append(("r", ("exc", next(self.seq), "KeyError"), st))
            return out
        if name == "copy" and not args and (isdict or (rt and rt.name in ("list", "set", "dict"))):
            return self.call_ext("copy.copy", [recv], {}, st, node)
        if name in ("append", "add") and len(args) == 1 and (recv[0] == "new" or (rt and rt.name in SEQ_TYPES)
                                                             or recv[0] in ("sub", "elem", "attr", "res", "copy")):
            return [("v", NONE, self.append(recv, args[0], st, node))]
        if name == "extend" and len(args) == 1:
            s = self.emit(st, Event("extend", "extend", recv=recv, args=args), node)
            return [("v", NONE, self.mutate(recv, s))]
        if name in ("clear", "popitem", "insert", "remove", "discard", "sort", "reverse", "popleft") and \
                recv[0] in ("new", "copy", "attr", "p", "sub", "elem"):
            s = self.emit(st, Event("mutcall", name, recv=recv, args=args), node)
            return [("v", ("res", next(self.seq), name), self.mutate(recv, s))]
        if name == "join" and recv == C(b"") and len(args) == 1 and args[0][0] == "tup" and args[0][1] \
                and not any(x[0] == "star" for x in args[0][1]):
            t = args[0][1][0]
            for x in args[0][1][1:]:
                t = ("op", "+", t, x)
            return [("v", t, st)]
        if name == "join" and recv is not None and recv[0] == "c" and recv[1] == "str" and len(args) == 1 and args[0][0] == "tup" and args[0][1] \
                and not any(x[0] == "star" for x in args[0][1]):
            parts = []
            for x in args[0][1]:
                parts += [recv, x]
            return [("v", ("fstr", tuple(parts[1:])), st)]
        if name == "join" and len(args) == 1 and args[0][0] in ("genx", "gen") and self.does_something(args[0]):
            out = []
            for tag, v, s in self._collect(args, {}, st, node, "list"):
                out.extend(self.opaque("join", recv, [v], kw, s, node, ret=Ty("str"), can_raise=False) if tag == "v"
                           else [(tag, v, s)])
            return out
        if name == "join":
            return self.opaque("join", recv, args, kw, st, node, ret=Ty("str"), can_raise=False)
        rets = {"read": Ty("bytes"), "tell": Ty("int"), "getvalue": None, "encode": Ty("bytes"), "decode": Ty("str"),
                "bit_length": Ty("int"), "seek": Ty("int"), "write": Ty("int"), "to_bytes": Ty("bytes"),
                "timestamp": Ty("float"), "format": Ty("str"), "startswith": Ty("bool"), "endswith": Ty("bool"),
                "strip": Ty("str"), "lower": Ty("str"), "hex": Ty("str"), "index": Ty("int"), "find": Ty("int")}
        ret = rets.get(name)
        if name == "getvalue":
            ret = Ty("str") if recv[0] == "new" and recv[2].endswith("StringIO") else Ty("bytes")
        if recv[0] == "superobj":
            if name in ("__init_subclass__", "__new__", "__init__", "__setattr__"):
                if name == "__new__":
                    return [("v", ("new", next(self.seq), self.frames[self.stack[-1]].cls or "object"), st)]
                return [("v", NONE, st)]
        conv = CONV_RAISES.get(name)
        if conv is not None and self.conv_raises:
            ret2 = ret
            rs = list(conv)
            return self.opaque(name, recv, args, kw, st, node, ret=ret2, raises=rs)
        if name == "bit_length" and not args:
            t = ("app", "bit_length", recv)
            s = st.copy()
            s.types[t] = Ty("int")
            f = s.facts.assume_lin(t, ">=", C(0))
            s.facts = f or s.facts
            return [("v", t, s)]
        return self.opaque(name, recv, args, kw, st, node, ret=ret)

    def does_something(self, x):
        """Could running the generator do more than format its items?"""
        if x[0] == "gen":
            return True
        return any(isinstance(n, (ast.Call, ast.NamedExpr, ast.Await)) and not (
            isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in PURE_FORMAT)
            for n in ast.walk(self.lams[x[1]][1].elt))

    def getitem_nofork(self, b, k, st, node):
        return [r for r in self.getitem(b, k, st, node) if r[0] == "v"] or [("v", ("sub", b, k), st)]

    def glob_method(self, g, name, args, st, node):
        items, st = self.glob_items(g, st)
        if items is None:
            return None
        if name == "get":
            d = args[1] if len(args) > 1 else NONE
            out = []
            for tag, v, s in self.getitem(g, args[0], st, node):
                out.append(("v", d, s) if tag == "r" else (tag, v, s))
            return out
        if name == "keys":
            return [("v", ("tup", tuple(i[0] for i in items)), st)]
        if name == "values":
            return [("v", ("tup", tuple(i[1] for i in items)), st)]
        if name == "items":
            return [("v", ("tup", tuple(("tup", i) for i in items)), st)]
        return None

    # ---- construction ------------------------------------------------------------
    def exc_bases(self, name):
        """All class names an exception class is an instance of."""
        if name in self.p.classes:
            out = list(self.p.classes[name].mro)
            for k in self.p.classes[name].mro:
                for b in self.p.classes[k].bases:
                    if b and b[0] == "ext":
                        out += self.exc_bases(b[1].replace("builtins.", ""))
            return out
        if name in EXT_EXC_BASES:
            return EXT_EXC_BASES[name]
        b = getattr(builtins, name, None)
        if isinstance(b, type) and issubclass(b, BaseException):
            return [k.__name__ for k in b.__mro__]
        return [name, "Exception", "BaseException"]

    def is_exc_class(self, cq):
        return "BaseException" in self.exc_bases(cq) and any(
            b and b[0] == "ext" and b[1].split(".")[-1] in ("Exception", "BaseException", "ValueError", "KeyError",
                                                            "TypeError", "RuntimeError", "EOFError", "LookupError")
            for k in self.p.classes[cq].mro for b in self.p.classes[k].bases)

    def construct(self, fv, cq, args, kw, st, node, exact):
        if self.is_exc_class(cq):
            t = ("exc", next(self.seq), cq)
            init = self.find_meth(cq, "__init__")
            named = self.canon_args(init, None, args, kw, True) if init else None
            s = self.emit(st, Event("newexc", cq, args=args, kw=named if named is not None else kw, res=t), node)
            return [("v", t, s)]
        if self.is_enum(cq) and len(args) == 1:
            out = []
            s = st
            ms = self.enum_members(cq)
            a = args[0]
            t = ("app", "enumof:" + cq, a)
            r = [("v", t, st)]
            if self.fork_all or self.catches(st, ("ValueError",)):
                r.append(("r", ("exc", next(self.seq), "ValueError"), st))
            return r
        is_field = self.p.is_subclass(cq, self.FIELD)
        is_struct = self.p.is_subclass(cq, self.STRUCT)
        init = self.find_meth(cq, "__init__")
        if is_field or (is_struct and not exact) or (is_struct and not self.inline_struct_init):
            t = ("new", next(self.seq), cq)
            named = self.canon_args(init, None, args, kw, True) if init else None
            s = self.emit(st, Event("construct", cq, recv=fv, args=args, kw=named if named is not None else kw, res=t), node)
            s.types[t] = Ty(cq)
            self_t = [("v", t, s)]
            if self.fork_all or st.tries:
                self_t.append(("r", ("exc", next(self.seq), "AnyExc", t), s))
            return self_t
        ci = self.p.classes[cq]
        t = ("new", next(self.seq), cq)
        s = self.emit(st, Event("construct", cq, recv=fv, args=args, kw=kw, res=t), node)
        if init is None and ci.is_dataclass:
            fields = self.dataclass_fields(cq)
            names = [f[0] for f in fields]
            given = {}
            for i, a in enumerate(args):
                if i < len(names) and a[0] != "star":
                    given[names[i]] = a
            for k, v in kw.items():
                if k != "**":
                    given[k] = v
            s = s.copy()
            for n, ann, d, mod in fields:
                if n in given:
                    s.heap[(t, n)] = given[n]
                elif d is not None:
                    s = self.dc_default(t, n, d, mod, s, node)
                elif "**" in kw:
                    s.heap[(t, n)] = ("kwget", kw["**"], n)
                else:
                    return self.raised(st, ("exc", next(self.seq), "TypeError"))
            pi = self.find_meth(cq, "__post_init__")
            if pi is not None:
                return [(tag, t if tag == "v" else v, s2) for tag, v, s2 in self.inline(pi, [t], {}, s, node, recv_cls=cq)]
            return [("v", t, s)]
        if init is not None and len(self.stack) <= self.max_depth and not self.recursing_deep(init):
            return [(tag, t if tag == "v" else v, s2) for tag, v, s2 in self.inline(init, [t] + args, kw, s, node, recv_cls=cq)]
        return [("v", t, s)]

    inline_struct_init = False

    def dc_default(self, t, n, d, mod, st, node):
        if isinstance(d, ast.Call) and isinstance(d.func, (ast.Name, ast.Attribute)):
            r = self.p.resolve_expr(mod, d.func)
            if r and r[0] == "ext" and r[1].split(".")[-1] == "field":
                for k in d.keywords:
                    if k.arg == "default":
                        v, s = self.static_value(mod, k.value, st, "dcdefault")
                        s = s.copy()
                        s.heap[(t, n)] = v
                        return s
                    if k.arg == "default_factory":
                        if isinstance(k.value, ast.Name) and k.value.id in ("dict", "list", "set"):
                            o = ("new", next(self.seq), k.value.id)
                            s = self.emit(st, Event("alloc", k.value.id, res=o), node)
                            s.cont[o] = ()
                            s.heap[(t, n)] = o
                            cq = t[2]
                            ty = self.attr_type(cq, n)
                            if ty:
                                s.types[o] = Ty(k.value.id, ty.args)
                            return s
        v, s = self.static_value(mod, d, st, "dcdefault")
        s = s.copy()
        s.heap[(t, n)] = v
        return s

    # ---- external functions -----------------------------------------------------
    def call_ext(self, name, args, kw, st, node):
        short = name.split(".")[-1]
        n = name[9:] if name.startswith("builtins.") else name
        h = getattr(self, "x_" + n.replace(".", "_"), None)
        if h is not None:
            r = h(args, kw, st, node)
            if r is not None:
                return r
        if n in ("typing.cast", "typing_extensions.cast") and len(args) == 2:
            return [("v", args[1], st)]
        if short in ("partial",) and n.startswith("functools") and args:
            return [("v", ("partial", args[0], tuple(args[1:]), tuple(kw.items())), st)]
        if n in ("functools.wraps",):
            s = self.emit(st, Event("wraps", "wraps", args=args[:1]), node)
            return [("v", ("ext", "functools.<wraps>"), s)]
        if n == "functools.<wraps>":
            s = self.emit(st, Event("wraps", "apply", recv=args[0] if args else None), node)
            return [("v", args[0] if args else NONE, s)]
        if n in ("copy.copy", "copy.deepcopy") and len(args) >= 1:
            t = ("copy", next(self.seq), short, args[0])
            s = self.emit(st, Event("copy", short, args=args, res=t), node)
            return [("v", t, s)]
        if n in ("io.BytesIO", "io.StringIO"):
            t = ("new", next(self.seq), n)
            s = self.emit(st, Event("alloc", n, args=args, res=t), node)
            return [("v", t, s)]
        if n in ("bytearray", "memoryview", "array.array"):
            t = ("new", next(self.seq), n)
            s = self.emit(st, Event("alloc", n, args=args, res=t), node)
            return [("v", t, s)]
        if n == "object":
            t = ("new", next(self.seq), "object")
            return [("v", t, st)]
        if self.is_ext_exc(n):
            t = ("exc", next(self.seq), n)
            s = self.emit(st, Event("newexc", n, args=args, kw=kw, res=t), node)
            return [("v", t, s)]
        if n == "warnings.warn":
            s = self.emit(st, Event("warn", "warn", args=args, kw=kw), node)
            return [("v", NONE, s)]
        if n in ("struct.calcsize", "math.ceil", "math.floor", "int.bit_length") or n in PURE_BUILTINS:
            key = "ceil" if n == "math.ceil" else n
            if all(is_const(self.resolve(a, st)) for a in args) and args and n in ("int", "str", "bool", "bytes", "abs", "len", "ord", "chr", "repr", "min", "max") and not kw:
                try:
                    return [("v", C(getattr(builtins, n)(*[self.resolve(a, st)[2] for a in args])), st)]
                except Exception:
                    return self.raised(st, ("exc", next(self.seq), "ValueError"))
            if n == "int" and len(args) == 1 and self.is_numeric(args[0], st):
                return [("v", args[0], st)]
            t = ("app", key) + tuple(args)
            s = st
            if n in ("struct.calcsize", "math.ceil", "math.floor"):
                s = st.copy()
                s.types[t] = Ty("int")
            if n == "str" and args:
                pass
            return [("v", t, s)]
        if n in ("setattr",) and len(args) == 3:
            s = self.emit(st, Event("setattr", args[1][2] if is_const(args[1]) else None, recv=args[0], args=[args[2]],
                                    extra=args[1]), node)
            if is_const(args[1]):
                s.heap[(args[0], args[1][2])] = args[2]
            return [("v", NONE, s)]
        if n == "delattr" and len(args) == 2:
            s = self.emit(st, Event("delattr", args[1][2] if is_const(args[1]) else None, recv=args[0], extra=args[1]), node)
            return [("v", NONE, s)]
        if n == "super" and len(args) == 2 and args[0][0] == "cls":
            cq, exact, is_type = self.class_of(args[1], st)
            return [("v", ("super", args[1], cq or args[0][1], args[0][1]), st)]
        ret = {"struct.pack": Ty("bytes"), "struct.unpack": Ty("tuple"), "int.from_bytes": Ty("int"),
               "inspect.get_annotations": Ty("dict"), "typing.get_type_hints": Ty("dict"),
               "typing.get_args": Ty("tuple"), "codecs.encode": Ty("bytes"),
               "more_itertools.always_iterable": Ty("Iterable", [Ty("Any")])}.get(n)
        if any(a[0] in ("lam", "genx", "gen", "partial", "bound", "fn") for a in list(args) + list(kw.values())) and \
                n not in KNOWN_HOF:
            st = st.tainted(f"higher-order external {n}")
        if n in CONV_RAISES and self.conv_raises:
            return self.opaque(n, None, args, kw, st, node, ret=ret, raises=CONV_RAISES[n])
        return self.opaque(n, None, args, kw, st, node, ret=ret, can_raise=short not in CANNOT_RAISE)

    def is_ext_exc(self, n):
        if n in EXT_EXC_BASES:
            return True
        b = getattr(builtins, n, None)
        return isinstance(b, type) and issubclass(b, BaseException)

    def x_len(self, args, kw, st, node):
        if len(args) != 1:
            return None
        x = args[0]
        cq, exact, is_type = self.class_of(x, st)
        if cq and not is_type and self.find_meth(cq, "__len__"):
            fi = self.find_meth(cq, "__len__")
            if not self.recursing(fi) and not self.p.is_subclass(cq, self.STRUCT):
                return self.inline(fi, [x], {}, st, node, recv_cls=cq)
            return self.opaque("__len__", x, [], {}, st, node, ret=Ty("int"), fi=fi, self_bound=True)
        c = self.resolve(x, st)
        if c[0] == "copy" and c[2] in ("set", "frozenset") and st.ver.get(c, 0) == 0 and \
                (strip_copies(c)[0] in ("p", "kwget", "attr", "res", "c", "tup") or c[3][0] == "copy" and c[3][2] in ("list", "tuple")):
            return [("v", ("app", "len", c), st)]            # repeated elements count once
        return [("v", self.length(x, st), st)]

    def x_isinstance(self, args, kw, st, node):
        if len(args) != 2:
            return None
        out = []
        for r, s in self.isinst(args[0], args[1], st):
            out.append(("v", TRUE if r else FALSE, s))
        return out

    def class_name(self, c):
        if c[0] == "cls":
            return c[1]
        if c[0] == "ext":
            return c[1].split(".")[-1] if c[1].split(".")[-1] != "error" else c[1]
        if c[0] == "app" and c[1] == "type":
            return "NoneType" if c[2] == NONE else None
        return None

    def isinst(self, x, c, st):
        if c[0] == "tup":
            pend, out = [st], []
            for k in c[1]:
                nxt = []
                for s in pend:
                    for r, s2 in self.isinst(x, k, s):
                        if r:
                            out.append((True, s2))
                        else:
                            nxt.append(s2)
                pend = nxt
            return out + [(False, s) for s in pend]
        name = self.class_name(c)
        rx = self.resolve(x, st)
        if name is None:
            atom = ("isinst?", x, c)
            return self.fork(st, st.facts.assume_atom(atom, True), st.facts.assume_atom(atom, False))
        if rx[0] == "c":
            return [(self.builtin_isinst(rx[1], name), st)]
        if rx[0] == "enum":
            return [(rx[1] == name or name in ("Enum", "object"), st)]
        if rx[0] == "cls":
            return [(name == "type", st)]
        if rx[0] in ("fn", "lam", "bound", "partial"):
            return [(name in ("Callable", "FunctionType", "object"), st)]
        if rx[0] == "fstr":
            return [(self.builtin_isinst("str", name), st)]
        if rx[0] == "tup":
            return [(name in ("tuple", "Sequence", "Iterable", "Sized", "Collection", "object", "Container"), st)]
        if rx[0] == "lin":
            return [(name in ("int", "object"), st)]
        if rx[0] in ("gen", "genx"):
            return [(name in ("Iterator", "Iterable", "Generator"), st)]
        cq, exact, is_type = self.class_of(x, st)
        if is_type:
            if name == "type":
                return [(True, st)]
        elif cq is not None:
            if exact:
                return [(name in self.class_bases(cq), st)]
            if name in self.class_bases(cq):
                # an option given by the caller is whatever it is, not what its annotation promises
                if not (self.typeof(x, st) and self.typeof(x, st).optional) and not (
                        rx[0] in ("p", "kwget") and self.is_enum(cq)):
                    return [(True, st)]
        if rx[0] == "new" and rx[2] not in self.p.classes:
            return [(self.builtin_isinst(rx[2], name), st)]
        ty = self.typeof(x, st)
        if ty and not ty.optional and ty.name in ("bytes", "str", "int", "list", "dict", "tuple") and rx[0] != "p" and rx[0] != "attr" and rx[0] != "kwget":
            if self.builtin_isinst(ty.name, name):
                return [(True, st)]
            if ty.name not in ("int",) and name in BUILTIN_KINDS:
                return [(False, st)]
        # known facts
        for at, v in st.facts.atoms.items():
            if at[0] == "isinst" and at[1] == x:
                if v and self.sub_of(at[2], name):
                    return [(True, st)]
                if v and self.disjoint(at[2], name):
                    return [(False, st)]
                if not v and self.sub_of(name, at[2]):
                    return [(False, st)]
        atom = ("isinst", x, name)
        f1 = st.facts.assume_atom(atom, True)
        if f1 is not None:
            f1 = f1.assume_const(x, NONE, False) if x not in st.facts.eqc else (None if st.facts.eqc[x] == NONE else f1)
            if f1 is not None and x in f1.eqc:
                pass
        f0 = st.facts.assume_atom(atom, False)
        return self.fork(st, f1, f0)

    def class_bases(self, cq):
        out = set(self.p.classes[cq].mro) | {"object"}
        for k in self.p.classes[cq].mro:
            for b in self.p.classes[k].bases:
                if b and b[0] == "ext":
                    n = b[1].split(".")[-1]
                    out.add(n)
                    if n in ("Mapping", "MutableMapping"):
                        out |= {"Mapping", "Sized", "Iterable", "Container", "Collection"}
        return out

    def sub_of(self, a, b):
        if a == b or b == "object":
            return True
        if a in self.p.classes:
            return b in self.class_bases(a)
        return self.builtin_isinst(a, b)

    def builtin_isinst(self, tn, name):
        if tn == name or name == "object":
            return True
        return name in BUILTIN_SUPER.get(tn, ())

    def disjoint(self, a, b):
        ka, kb = a in self.p.classes, b in self.p.classes
        if ka and kb:
            return not (b in self.p.classes[a].mro or a in self.p.classes[b].mro) and not any(
                a in self.p.classes[s].mro and b in self.p.classes[s].mro for s in self.p.classes)
        if a in BUILTIN_KINDS and b in BUILTIN_KINDS:
            return not self.builtin_isinst(a, b) and not self.builtin_isinst(b, a)
        if ka and b in BUILTIN_KINDS or kb and a in BUILTIN_KINDS:
            return True
        return False

    def x_issubclass(self, args, kw, st, node):
        if len(args) != 2:
            return None
        x, c = args
        name = self.class_name(c)
        if c[0] == "tup" or name is None:
            atom = ("issub?", x, c)
        else:
            if x[0] == "cls":
                return [("v", TRUE if name in self.class_bases(x[1]) else FALSE, st)]
            cq, exact, is_type = self.class_of(x, st)
            if is_type and cq is not None:
                if name in self.class_bases(cq):
                    return [("v", TRUE, st)]
                if exact or (name in self.p.classes and self.disjoint(cq, name)):
                    return [("v", FALSE, st)]
            for at, v in st.facts.atoms.items():
                if at[0] == "issub" and at[1] == x and v and name in self.p.classes and at[2] in self.p.classes:
                    if name in self.p.classes[at[2]].mro:
                        return [("v", TRUE, st)]
                    if self.disjoint(at[2], name):
                        return [("v", FALSE, st)]
                # an instance of an in-package class is not a class
            atom = ("issub", x, name)
        return [("v", TRUE if r else FALSE, s) for r, s in
                self.fork(st, st.facts.assume_atom(atom, True), st.facts.assume_atom(atom, False))]

    def x_callable(self, args, kw, st, node):
        x = self.resolve(args[0], st)
        if x[0] in ("fn", "lam", "bound", "cls", "partial"):
            return [("v", TRUE, st)]
        if x[0] in ("c", "enum", "new", "tup", "lin"):
            return [("v", FALSE, st)]
        ty = self.typeof(x, st)
        atom = ("callable", x)
        f1 = st.facts.assume_atom(atom, True)
        f0 = st.facts.assume_atom(atom, False)
        if f1 is not None:
            f1 = f1.assume_const(x, NONE, False)
        return [("v", TRUE if r else FALSE, s) for r, s in self.fork(st, f1, f0)]

    def x_bool(self, args, kw, st, node):
        if len(args) != 1:
            return None
        return [("v", TRUE if r is True else FALSE, s) if isinstance(r, bool) else ("r", r, s)
                for r, s in self.truth(args[0], st, node)]

    def x_hasattr(self, args, kw, st, node):
        x, n = args
        if is_const(n):
            if (x, n[2]) in st.heap:
                return [("v", TRUE, st)]
            cq, exact, is_type = self.class_of(x, st)
            if cq is not None and (self.p.find_class_attr(cq, n[2]) or self.find_meth(cq, n[2])):
                return [("v", TRUE, st)]
        atom = ("hasattr", x, n)
        return [("v", TRUE if r else FALSE, s) for r, s in
                self.fork(st, st.facts.assume_atom(atom, True), st.facts.assume_atom(atom, False))]

    def x_getattr(self, args, kw, st, node):
        if len(args) < 2:
            return None
        x, n = args[0], args[1]
        if is_const(n):
            if len(args) == 2 or x[0] == "ext":
                return self.getattr(x, n[2], st, node)
            out = []
            for tag, v, s in self.x_hasattr([x, n], {}, st, node):
                if v == TRUE:
                    out.extend(self.getattr(x, n[2], s, node))
                else:
                    out.append(("v", args[2], s))
            return out
        if len(args) == 3:
            out = []
            for tag, v, s in self.x_hasattr([x, n], {}, st, node):
                if v == TRUE:
                    out.extend(self.opaque("getattr", x, [n], {}, s, node, can_raise=True))
                else:
                    out.append(("v", args[2], s))
            return out
        return self.opaque("getattr", x, [n], {}, st, node)

    def x_type(self, args, kw, st, node):
        if len(args) != 1:
            return None
        cq, exact, is_type = self.class_of(args[0], st)
        if exact and not is_type and args[0] not in self.exact_terms:
            return [("v", ("cls", cq), st)]
        if args[0][0] == "c" and args[0] != NONE:
            return [("v", ("ext", args[0][1]), st)]
        return [("v", ("app", "type", args[0]), st)]

    def x_list(self, args, kw, st, node):
        return self._collect(args, kw, st, node, "list")

    def x_tuple(self, args, kw, st, node):
        if len(args) == 1 and args[0][0] == "tup":
            return [("v", args[0], st)]
        return self._collect(args, kw, st, node, "tuple")

    def x_set(self, args, kw, st, node):
        return self._collect(args, kw, st, node, "set")

    def x_frozenset(self, args, kw, st, node):
        if len(args) == 1 and args[0][0] in ("tup", "view"):
            return [("v", args[0] if args[0][0] == "tup" else ("app", "frozenset", args[0]), st)]
        return self._collect(args, kw, st, node, "set")

    def x_sorted(self, args, kw, st, node):
        r = self._collect(args[:1], {}, st, node, "list")
        return [(t, v if t == "r" else ("app", "sorted", v), s) for t, v, s in r]

    def _collect(self, args, kw, st, node, kind):
        if kw:
            return None
        if not args:
            t = self.new(st, kind)
            s = self.emit(st, Event("alloc", kind, res=t), node)
            s.cont[t] = ()
            return [("v", t, s)]
        if len(args) != 1:
            return None
        x = args[0]
        if self.is_lazy(x, st):
            t = self.new(st, kind)
            s = self.emit(st, Event("alloc", kind, res=t, extra="comp", kw={} if x[0] in ("genx", "gen", "lazy", "tup") else {"of": x}), node)
            s.cont[t] = ()
            res = self.iterate(x, s, node, lambda v, s2: [("next", None, self.append(t, v, s2, node))], [])
            return self._exec_to_val(res, t)
        t = ("copy", next(self.seq), kind, self.canon_container(x, st) if x[0] == "view" and x[1] == "values" or x[0] != "view" else x)
        if x[0] == "view" and x[1] == "values":
            t = ("copy", t[1], kind, x)
        s = self.emit(st, Event("copy", kind, args=args, res=t), node)
        return [("v", t, s)]

    def _exec_to_val(self, res, t):
        out = []
        for k, v, s in res:
            if k == "next":
                out.append(("v", t, s))
            elif k == "raise":
                out.append(("r", v, s))
            else:
                out.append(("v", t, s.tainted("loop exit")))
        return out

    def is_lazy(self, x, st):
        if x[0] in ("genx", "gen", "lazy", "tup"):
            return True
        cq, exact, is_type = self.class_of(x, st)
        if cq and not is_type and self.find_meth(cq, "__iter__"):
            return True
        return False

    def x_dict(self, args, kw, st, node):
        t = None
        if len(args) == 1 and self.is_lazy(args[0], st):
            t = self.new(st, "dict")
            s = self.emit(st, Event("alloc", "dict", res=t, extra="comp"), node)
            s.cont[t] = ()
            def body(v, s2):
                if v[0] == "tup" and len(v[1]) == 2:
                    return [("next", None, self.setitem(t, v[1][0], v[1][1], s2, node))]
                return [("next", None, self.dict_update(t, v, s2, node))]
            r = self._exec_to_val(self.iterate(args[0], s, node, body, []), t)
        elif len(args) == 1:
            src = args[0]
            if src[0] == "view" and src[1] == "items":
                src = src[2]
            t = ("copy", next(self.seq), "dict", src)
            s = self.emit(st, Event("copy", "dict", args=args, res=t), node)
            r = [("v", t, s)]
        else:
            t = self.new(st, "dict")
            s = self.emit(st, Event("alloc", "dict", res=t), node)
            s.cont[t] = ()
            r = [("v", t, s)]
        if not kw:
            return r
        out = []
        for tag, v, s in r:
            if tag == "v":
                for k, x in kw.items():
                    s = self.dict_update(t, x, s, node) if k == "**" else self.setitem(t, C(k), x, s, node)
            out.append((tag, v, s))
        return out

    def x_iter(self, args, kw, st, node):
        if len(args) == 1:
            if args[0][0] in ("gen", "genx"):
                return [("v", args[0], st)]
            return [("v", ("iter", args[0], next(self.seq)), st)]
        return None

    def x_next(self, args, kw, st, node):
        it = args[0]
        if it[0] == "iter" and st.loops:
            lid = st.loops[-1]
            src = self.iter_src(it[1], st)
            base, mode = src
            v = self.elem_of(base, mode, lid)
            s = self.emit(st, Event("iter_next", "next", recv=it, args=[v], extra=lid), node)
            s.loopinfo[("next", lid)] = (base, mode)
            out = [("v", v, s)]
            s2 = self.emit(st, Event("iter_stop", "next", recv=it, extra=lid), node)
            s2.loopinfo[("next", lid)] = (base, mode)
            s2.loopinfo[("stop", lid)] = True
            if len(args) > 1:
                out.append(("v", args[1], s2))
            else:
                out.append(("r", ("exc", next(self.seq), "StopIteration"), s2))
            return out
        if it[0] == "genx" or it[0] == "gen":
            # first element of a generator: one generic iteration, then stop
            out = []
            found = []
            def body(v, s2):
                return [("break", v, s2)]
            res = self.iterate(it, st, node, body, [], keep_break=True)
            for k, v, s in res:
                if k == "break":
                    out.append(("v", v, s))
                elif k == "next":
                    out.append(("v", args[1], s) if len(args) > 1 else ("r", ("exc", next(self.seq), "StopIteration"), s))
                elif k == "raise":
                    out.append(("r", v, s))
                else:
                    out.append(("v", ("unk", next(self.seq)), s.tainted("next()")))
            return out
        out = self.opaque("next", it, args[1:], {}, st.tainted("next() on unknown iterator"), node)
        return out

    def x_any(self, args, kw, st, node):
        return self._anyall(args, st, node, True)

    def x_all(self, args, kw, st, node):
        return self._anyall(args, st, node, False)

    def _anyall(self, args, st, node, want):
        def body(v, s):
            out = []
            for r, s2 in self.truth(v, s, node):
                if r is want:
                    out.append(("break", None, s2))
                elif isinstance(r, bool):
                    out.append(("next", None, s2))
                else:
                    out.append(("raise", r, s2))
            return out
        res = self.iterate(args[0], st, node, body, [], keep_break=True)
        out = []
        for k, v, s in res:
            if k == "break":
                out.append(("v", TRUE if want else FALSE, s))
            elif k == "next":
                out.append(("v", FALSE if want else TRUE, s))
            elif k == "raise":
                out.append(("r", v, s))
            else:
                out.append(("v", FALSE, s.tainted("any/all")))
        return out

    def x_sum(self, args, kw, st, node):
        start = args[1] if len(args) > 1 else kw.get("start", C(0))
        acc = ("acc", next(self.seq))
        s0 = st.copy()
        s0.env[acc] = start
        s0.types[start] = Ty("int") if start[0] != "c" else s0.types.get(start, Ty("int"))
        def body(v, s):
            s = s.copy()
            cur = s.env[acc]
            s.env[acc] = self.binop("+", cur, v, s) if self.is_numeric(v, s) or cur[0] in ("phi", "lin") else ("op", "+", cur, v)
            if s.env[acc][0] == "op":
                s.env[acc] = lin_add(cur, v)
            return [("next", None, s)]
        res = self.iterate(args[0], s0, node, body, [acc])
        out = []
        for k, v, s in res:
            if k == "next":
                t = s.env[acc]
                s = s.copy()
                del s.env[acc]
                out.append(("v", t, s))
            elif k == "raise":
                out.append(("r", v, s))
            else:
                out.append(("v", ("unk", next(self.seq)), s.tainted("sum")))
        return out

    def x_map(self, args, kw, st, node):
        return [("v", ("lazy", "map", tuple(args), next(self.seq)), st)]

    def x_filter(self, args, kw, st, node):
        return [("v", ("lazy", "filter", tuple(args), next(self.seq)), st)]

    def x_enumerate(self, args, kw, st, node):
        return [("v", ("lazy", "enumerate", tuple(args) + tuple(kw.values()), next(self.seq)), st)]

    def x_zip(self, args, kw, st, node):
        return [("v", ("lazy", "zip", tuple(args), next(self.seq)), st)]

    def x_itertools_count(self, args, kw, st, node):
        if set(kw) - {"start", "step"} or len(args) > 2:
            return None
        start = args[0] if args else kw.get("start", C(0))
        step = args[1] if len(args) > 1 else kw.get("step", C(1))
        return [("v", ("lazy", "count", (start, step), next(self.seq)), st)]

    def x_reversed(self, args, kw, st, node):
        return [("v", ("app", "reversed", args[0]), st)]

    def x_range(self, args, kw, st, node):
        return [("v", ("app", "range") + tuple(args), st)]

    def x_issubset(self, args, kw, st, node):
        return None

    # ================================================================ iteration
    def iter_src(self, x, st):
        """-> (base term, mode) with mode in values/keys/items/elems/range."""
        if x[0] == "iter":
            return self.iter_src(x[1], st)
        if x[0] == "copy" and x[2] in ("list", "tuple", "set") and st.ver.get(x, 0) == 0:
            return self.iter_src(x[3], st)
        if x[0] == "view":
            return x[2], x[1]
        if x[0] == "app" and x[1] in ("list", "tuple") and len(x) == 3:
            return self.iter_src(x[2], st)
        if x[0] == "app" and x[1] == "range":
            if len(x) == 3 and is_len(x[2]) and len(x[2]) == 3:
                return x[2][2], "range"
            return x, "elems"
        ty = self.typeof(x, st)
        if x[0] == "kwd" or (ty and ty.name in MAPPING_TYPES) or (x[0] in ("new", "copy") and x[2] == "dict"):
            return x, "keys"
        return x, "elems"

    def elem_of(self, base, mode, lid):
        if mode in ("values", "elems"):
            return ("elem", base, lid)
        if mode == "keys":
            return ("key", base, lid)
        if mode == "items":
            return ("tup", (("key", base, lid), ("elem", base, lid)))
        if mode == "range":
            return ("idx", base, lid)

    def iterate(self, x, st, node, body, havoc, keep_break=False, orelse=None):
        """Run body(elem, st) -> exec results for the elements of x; returns exec results after the loop.
        havoc: env keys assigned by the body."""
        cont_kinds = ("next", "cont")

        def finish(kind, val, s):
            if kind == "break" and not keep_break:
                return ("next", val, s)
            return (kind, val, s)

        if x[0] == "tup" and len(x[1]) <= 8 and not any(v[0] == "star" for v in x[1]):
            pend, out = [st], []
            for v in x[1]:
                nxt = []
                for s in pend:
                    for k, val, s2 in body(v, s):
                        if k in cont_kinds:
                            nxt.append(s2)
                        elif k == "break":
                            out.append((k, val, s2))
                        else:
                            out.append((k, val, s2))
                pend = nxt
                self.limit(pend)
            done = [("next", None, s) for s in pend]
            return self._orelse(done, orelse) + [finish(*o) for o in out]
        if x[0] == "view" and x[2] in self.dictlits:
            items, st = self.literal_items(x[2], st)
            if items is not None:
                pick = {"keys": lambda i: i[0], "values": lambda i: i[1]}.get(x[1], lambda i: ("tup", tuple(i)))
                return self.iterate(("tup", tuple(pick(i) for i in items)), st, node, body, havoc, keep_break, orelse)
        if x[0] == "glob" or x in self.dictlits:
            items, st = self.literal_items(x, st)
            if items is not None:
                return self.iterate(("tup", tuple(i[0] for i in items)), st, node, body, havoc, keep_break, orelse)
        if x[0] == "new" and x in st.cont and x[2] in ("list", "tuple", "set") and not st.loopinfo.get(("looped", x)):
            c = st.cont[x]
            if all(not e[1] for e in c):
                return self.iterate(("tup", tuple(e[0] for e in c)), st, node, body, havoc, keep_break, orelse)
        if x[0] == "genx":
            _, e, stack = self.lams[x[1]]
            saved = self.stack
            cstack = list(self.stack)
            def sink(vals, s):
                sv = self.stack
                self.stack = list(cstack)
                try:
                    return body(vals[0], s)
                finally:
                    self.stack = sv
            self.stack = list(stack)
            self.extra_havoc = getattr(self, "extra_havoc", [])
            old = self.extra_havoc
            self.extra_havoc = old + list(havoc)
            try:
                res = self.comp_loop(e, e.generators, st, [e.elt], sink)
            finally:
                self.stack = saved
                self.extra_havoc = old
            done = [o for o in res if o[0] in cont_kinds]
            return self._orelse([("next", None, o[2]) for o in done], orelse) + [
                finish(*o) for o in res if o[0] not in cont_kinds]
        if x[0] == "gen":
            fi, args, kw, parent = self.gens[x[1]]
            if self.recursing_deep(fi) or len(self.stack) > self.max_depth:
                s = st.tainted(f"recursive generator {fi.qual}")
                return [("next", None, s)]
            old = getattr(self, "extra_havoc", [])
            self.extra_havoc = old + list(havoc)
            cq = None
            if fi.cls is not None and args:
                cq = self.class_of(args[0], st)[0]
            try:
                res = self.inline(fi, args, kw, st, node, recv_cls=cq, parent=parent, on_yield=(body, list(self.stack)))
            finally:
                self.extra_havoc = old
            out, done = [], []
            for tag, v, s in res:
                if tag == "v":
                    done.append(("next", None, s))
                elif v[0] == "genexit":
                    out.append(finish(v[1], v[2], s))
                else:
                    out.append(("raise", v, s))
            return self._orelse(done, orelse) + out
        if x[0] == "lazy":
            kind, a = x[1], x[2]
            if kind == "map" and len(a) == 2:
                def b2(v, s):
                    out = []
                    for tag, r, s2 in self.call(a[0], [v], {}, s, node):
                        if tag == "r":
                            out.append(("raise", r, s2))
                        else:
                            out.extend(body(r, s2))
                    return out
                return self.iterate(a[1], st, node, b2, havoc, keep_break, orelse)
            if kind == "filter":
                def b3(v, s):
                    out = []
                    cs = [("v", v, s)] if a[0] == NONE else self.call(a[0], [v], {}, s, node)
                    for tag, r, s2 in cs:
                        if tag == "r":
                            out.append(("raise", r, s2))
                            continue
                        for t, s3 in self.truth(r, s2, node):
                            if t is True:
                                out.extend(body(v, s3))
                            elif t is False:
                                out.append(("next", None, s3))
                            else:
                                out.append(("raise", t, s3))
                    return out
                return self.iterate(a[1], st, node, b3, havoc, keep_break, orelse)
            if kind == "count":
                # for i in itertools.count(a, s): the same as i = a; while True: ...; i += s
                key = (self.stack[-1] if self.stack else 0, f"<count {next(self.seq)}>")
                s0 = st.copy()
                s0.env[key] = a[0]
                def bc(v, s):
                    i = s.env[key]
                    s = s.copy()
                    s.env[key] = lin_add(i, a[1])
                    return body(i, s)
                return self.loop(s0, node, None, None, bc, list(havoc) + [key], keep_break, orelse,
                                 cond=lambda s: [(True, s)])
            if kind == "enumerate":
                def b4(v, s):
                    lid = s.loops[-1] if s.loops else 0
                    i = ("count", lid)
                    s = s.copy()
                    s.types[i] = Ty("int")
                    idx = i
                    if len(a) > 1:
                        idx = lin_add(i, a[1])
                    return body(("tup", (idx, v)), s)
                return self.iterate(a[0], st, node, b4, havoc, keep_break, orelse)
            if kind == "zip" and a:
                def counts(o):
                    return o[0] == "lazy" and o[1] == "count" and is_num_const(o[2][1])
                j = next((i for i, o in enumerate(a) if not counts(o)), 0)
                def b5(v, s):
                    lid = s.loops[-1] if s.loops else 0
                    vals = []
                    for i, o in enumerate(a):
                        if i == j:
                            vals.append(v)
                        elif counts(o):
                            s = s.copy()
                            s.types[("count", lid)] = Ty("int")
                            vals.append(lin_add(o[2][0], lin_scale(("count", lid), o[2][1][2])))
                        else:
                            base, mode = self.iter_src(o, s)
                            vals.append(self.elem_of(base, mode, lid))
                    return body(("tup", tuple(vals)), s)
                return self.iterate(a[j], st, node, b5, havoc, keep_break, orelse)
            st = st.tainted("lazy " + kind)
        cq, exact, is_type = self.class_of(x, st)
        if cq and not is_type:
            it = self.find_meth(cq, "__iter__")
            if it is not None and not self.recursing(it):
                out = []
                for tag, v, s in self.call(("bound", x, it.qual), [], {}, st, node):
                    if tag == "r":
                        out.append(("raise", v, s))
                    else:
                        out.extend(self.iterate(v, s, node, body, havoc, keep_break, orelse))
                return out
        if cq and is_type and self.is_enum(cq):
            return self.iterate(("tup", tuple(("enum", cq, m) for m in self.enum_members(cq))), st, node, body, havoc,
                                keep_break, orelse)
        base, mode = self.iter_src(x, st)
        generic = None
        if base[0] == "new" and base in st.cont and base[2] in ("list", "tuple", "set") and mode == "elems":
            c = st.cont[base]
            if len(c) == 1 and c[0][1]:
                generic = c[0][0]
        return self.loop(st, node, base, mode, body, havoc, keep_break, orelse, generic)

    def _orelse(self, done, orelse):
        if not orelse:
            return done
        out = []
        for k, v, s in done:
            if k == "next":
                out.extend(self.block(orelse, s))
            else:
                out.append((k, v, s))
        return out

    def mutated_in(self, st0, outs):
        """Objects whose content or attributes changed between st0 and any of outs."""
        objs, attrs = set(), set()
        for _, _, s in outs:
            n = s.ev
            while n is not None and n is not st0.ev:
                e = n[1]
                if e.kind in ("setitem", "append", "update", "delitem", "extend", "mutcall"):
                    objs.add(e.recv)
                if e.kind == "setattr" and e.name:
                    attrs.add((e.recv, e.name))
                n = n[0]
        return objs, attrs

    def havoc_state(self, st, lid, keys, objs, attrs, inits):
        s = st.copy()
        for k in keys:
            if k in s.env:
                t = ("phi", lid, k)
                ty = self.typeof(s.env[k], s)
                inits[k] = s.env[k]
                s.env[k] = t
                if ty and ty.name != "None":
                    s.types[t] = ty
        for o in objs:
            s = self.mutate_keep(o, s)
        for (b, a) in attrs:
            if (b, a) in s.heap:
                t = ("phi", lid, ("attr", b, a))
                inits[("attr", b, a)] = s.heap[(b, a)]
                ty = self.typeof(s.heap[(b, a)], s)
                s.heap[(b, a)] = t
                if ty and ty.name != "None":
                    s.types[t] = ty
        return s

    def mutate_keep(self, o, st):
        s = st.copy()
        for key in [x for x in s.heap if len(x) == 3 and x[0] == o]:
            del s.heap[key]
        s.ver[o] = s.ver.get(o, 0) + 1000
        f = s.facts.copy()
        for a in [a for a in f.atoms if a[0] == "in" and a[2] == o]:
            del f.atoms[a]
        s.facts = f
        s.loopinfo[("looped", o)] = True
        return s

    def loop(self, st, node, base, mode, body, havoc, keep_break, orelse, generic=None, cond=None):
        """Generic loop. For `for`: base/mode; for `while`: cond(st) -> [(bool|exc, st)]."""
        lid = next(self.seq)
        keys = list(havoc) + [k for k in getattr(self, "extra_havoc", []) if k not in havoc]
        keys = [k for k in keys if k in st.env]
        enter = self.emit(st, Event("loop_begin", mode or "while", recv=base, extra=lid), node)
        enter = enter.copy()
        enter.loopinfo[lid] = {"base": base, "mode": mode, "iter": False, "end": None, "node": node}

        def run(s0, inits):
            """One generic iteration from s0 (already havocked): -> body results"""
            s = s0.copy()
            s.loops = st.loops + (lid,)
            info = dict(s.loopinfo[lid])
            info["iter"] = True
            info["inits"] = inits
            s.loopinfo[lid] = info
            s = self.emit(s, Event("iter_begin", mode or "while", recv=base, extra=lid), node)
            if cond is not None:
                outs = []
                for r, s2 in cond(s):
                    if r is True:
                        outs.extend(body(None, s2))
                    elif r is False:
                        outs.append(("condfalse", None, s2))
                    else:
                        outs.append(("raise", r, s2))
                return outs
            v = generic if generic is not None else self.elem_of(base, mode, lid)
            outs = []
            if self.conv_raises and base is not None and base[0] == "res" and base[2] in ITER_RAISES:
                for x in ITER_RAISES[base[2]]:
                    outs.append(("raise", ("exc", next(self.seq), x, base), s))
            return outs + list(body(v, s))

        # ---- dry pass: what does an iteration change?
        inits = {}
        hs = self.havoc_state(enter, lid, keys, (), (), inits)
        saved_lb, self.loopbacks = self.loopbacks, []
        self.dry += 1
        try:
            dry = run(hs, inits)
        finally:
            self.dry -= 1
            self.loopbacks = saved_lb
        objs, attrs = self.mutated_in(hs, dry)
        posts = {}
        for kind, v, s in dry:
            if kind in ("next", "cont"):
                for k in keys:
                    posts.setdefault(k, set()).add(s.env.get(k))
                for (b, a) in attrs:
                    posts.setdefault(("attr", b, a), set()).add(s.heap.get((b, a)))
        inits = {}
        hs = self.havoc_state(enter, lid, keys, objs, attrs, inits)
        # monotone counters
        index_of = None
        for k, init in inits.items():
            phi = ("phi", lid, k)
            ps = posts.get(k, set())
            deltas = set()
            for t in ps:
                if t is None:
                    deltas = None
                    break
                d = lin_add(t, phi, -1) if (t[0] in ("lin",) or t == phi) else None
                if d is None or not is_num_const(d):
                    deltas = None
                    break
                deltas.add(d[2])
            if deltas is not None and deltas and self.is_numeric(init, st) :
                hs.types[phi] = Ty("int")
                f = None
                if all(d >= 0 for d in deltas):
                    f = hs.facts.assume_lin(phi, ">=", init)
                elif all(d <= 0 for d in deltas):
                    f = hs.facts.assume_lin(phi, "<=", init)
                if f is not None:
                    hs = hs.with_facts(f)
            elif ps and all(t == phi for t in ps):
                # unchanged on every path back: keep the initial value
                hs = hs.copy()
                if isinstance(k, tuple) and k and k[0] == "attr":
                    hs.heap[(k[1], k[2])] = init
                else:
                    hs.env[k] = init
        outs = run(hs, inits)
        after, exits = [], []
        for kind, v, s in outs:
            s = s.copy()
            s.loops = st.loops
            info = dict(s.loopinfo[lid])
            if kind in ("next", "cont"):
                info["posts"] = {k: s.env.get(k) for k in keys}
                s.loopinfo[lid] = info
                s = self.emit(s, Event("iter_end", mode or "while", recv=base, extra=lid), node)
                if not self.dry:
                    self.loopbacks.append((lid, s))
                if cond is not None:
                    s.loops = st.loops + (lid,)
                    s = self.emit(s, Event("recheck", "while", recv=base, extra=lid), node)
                    for r, s2 in cond(s):
                        s2 = s2.copy()
                        s2.loops = st.loops
                        if r is False:
                            after.append(self.end_loop(s2, lid, "exhausted", node, base, mode))
                        elif r is not True:
                            exits.append(("raise", r, s2))
                else:
                    after.append(self.end_loop(s, lid, "exhausted", node, base, mode))
            elif kind == "condfalse":
                continue     # covered by the zero-iteration path and the re-check after an iteration
            elif kind == "break":
                s = self.end_loop(s, lid, "break", node, base, mode)
                if keep_break:
                    exits.append(("break", v, s))
                else:
                    exits.append(("next", None, s))
            else:
                info["end"] = kind
                s.loopinfo[lid] = info
                exits.append((kind, v, s))
        # zero iterations
        if cond is not None:
            z = enter.copy()
            for r, s2 in cond(z):
                if r is False:
                    after.append(self.end_loop(s2, lid, "exhausted", node, base, mode))
                elif r is not True:
                    exits.append(("raise", r, s2))
        else:
            zs = enter
            f = zs.facts
            if mode in ("elems", "keys", "values", "items", "range") and base[0] not in ("app",):
                ln = self.length(base, zs)
                f = f.assume_lin(ln, "==", C(0)) if not is_num_const(ln) else (f if ln[2] == 0 else None)
            if f is not None:
                after.append(self.end_loop(zs.with_facts(f), lid, "exhausted", node, base, mode))
        done = self._orelse([("next", None, s) for s in after], orelse)
        res = done + exits
        self.limit(res)
        return res

    def end_loop(self, s, lid, how, node, base, mode):
        s = self.emit(s, Event("loop_end", how, recv=base, extra=lid), node)
        info = dict(s.loopinfo[lid])
        info["end"] = how
        if s.loopinfo.get(("next", lid)):
            info["base"], info["mode"] = s.loopinfo[("next", lid)]
            if s.loopinfo.get(("stop", lid)):
                info["end"] = "exhausted"
        s.loopinfo[lid] = info
        return s

    # ================================================================ statements
    def block(self, stmts, st):
        pend = [st]
        out = []
        for x in stmts:
            nxt = []
            for s in pend:
                for kind, v, s2 in self.stmt(x, s):
                    if kind == "next":
                        nxt.append(s2)
                    else:
                        out.append((kind, v, s2))
            pend = nxt
            self.limit(pend)
            if not pend:
                break
        out.extend(("next", None, s) for s in pend)
        self.limit(out)
        return out

    def stmt(self, x, st):
        m = getattr(self, "st_" + type(x).__name__, None)
        if m is None:
            return [("next", None, st.tainted(f"statement {type(x).__name__}"))]
        return m(x, st)

    def vals(self, results, f):
        out = []
        for tag, v, s in results:
            if tag == "r":
                if v[0] == "genexit":
                    out.append(("raise", v, s))
                else:
                    out.append(("raise", v, s))
            else:
                out.extend(f(v, s))
        return out

    def st_Expr(self, x, st):
        if isinstance(x.value, ast.Constant):
            return [("next", None, st)]
        def f(v, s):
            if v[0] in ("genx",) or v[0] == "lazy":
                pass        # a lazy iterable that's never consumed does nothing
            return [("next", None, s)]
        return self.vals(self.ev(x.value, st), f)

    def st_Pass(self, x, st):
        return [("next", None, st)]

    st_Global = st_Nonlocal = st_Pass

    def st_Import(self, x, st):
        s = st.copy()
        for a in x.names:
            nm = (a.asname or a.name.split(".")[0])
            full = a.name if a.asname else a.name.split(".")[0]
            s.env[(self.stack[-1], nm)] = ("mod", full) if full.split(".")[0] == "binobj" else ("ext", full)
        return [("next", None, s)]

    def st_ImportFrom(self, x, st):
        s = st.copy()
        for a in x.names:
            nm = a.asname or a.name
            if x.module and x.module.split(".")[0] == "binobj":
                r = self.p.lookup(x.module, a.name)
                if r is not None:
                    v, s2 = self.symbol_value(r, s, x.module + "." + a.name)
                    s = s2.copy()
                    s.env[(self.stack[-1], nm)] = v
                    continue
            s.env[(self.stack[-1], nm)] = ("ext", (x.module or "") + "." + a.name)
        return [("next", None, s)]

    def st_Return(self, x, st):
        if x.value is None:
            return [("ret", NONE, st)]
        return self.vals(self.ev(x.value, st), lambda v, s: [("ret", v, s)])

    def st_Break(self, x, st):
        return [("break", None, st)]

    def st_Continue(self, x, st):
        return [("cont", None, st)]

    def st_Assert(self, x, st):
        out = []
        for r, s in self.cond(x.test, st):
            if r is True:
                out.append(("next", None, s))
            elif r is False:
                out.append(("raise", ("exc", next(self.seq), "AssertionError"), s))
            else:
                out.append(("raise", r, s))
        return out

    def st_If(self, x, st):
        # `if TYPE_CHECKING:` never runs
        t = x.test
        if (isinstance(t, ast.Name) and t.id == "TYPE_CHECKING") or (isinstance(t, ast.Attribute) and t.attr == "TYPE_CHECKING"):
            return self.block(x.orelse, st)
        out = []
        for r, s in self.cond(x.test, st):
            if r is True:
                out.extend(self.block(x.body, s))
            elif r is False:
                out.extend(self.block(x.orelse, s))
            else:
                out.append(("raise", r, s))
        self.limit(out)
        return out

    def st_Assign(self, x, st):
        def f(v, s):
            pend = [s]
            out = []
            for t in x.targets:
                nxt = []
                for s2 in pend:
                    for k, val, s3 in self.assign(t, v, s2, x):
                        if k == "next":
                            nxt.append(s3)
                        else:
                            out.append((k, val, s3))
                pend = nxt
            return out + [("next", None, s2) for s2 in pend]
        return self.vals(self.ev(x.value, st), f)

    def st_AnnAssign(self, x, st):
        if x.value is None:
            return [("next", None, st)]
        def f(v, s):
            res = self.assign(x.target, v, s, x)
            ty = self.parse_ann(self.frames[self.stack[-1]].module, x.annotation)
            if ty and ty.name not in ("Any", "Union") and not is_const(v) and v not in s.types and not is_singleton(v):
                for _, _, s2 in res:
                    if v[0] in ("new", "copy", "res", "unk"):
                        s2.types[v] = ty if v[0] != "new" else Ty(v[2] if v[2] in CONTAINERS else ty.name, ty.args)
            return res
        return self.vals(self.ev(x.value, st), f)

    def st_AugAssign(self, x, st):
        op = OPS.get(type(x.op), "?")
        load = ast.copy_location(_as_load(x.target), x.target)
        def f(vals, s):
            cur, v = vals
            if op == "+" and cur[0] == "new" and cur[2] in ("list",):
                s = self.emit(s, Event("extend", "extend", recv=cur, args=[v]), x)
                s = self.mutate(cur, s)
                return [("next", None, s)]
            if op == "+" and cur[0] == "new" and cur[2] == "bytearray":
                s = self.emit(s, Event("extend", "extend", recv=cur, args=[v]), x)
                return [("next", None, self.mutate(cur, s))]
            if op == "|" and cur[0] in ("new", "copy") and cur[2] in ("dict", "set"):
                return [("next", None, self.dict_update(cur, v, s, x))]
            r = self.binop(op, cur, v, s)
            return self.assign(x.target, r, s, x)
        return self.vals(self.ev_list([load, x.value], st), f)

    def assign(self, t, v, st, node):
        """-> exec results"""
        if isinstance(t, ast.Name):
            s = st.copy()
            fid = self.stack[-1]
            f = fid
            while f is not None and t.id not in self.frames[f].locals:
                f = self.frames[f].parent
            s.env[(f if f is not None else fid, t.id)] = v
            if f is None:
                s = self.emit(s, Event("setglobal", t.id, args=[v]), node)
            return [("next", None, s)]
        if isinstance(t, ast.Attribute):
            def f(b, s):
                a = self.mangle(t.attr)
                s = self.emit(s, Event("setattr", a, recv=b, args=[v]), node)
                # descriptors/properties with setters aren't used by the package
                s.heap[(b, a)] = v
                return [("next", None, s)]
            return self.vals(self.ev(t.value, st), f)
        if isinstance(t, ast.Subscript):
            if isinstance(t.slice, ast.Slice):
                def fs(b, s):
                    s = self.emit(s, Event("setslice", "setslice", recv=b, args=[v]), node)
                    return [("next", None, self.mutate(b, s))]
                return self.vals(self.ev(t.value, st), fs)
            def g(vals, s):
                b, k = vals
                cq, exact, is_type = self.class_of(b, s)
                if cq is not None and not is_type:
                    fi = self.find_meth(cq, "__setitem__")
                    if fi is not None and not self.recursing(fi):
                        return [("next" if tag == "v" else "raise", r, s2) for tag, r, s2 in
                                self.inline(fi, [b, k, v], {}, s, node, recv_cls=cq)]
                return [("next", None, self.setitem(b, k, v, s, node))]
            return self.vals(self.ev_list([t.value, t.slice], st), g)
        if isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            if v[0] == "tup" and len(v[1]) == n and not any(isinstance(x, ast.Starred) for x in t.elts):
                vals = v[1]
            else:
                vals = [("sub", v, C(i)) for i in range(n)]
            pend = [st]
            out = []
            for x, val in zip(t.elts, vals):
                if isinstance(x, ast.Starred):
                    x, val = x.value, ("unk", next(self.seq))
                nxt = []
                for s in pend:
                    for k, r, s2 in self.assign(x, val, s, node):
                        if k == "next":
                            nxt.append(s2)
                        else:
                            out.append((k, r, s2))
                pend = nxt
            return out + [("next", None, s) for s in pend]
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, node)
        return [("next", None, st.tainted("assignment target"))]

    def st_Delete(self, x, st):
        pend = [st]
        out = []
        for t in x.targets:
            nxt = []
            for s in pend:
                if isinstance(t, ast.Name):
                    s = s.copy()
                    s.env.pop((self.stack[-1], t.id), None)
                    nxt.append(s)
                elif isinstance(t, ast.Subscript):
                    for tag, vals, s2 in self.ev_list([t.value, t.slice], s) if not isinstance(t.slice, ast.Slice) else [("v", [("unk", 0), ("unk", 0)], s.tainted("del slice"))]:
                        if tag == "r":
                            out.append(("raise", vals, s2))
                            continue
                        b, k = vals
                        cq, exact, is_type = self.class_of(b, s2)
                        fi = self.find_meth(cq, "__delitem__") if cq and not is_type else None
                        if fi is not None and not self.recursing(fi):
                            for tg, r, s3 in self.inline(fi, [b, k], {}, s2, x, recv_cls=cq):
                                if tg == "r":
                                    out.append(("raise", r, s3))
                                else:
                                    nxt.append(s3)
                            continue
                        s3 = self.emit(s2, Event("delitem", "del", recv=b, args=[k]), x)
                        kk = self.canon(k, s3)
                        s3 = s3.copy()
                        s3.heap.pop((b, "[]", kk), None)
                        s3.ver[b] = s3.ver.get(b, 0) + 1
                        f = s3.facts.copy()
                        f.atoms[("in", kk, b)] = False
                        s3.facts = f
                        nxt.append(s3)
                        if self.fork_all or self.catches(s2, ("KeyError", "LookupError")):
                            out.append(("raise", ("exc", next(self.seq), "KeyError"), s2))
                elif isinstance(t, ast.Attribute):
                    for tag, b, s2 in self.ev(t.value, s):
                        if tag == "r":
                            out.append(("raise", b, s2))
                        else:
                            s2 = self.emit(s2, Event("delattr", self.mangle(t.attr), recv=b), x)
                            nxt.append(s2)
                else:
                    nxt.append(s.tainted("del target"))
            pend = nxt
        return out + [("next", None, s) for s in pend]

    def st_FunctionDef(self, x, st):
        fr = self.frames[self.stack[-1]]
        i = next(self.seq)
        fi = FuncInfo(fr.fn.qual + "." + x.name, x, fr.module)
        self.lams[i] = (fi, fr.fid)
        s = st.copy()
        v = ("lam", i)
        if x.decorator_list and not all(deco in ("wraps", "overload") for deco in [d.split(".")[-1] for d in fi.decorators]):
            if fi.has_deco("contextmanager"):
                pass
            else:
                s = s.tainted(f"decorated inner function {x.name}")
        s.env[(fr.fid, x.name)] = v
        return [("next", None, s)]

    def st_ClassDef(self, x, st):
        s = st.tainted(f"inner class {x.name}")
        s.env[(self.stack[-1], x.name)] = ("unk", next(self.seq))
        return [("next", None, s)]

    def st_For(self, x, st):
        fid = self.stack[-1]
        names = assigned_names(x.body + [x.target])
        havoc = [(self.owner(fid, n), n) for n in names]

        def body(v, s):
            out = []
            for k, val, s2 in self.assign(x.target, v, s, x):
                if k == "next":
                    out.extend(self.block(x.body, s2))
                else:
                    out.append((k, val, s2))
            return out

        def f(it, s):
            return self.iterate(it, s, x, body, havoc, orelse=x.orelse)
        return self.vals(self.ev(x.iter, st), f)

    def owner(self, fid, n):
        f = fid
        while f is not None and n not in self.frames[f].locals:
            f = self.frames[f].parent
        return f if f is not None else fid

    def st_While(self, x, st):
        fid = self.stack[-1]
        names = assigned_names(x.body) | {n.target.id for n in ast.walk(x.test) if isinstance(n, ast.NamedExpr)}
        havoc = [(self.owner(fid, n), n) for n in names]
        idx = self.index_loop(x, st)
        if idx is not None:
            var, arr, bodyst = idx
            def body(v, s):
                s = s.copy()
                s.env[(self.owner(fid, var), var)] = v
                return self.block(bodyst, s)
            base, mode = self.iter_src(arr, st)
            if mode in ("elems", "keys", "values"):
                res = self.loop(st, x, base, "range", body, [h for h in havoc if h[1] != var], False, x.orelse)
                return res
        return self.loop(st, x, None, None, lambda v, s: self.block(x.body, s), havoc, False, x.orelse,
                         cond=lambda s: self.cond(x.test, s))

    def index_loop(self, x, st):
        """`i = 0; while i < len(X): ... i += 1` as iteration over X (increment last, no continue)."""
        t = x.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
            return None
        l, r, op = t.left, t.comparators[0], t.ops[0]
        if isinstance(op, ast.Gt):
            l, r, op = r, l, ast.Lt()
        if not (isinstance(op, (ast.Lt, ast.NotEq)) and isinstance(l, ast.Name)):
            return None
        fid = self.stack[-1]
        if st.env.get((self.owner(fid, l.id), l.id)) != C(0):
            return None
        last = x.body[-1]
        if not (isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name)
                and last.target.id == l.id and isinstance(last.value, ast.Constant) and last.value.value == 1):
            return None
        rest = x.body[:-1]
        if l.id in assigned_names(rest) or any(isinstance(n, ast.Continue) for b in rest for n in ast.walk(b)):
            return None
        rs = self.ev(r, st)
        if len(rs) != 1 or rs[0][0] != "v" or not is_len(rs[0][1]) or len(rs[0][1]) != 3:
            return None
        return l.id, rs[0][1][2], rest

    def st_Raise(self, x, st):
        if x.exc is None:
            if st.excs:
                return [("raise", st.excs[-1], self.emit(st, Event("reraise", "raise", args=[st.excs[-1]]), x))]
            return [("raise", ("exc", next(self.seq), "RuntimeError"), st)]
        def f(v, s):
            v = self.as_exception(v, s)
            out = []
            for vv, s2 in v:
                s2 = self.emit(s2, Event("raise", "raise", args=[vv]), x)
                out.append(("raise", vv, s2))
            return out
        if x.cause is not None and not isinstance(x.cause, ast.Constant):
            def g(vals, s):
                return f(vals[0], s)
            return self.vals(self.ev_list([x.exc, x.cause], st), g)
        return self.vals(self.ev(x.exc, st), f)

    def as_exception(self, v, st):
        if v[0] == "exc":
            return [(v, st)]
        if v[0] == "cls":
            return [(("exc", next(self.seq), v[1]), st)]
        if v[0] == "ext":
            return [(("exc", next(self.seq), v[1]), st)]
        return [(v, st)]

    def exc_name(self, v):
        if v[0] == "exc":
            return v[2]
        return "AnyExc"

    def handler_types(self, h, st):
        """Names of the classes a handler catches, or None for unknown."""
        if h.type is None:
            return ["BaseException"]
        names = []
        elts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for e in elts:
            rs = self.ev(e, st)
            if len(rs) != 1 or rs[0][0] != "v":
                return None
            v = rs[0][1]
            vs = v[1] if v[0] == "tup" else [v]
            for y in vs:
                if y[0] == "cls":
                    names.append(y[1])
                elif y[0] == "ext":
                    names.append(y[1][9:] if y[1].startswith("builtins.") else y[1])
                else:
                    return None
        return names

    def catches(self, st, names):
        for t in st.tries:
            for types in t:
                if types is None:
                    return True
                for n in types:
                    if n in names or n in ("Exception", "BaseException"):
                        return True
        return False

    def st_Try(self, x, st):
        types = tuple(tuple(t) if t is not None else None for t in (self.handler_types(h, st) for h in x.handlers))
        s0 = st.copy()
        if x.handlers:
            s0.tries = st.tries + (types,)
        elif x.finalbody:
            s0.tries = st.tries + ((),)
        body = self.block(x.body, s0)
        out = []
        for kind, v, s in body:
            s = s.copy()
            s.tries = st.tries
            if kind == "next" and x.orelse:
                out.extend(self.block(x.orelse, s))
            elif kind == "raise" and v[0] != "genexit":
                out.extend(self.handle(x, types, v, s))
            else:
                out.append((kind, v, s))
        if not x.finalbody:
            return out
        res = []
        for kind, v, s in out:
            for k2, v2, s2 in self.block(x.finalbody, s):
                if k2 == "next":
                    res.append((kind, v, s2))
                else:
                    res.append((k2, v2, s2))
        return res

    st_TryStar = None

    def handle(self, x, types, v, s):
        name = self.exc_name(v)
        out = []
        cur = s
        for h, ts in zip(x.handlers, types):
            if ts is None:
                match = None
                cur = cur.tainted("unresolved except clause")
            elif name == "AnyExc":
                # excluded classes so far?
                match = True if "BaseException" in ts else None
            else:
                bases = self.exc_bases(name)
                match = any(t in bases for t in ts)
                if not match and any(name in self.exc_bases(t) for t in ts):
                    match = None       # could be a subclass
            if match is False:
                continue
            hs = cur.copy()
            hv = v
            if ts is not None and name == "AnyExc":
                for t in ts:
                    hv = ("exc", v[1], v[2]) + tuple(v[3:]) + (("caught", tuple(ts)),) if len(v) > 3 else v
                    break
            hs = self.emit(hs, Event("except", "except", args=[hv], extra=ts), h)
            if h.name:
                hs.env[(self.stack[-1], h.name)] = hv
            hs.excs = hs.excs + (hv,)
            for k, val, s2 in self.block(h.body, hs):
                s2 = s2.copy()
                s2.excs = s.excs
                out.append((k, val, s2))
            if match is True:
                return out
        out.append(("raise", v, cur))
        return out

    def st_With(self, x, st):
        return self.with_items(x.items, x.body, st, x)

    def with_items(self, items, body, st, node):
        if not items:
            return self.block(body, st)
        it = items[0]
        out = []
        for tag, v, s in self.ev(it.context_expr, st):
            if tag == "r":
                out.append(("raise", v, s))
                continue
            out.extend(self.with_one(v, it, items[1:], body, s, node))
        return out

    def with_one(self, v, it, rest, body, st, node):
        if v[0] == "gen" and self.gens[v[1]][0].has_deco("contextmanager"):
            fi, args, kw, parent = self.gens[v[1]]
            cq = self.class_of(args[0], st)[0] if fi.cls is not None and args else None

            def on(y, s):
                res = []
                if it.optional_vars is not None:
                    for k, val, s2 in self.assign(it.optional_vars, y, s, node):
                        res.extend(self.with_items(rest, body, s2, node) if k == "next" else [(k, val, s2)])
                else:
                    res = self.with_items(rest, body, s, node)
                return res
            # tell calls in the body they are protected (exceptions are re-raised at the yield)
            s0 = st.copy()
            s0.tries = st.tries + ((),)
            res = self.inline_cm(fi, args, kw, s0, node, cq, parent, on)
            out = []
            for tag, val, s in res:
                s = s.copy()
                s.tries = st.tries
                if tag == "v":
                    out.append(("next", None, s))
                elif val[0] == "genexit":
                    out.append((val[1], val[2], s))
                else:
                    out.append(("raise", val, s))
            return out
        if v[0] == "suppress":
            types = v[1]
            s0 = st.copy()
            s0.tries = st.tries + ((types,),)
            out = []
            for k, val, s in self.with_items(rest, body, s0, node):
                s = s.copy()
                s.tries = st.tries
                if k == "raise" and val[0] != "genexit":
                    name = self.exc_name(val)
                    if name == "AnyExc":
                        s1 = self.emit(s, Event("except", "except", args=[val], extra=types), node)
                        out.append(("next", None, s1))
                        out.append((k, val, s))
                    elif any(t in self.exc_bases(name) for t in types):
                        s1 = self.emit(s, Event("except", "except", args=[val], extra=types), node)
                        out.append(("next", None, s1))
                    else:
                        out.append((k, val, s))
                else:
                    out.append((k, val, s))
            return out
        s = self.emit(st, Event("call", "__enter__", recv=v, res=("res", next(self.seq), "__enter__")), node)
        s = s.tainted(f"with {show(v)}")
        if it.optional_vars is not None:
            out = []
            for k, val, s2 in self.assign(it.optional_vars, ("unk", next(self.seq)), s, node):
                out.extend(self.with_items(rest, body, s2, node) if k == "next" else [(k, val, s2)])
            return out
        return self.with_items(rest, body, s, node)

    def x_contextlib_suppress(self, args, kw, st, node):
        names = []
        for a in args:
            if a[0] == "cls":
                names.append(a[1])
            elif a[0] == "ext":
                names.append(a[1])
            else:
                return None
        return [("v", ("suppress", tuple(names)), st)]

    def inline_cm(self, fi, args, kw, st, node, cq, parent, on):
        """Context manager: yield runs the with-body; its exceptions surface at the yield."""
        def wrapped(y, s):
            res = []
            for k, val, s2 in on(y, s):
                if k == "raise":
                    res.append(("raise", val, s2))
                elif k == "next":
                    res.append(("next", None, s2))
                else:
                    res.append((k, val, s2))
            return res
        self.cm_mode = True
        return self.inline(fi, args, kw, st, node, recv_cls=cq, parent=parent, on_yield=(wrapped, list(self.stack), "cm"))

    # ================================================================ entry
    def analyse(self, fi, self_cls=None, params=None, self_term=None, types=None, pre=None):
        """Analyse a function as an entry point. Returns list of Path."""
        self.exact_terms = dict(self.__class__.exact_terms)
        st = State()
        args = []
        kw = {}
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        first = None
        if fi.cls is not None and not fi.has_deco("staticmethod") and names:
            first = names[0]
        env = {}
        params = params or {}
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n == first:
                t = self_term or ("p", n)
                cq = self_cls or fi.cls.qual
                is_type = fi.has_deco("classmethod") or fi.name in ("__init_subclass__", "__new__", "__class_getitem__")
                exact = not self.p.is_subclass(cq, self.STRUCT)
                self.exact_terms[t] = (cq, exact, is_type)
                st.types[t] = Ty("type", [Ty(cq)]) if is_type else Ty(cq)
            elif n in params:
                t = params[n]
            else:
                t = ("p", n)
                ty = self.parse_ann(fi.module, fi.annotation(n), fi.cls.qual if fi.cls else None)
                if ty and ty.name not in ("Any", "object", "Union"):
                    st.types[t] = ty
            env[n] = t
        if a.vararg:
            env[a.vararg.arg] = params.get(a.vararg.arg, ("p", a.vararg.arg))
            st.types.setdefault(env[a.vararg.arg], Ty("tuple", [Ty("Any")]))
        if a.kwarg:
            env[a.kwarg.arg] = params.get(a.kwarg.arg, ("kwd", (), ("p", a.kwarg.arg)))
            st.types.setdefault(env[a.kwarg.arg], Ty("dict", [Ty("str"), Ty("Any")]))
        for t, ty in (types or {}).items():
            st.types[t] = ty
        if pre:
            st = pre(st, env) or st
        fid = next(self.seq)
        fr = Frame(fid, fi, fi.module, fi.cls.qual if fi.cls else None)
        body = fi.node.body
        fr.locals = assigned_names(body) | set(env)
        fr.locals -= {n for x in ast.walk(fi.node) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        if first:
            fr.self_term = env[first]
        self.frames[fid] = fr
        self.functions_seen.add(fi.qual)
        for n, v in env.items():
            st.env[(fid, n)] = v
        self.stack = [fid]
        self.loopbacks = []
        entry = fi.qual + (f" [{self_cls.split('.')[-1]}]" if self_cls else "")
        try:
            res = self.block(body, st)
        finally:
            self.stack = []
        paths = []
        for kind, v, s in res:
            if kind == "next":
                paths.append(Path("return", NONE, s, entry))
            elif kind == "ret":
                paths.append(Path("return", v, s, entry))
            elif kind == "raise":
                paths.append(Path("raise", v, s, entry))
            else:
                paths.append(Path(kind, v, s, entry))
        self.lb_paths = [Path("loopback", ("loop", lid), s, entry) for lid, s in self.loopbacks]
        return paths


class _CompFn:
    def __init__(self, fn):
        self.qual, self.module, self.cls, self.node = fn.qual, fn.module, fn.cls, fn.node
        self.is_gen = False
        self.decorators = []

    name = "<comp>"

    def has_deco(self, *n):
        return False


def canon_components(t):
    """('key', comps, lid) for an element of a components mapping; key term for comps[key]."""
    def is_comps(x):
        return x[0] == "attr" and x[2] == "components"
    if t[0] == "elem" and is_comps(t[1]):
        return ("key", t[1], t[2])
    if t[0] == "sub" and is_comps(t[1]):
        return t[2]
    return None


def _as_load(t):
    import copy
    t = copy.deepcopy(t)
    for n in ast.walk(t):
        if hasattr(n, "ctx"):
            n.ctx = ast.Load()
    return t


EMPTY_ARGS = ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])

OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
       ast.LShift: "<<", ast.RShift: ">>", ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.MatMult: "@"}
PYOPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b,
         "//": lambda a, b: a // b, "%": lambda a, b: a % b, "**": lambda a, b: a ** b if abs(b) < 64 else 1 / 0,
         "<<": lambda a, b: a << b if b < 256 else 1 / 0, ">>": lambda a, b: a >> b, "|": lambda a, b: a | b,
         "&": lambda a, b: a & b, "^": lambda a, b: a ^ b}
CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
       ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
KNOWN_HOF = {"codecs.iterdecode", "collections.ChainMap", "min", "max", "functools.update_wrapper"}
BUILTIN_KINDS = {"int", "str", "bytes", "bytearray", "list", "dict", "tuple", "float", "type", "set", "NoneType"}
BUILTIN_SUPER = {
    "bool": ("int",), "int": (), "float": (),
    "str": ("Sequence", "Sized", "Iterable", "Collection", "Container", "Reversible"),
    "bytes": ("Sequence", "Sized", "Iterable", "Collection", "Container", "ByteString"),
    "bytearray": ("Sequence", "MutableSequence", "Sized", "Iterable", "Collection", "Container"),
    "list": ("Sequence", "MutableSequence", "Sized", "Iterable", "Collection", "Container"),
    "tuple": ("Sequence", "Sized", "Iterable", "Collection", "Container"),
    "dict": ("Mapping", "MutableMapping", "Sized", "Iterable", "Collection", "Container"),
    "set": ("Sized", "Iterable", "Collection", "Container"),
}
