from ..loader import AnalysisBroken
from ..report import UNKNOWN, Undecided
from ..terms import *

UNDEF = "_Undefined"
STREAM_OPS = ("read", "seek", "write", "tell", "truncate", "readline", "readinto", "read1", "peek", "readlines",
              "writelines", "flush", "readall")


class Env:
    """Well-known classes and sentinel values of the package under analysis."""

    def __init__(self, prog):
        self.prog = prog
        self.FIELD = self.cls("binobj.fields", "Field")
        self.STRUCT = self.cls("binobj.structures", "Struct")
        self.META = self.cls("binobj.structures", "StructMetadata")
        self.UNDEFINED = self.sym("binobj.fields", "UNDEFINED")
        self.DEFAULT = self.sym("binobj.fields", "DEFAULT")
        self.NOT_PRESENT = self.sym("binobj.fields", "NOT_PRESENT")

    def cls(self, mod, name):
        r = self.prog.lookup(mod, name)
        if not r or r[0] != "cls":
            raise AnalysisBroken(f"public class {mod}.{name} not found")
        return r[1]

    def err(self, name):
        return self.cls("binobj.errors", name)

    def sym(self, mod, name):
        from ..engine import Engine, State
        r = self.prog.lookup(mod, name)
        if r is None:
            raise AnalysisBroken(f"public name {mod}.{name} not found")
        e = Engine(self.prog)
        v, _ = e.symbol_value(r, State(), mod + "." + name)
        return v

    def field_classes(self):
        return [self.FIELD] + sorted(self.prog.subclasses.get(self.FIELD, ()))

    def field(self, name):
        return self.cls("binobj.fields", name)

    def func(self, cq, name):
        fi = self.prog.find_method(cq, name)
        if fi is None:
            raise AnalysisBroken(f"{cq}.{name} not found")
        return fi

    def modfunc(self, mod, name):
        r = self.prog.lookup(mod, name)
        if not r or r[0] != "fn":
            raise AnalysisBroken(f"public function {mod}.{name} not found")
        return self.prog.need_func(r[1])

    def exc_is(self, name, base):
        """Is the exception class `name` (qual or builtin name) a subclass of `base`?"""
        if name == base:
            return True
        if name in self.prog.classes:
            if base in self.prog.classes:
                return self.prog.is_subclass(name, base)
            for k in self.prog.classes[name].mro:
                for b in self.prog.classes[k].bases:
                    if b and b[0] == "ext" and builtin_sub(b[1].split(".")[-1], base):
                        return True
            return False
        return builtin_sub(name.split(".")[-1], base)


def builtin_sub(a, b):
    import builtins
    x, y = getattr(builtins, a, None), getattr(builtins, b, None)
    return isinstance(x, type) and isinstance(y, type) and issubclass(x, y)


def short(q):
    return q.split(".")[-1]


# ------------------------------------------------------------------ facts
def resolve(path, t):
    c = path.facts.const_of(t)
    return c if c is not None else t


def same(path, a, b):
    """Are the terms known to be the same value on this path?"""
    if a == b or resolve(path, a) == resolve(path, b):
        return True
    return False


def eq_fact(path, a, b):
    """Truth of `a == b` if the path decided it."""
    if a == b:
        return True
    ra, rb = resolve(path, a), resolve(path, b)
    if ra == rb:
        return True
    for x, y in ((a, b), (b, a), (ra, b), (a, rb), (rb, a), (b, ra)):
        v = path.facts.atoms.get(("eq", x, y))
        if v is not None:
            return v
        if y[0] == "c" or y[0] == "enum":
            d = path.facts.decide_const(x, y)
            if d is not None:
                return d
    if (a[0] == "c" and not is_num_const(a)) or (b[0] == "c" and not is_num_const(b)):
        return None
    return path.facts.decide_lin(a, "==", b)


def isc(path, t, c):
    """Is t known (not) to be the constant / singleton c?  True/False/None."""
    if t == c:
        return True
    if (t[0] == "c" or t[0] == "enum") and (c[0] == "c" or c[0] == "enum"):
        return False
    return path.facts.decide_const(t, c)


def tv(path, t):
    """Truth value of a term on this path, or None."""
    if t[0] == "c":
        return bool(t[2])
    c = path.facts.const_of(t)
    if c is not None:
        if c[0] == "c":
            return bool(c[2])
        return True
    v = path.facts.atoms.get(("truth", t))
    if v is not None:
        return v
    if t[0] in ("fn", "cls", "bound", "lam", "enum"):
        return True
    if t[0] != "new":
        ln = ("app", "len", t)
        if path.facts.decide_lin(ln, "==", C(0)) is True:
            return False
        if path.facts.decide_lin(ln, ">", C(0)) is True:
            return True
    try:
        d = path.facts.decide_lin(t, "!=", C(0)) if t[0] in ("lin", "res") else None
        if d is not None and path.facts.ivl.get(((t, 1),)):
            return d
    except Exception:
        pass
    return None


def fact_lin(path, a, op, b):
    return path.facts.decide_lin(a, op, b)


def is_inst(path, t, cls):
    return path.facts.atoms.get(("isinst", t, cls))


# ------------------------------------------------------------------ events
def callee(ev):
    if ev.kind != "call":
        return None
    if ev.name == "()":
        return ev.recv
    if ev.recv is None:
        return None
    return ("attr", ev.recv, ev.name)


def calls_of(path, *names):
    return [e for e in path.events if e.kind == "call" and e.name in names]


def arg(ev, name, i):
    """Argument by name, falling back on position (self not counted)."""
    if name in ev.kw:
        return ev.kw[name]
    if i is not None and i < len(ev.args):
        return ev.args[i]
    return None


def stream_events(path, stream, ops=STREAM_OPS):
    return [e for e in path.events if e.kind == "call" and e.recv == stream and e.name in ops]


def passes(ev, t):
    """Does the call receive t (possibly inside a tuple/partial)?"""
    return any(mentions(x, t) for x in list(ev.args) + list(ev.kw.values()))


def exc_origin(exc):
    """(class name, originating call result term)"""
    name = exc[2] if exc[0] == "exc" and len(exc) > 2 else None
    origin = None
    for x in exc[3:]:
        if isinstance(x, tuple) and x and x[0] == "res":
            origin = x
    return name, origin


# ------------------------------------------------------------------ loops
class L:
    def __init__(self, lid, path):
        self.lid, self.path = lid, path
        self.info = path.loopinfo.get(lid, {})
        self.base, self.mode = self.info.get("base"), self.info.get("mode")
        self.iter, self.how = self.info.get("iter"), self.info.get("end")
        self.begin = self.end = None
        for i, e in enumerate(path.events):
            if e.extra == lid and e.kind == "loop_begin":
                self.begin = i
            if e.extra == lid and e.kind == "loop_end":
                self.end = i

    def events(self):
        return [e for e in self.path.events if self.lid in e.loops]

    def elem(self):
        """Terms denoting the current element."""
        b = self.base
        return {("elem", b, self.lid), ("sub", b, ("key", b, self.lid)), ("sub", b, ("idx", b, self.lid))}

    def key(self):
        return {("key", self.base, self.lid)}

    @property
    def full(self):
        return self.how == "exhausted"

    @property
    def node(self):
        return self.info.get("node")


def loops(path, base_pred=None):
    out = []
    for lid, info in path.loopinfo.items():
        if not isinstance(lid, int):
            continue
        l = L(lid, path)
        if base_pred is None or (l.base is not None and base_pred(l.base)):
            out.append(l)
    out.sort(key=lambda l: l.begin if l.begin is not None else 10 ** 9)
    return out


def current_loop(lb):
    """The loop a loop-back pseudo path belongs to."""
    return L(lb.value[1], lb)


def strip_copy(t):
    while True:
        if t is None:
            return t
        if t[0] == "copy" and t[2] in ("list", "tuple"):
            t = t[3]
        elif t[0] == "app" and t[1] in ("list", "tuple", "iter") and len(t) == 3:
            t = t[2]
        elif t[0] == "view":
            t = t[2]
        else:
            return t


def is_components(t):
    """A struct's mapping of fields."""
    t = strip_copy(t)
    if t is None:
        return False
    if t[0] == "attr" and t[2] == "components":
        return True
    if t[0] == "globv" and str(t[1]).endswith(".components"):
        return True
    return False


def attr_named(t, name):
    return t is not None and ((t[0] == "attr" and t[2] == name) or (t[0] == "globv" and str(t[1]).endswith("." + name)))


# ------------------------------------------------------------------ stream position
def moving_loops(path, stream, neutral=()):
    """Loops of the function one whole iteration of which leaves the stream somewhere else."""
    res = path.result
    if res is None:
        return ()
    memo = res.__dict__.setdefault("_movers", {})
    if (stream, neutral) not in memo:
        out = set()
        for lb in res.lbs:
            l = current_loop(lb)
            if l.begin is None or l.lid in out:
                continue
            pos = Pos(lb, stream, neutral, loop_aware=False)
            if pos.end != pos.at.get(l.begin + 1, pos.end):
                out.add(l.lid)
        memo[stream, neutral] = out
    return memo[stream, neutral]


class Pos:
    """Symbolic stream position: a base token plus a constant offset term."""

    def __init__(self, path, stream, neutral=(), loop_aware=True):
        self.path, self.stream, self.neutral = path, stream, neutral
        self.at = {}          # event idx -> position *before* the event
        self.tells = {}
        self.peeks = []
        self.n = 0
        self.movers = moving_loops(path, stream, neutral) if loop_aware else ()
        pos = ("start",), C(0)
        for i, e in enumerate(path.events):
            self.at[i] = pos
            pos = self.step(pos, e)
        self.end = pos

    def fresh(self):
        self.n += 1
        return ("adv", self.n), C(0)

    def step(self, pos, e):
        if e.kind == "loop_begin":
            return self.fresh() if e.extra in self.movers else pos
        if e.name in self.neutral and e.recv != self.stream:
            return pos        # measured from where a user callback left the stream
        if e.kind == "call" and e.recv == self.stream:
            if e.name == "tell":
                self.tells[e.res] = pos
                return pos
            if e.name == "seek":
                tgt = e.args[0] if e.args else e.kw.get("offset", e.kw.get("cookie"))
                wh = e.args[1] if len(e.args) > 1 else e.kw.get("whence")
                self.tells[e.res] = None
                p = self.seek(pos, tgt, wh)
                self.tells[e.res] = p
                return p
            if e.name in ("read", "readline", "readinto", "read1", "write", "readall", "readlines", "writelines",
                          "truncate"):
                if e.name in ("read", "read1") and e.args and e.args[0] == C(0):
                    return pos
                if e.name == "read" and len(e.args) == 1:
                    n = e.args[0]
                    for at, cnt, res in self.peeks:
                        # these very bytes were looked at before and are known to be all there
                        if at == pos and cnt == n and self.complete(res, n):
                            return pos[0], lin_add(pos[1], n)
                    self.peeks.append((pos, n, e.res))
                return self.fresh()
            if e.name in ("flush", "seekable", "readable", "writable", "getvalue", "getbuffer", "peek"):
                return pos
            return self.fresh()
        if e.kind in ("call", "construct") and passes(e, self.stream):
            return self.fresh()
        return pos

    def complete(self, res, n):
        for t, c in list(self.path.facts.eqc.items()) + [(a[1], a[2]) for a, v in self.path.facts.atoms.items()
                                                         if a[0] == "eq" and v] + \
                [(a[2], a[1]) for a, v in self.path.facts.atoms.items() if a[0] == "eq" and v]:
            if t == res and n in (("app", "len", c), len_term(c)):
                return True
        return False

    def seek(self, pos, tgt, wh):
        w = None
        if wh is None or wh == C(0) or (wh[0] == "ext" and wh[1].endswith("SEEK_SET")):
            w = 0
        elif wh == C(1) or (wh[0] == "ext" and wh[1].endswith("SEEK_CUR")):
            w = 1
        elif wh == C(2) or (wh[0] == "ext" and wh[1].endswith("SEEK_END")):
            w = 2
        if tgt is None:
            return self.fresh()
        if w == 1:
            return pos[0], lin_add(pos[1], tgt)
        if w == 0:
            parts, c = lin_parts(tgt)
            for t, k in parts.items():
                if k == 1 and self.tells.get(t) is not None:
                    base, off = self.tells[t]
                    rest = lin_add(tgt, t, -1)
                    return base, lin_add(off, rest)
            if not parts:
                return ("abs",), tgt
            return self.fresh()
        if w == 2 and tgt == C(0):
            return ("eof",), C(0)
        return self.fresh()

    def restored(self):
        return self.end == (("start",), C(0))


# ------------------------------------------------------------------ common rule pieces
def loop_calls(loop, args=None, want=None):
    """Call events on the element of the loop (called as a function)."""
    out = []
    els = loop.elem()
    for e in loop.events():
        if e.kind == "call" and e.name == "()" and e.recv in els:
            out.append(e)
    return out


def validator_loops(path, owner, attr="validators"):
    return loops(path, lambda b: strip_copy(b) == ("attr", owner, attr))


def ran_validators(path, owner, value, attr="validators", before=None, argsof=None):
    """None if every validator of `owner` ran on exactly `value` before event index `before`."""
    ls = validator_loops(path, owner, attr)
    if before is not None:
        ls = [l for l in ls if l.begin is not None and l.begin < before]
    want = argsof or (value,)
    why = f"no loop over {show(owner)}.{attr}"
    for l in ls:
        if not l.full or (before is not None and (l.end is None or l.end > before)):
            why = f"the loop over {show(owner)}.{attr} can stop before the last validator"
            continue
        if not l.iter:
            return None
        cs = loop_calls(l)
        if not cs:
            why = f"an iteration over {show(owner)}.{attr} calls no validator"
            continue
        for c in cs:
            if len(c.args) == len(want) and all(same(path, a, w) for a, w in zip(c.args, want)) and not c.kw:
                return None
        why = f"validators receive ({', '.join(show(a) for a in cs[0].args)}) instead of ({', '.join(show(w) for w in want)})"
    return why


def lb_runs_elem(report, rule, construct, res, base_pred, name):
    """Every loop-back path of loops over base_pred calls the element."""
    for lb in res.lbs:
        l = current_loop(lb)
        if l.base is not None and base_pred(l.base):
            report.verdict(rule, construct, None if loop_calls(l) else f"an iteration over {name} skips the call", lb)


def final_attr(path, obj, name):
    return path.state.heap.get((obj, name))


def owner_of(p, t, name):
    """The object whose attribute `name` is the container t (directly or as assigned on this path)."""
    t = strip_copy(t)
    if t is None:
        return None
    if t[0] == "attr" and t[2] == name:
        return t[1]
    if t[0] == "globv" and str(t[1]).endswith("." + name):
        return t
    for key, v in p.state.heap.items():
        if len(key) == 2 and key[1] == name and v == t:
            return key[0]
    for e in p.events:
        if e.kind == "setattr" and e.name == name and e.args and e.args[0] == t:
            return e.recv
    return None


def sub_of_attr(p, t, name):
    """t contains an item access into a container that is some object's attribute `name`; returns (owner, key)."""
    for s in subterms(t):
        if s[0] == "sub":
            o = owner_of(p, s[1], name)
            if o is not None:
                return o, s[2]
        if s[0] == "elem":
            o = owner_of(p, s[1], name)
            if o is not None:
                return o, ("key", s[1], s[2])
    return None


def call_event(p, res):
    for e in p.events:
        if e.res == res and e.kind in ("call", "construct", "copy"):
            return e
    return None


def derives(p, t, src, depth=0):
    """t is built from src, looking through results of calls made on this path."""
    if t is None or depth > 6:
        return False
    for s in subterms(t):
        if s == src:
            return True
        if s[0] == "res":
            e = call_event(p, s)
            if e is not None and any(derives(p, a, src, depth + 1) for a in list(e.args) + list(e.kw.values())):
                return True
    return False


def was_in(e, key, cont):
    """Before event e, was `key in cont` known?"""
    return e.facts.atoms.get(("in", key, cont)) if e.facts is not None else None


def loop_nodes(res, pred):
    """Syntax nodes of the loops during which some event satisfies pred (innermost loop of the event)."""
    out = set()
    for p in res.all:
        for e in p.events:
            if e.loops and pred(e):
                for lid in e.loops:
                    info = p.loopinfo.get(lid)
                    if info is not None:
                        out.add(id(info.get("node")))
    return out


def len_term(t, unit=()):
    """Linear term for len(t); `unit` are terms known to be one byte long."""
    if t[0] == "c" and isinstance(t[2], (bytes, str)):
        return C(len(t[2]))
    if t in unit:
        return C(1)
    if t[0] == "op" and t[1] == "+":
        return lin_add(len_term(t[2], unit), len_term(t[3], unit))
    if t[0] == "op" and t[1] == "*":
        for x, n in ((t[2], t[3]), (t[3], t[2])):
            l = len_term(x, unit)
            if is_num_const(l) and (x[0] == "c" and isinstance(x[2], bytes) or x in unit):
                return lin_scale(n, l[2])
    if t[0] == "app" and t[1] == "ljust" and len(t) >= 4:
        return ("app", "len", t)
    if t[0] == "app" and t[1] in ("bytes", "bytearray") and len(t) == 3:
        return len_term(t[2], unit)
    return ("app", "len", t)


def null_repr_kind(p, W, S, env):
    """Classify W as the field's null representation: 'bytes', 'dumped', 'zeros' or None."""
    nv = ("attr", S, "null_value")
    if W == nv:
        return "bytes" if is_inst(p, nv, "bytes") is True else None
    if W[0] == "op" and W[1] == "*":
        for x, n in ((W[2], W[3]), (W[3], W[2])):
            if x == C(b"\x00"):
                e = call_event(p, n)
                if e is not None and e.name == "get_expected_size" and e.recv == S:
                    return "zeros"
                if n in (("attr", S, "_size"), ("attr", S, "size")):
                    return "zeros"
        return None
    if W[0] == "app" and W[1] in ("bytes", "bytearray") and len(W) == 3 and W[2][0] == "res":
        e = call_event(p, W[2])
        return "zeros" if e is not None and e.name == "get_expected_size" and e.recv == S else None
    src = buffer_source(p, W)
    if src is not None:
        ds = [e for e in p.events if e.kind == "call" and e.name == "_do_dump" and arg(e, "stream", 0) == src]
        if len(ds) == 1 and ds[0].recv == S and arg(ds[0], "data", 1) == nv:
            return "dumped"
    return None


def buffer_source(p, W):
    """The in-memory buffer whose complete content W is."""
    e = call_event(p, W)
    if e is not None and e.name == "getvalue":
        return e.recv
    if W[0] == "app" and W[1] == "bytes" and len(W) == 3:
        e = call_event(p, W[2])
        if e is not None and e.name in ("getbuffer", "getvalue"):
            return e.recv
    return None


# ------------------------------------------------------------------ reads and sizes
READ_OPS = ("read", "readline", "readinto", "read1", "readall", "readlines", "peek")


def const_sizes(r, cq):
    """Set of constant `_size` values the constructor of cq leaves, or None when it is not always a constant."""
    res = r.run(r.prog.find_method(cq, "__init__"), cq)
    if res is None:
        return None
    out = set()
    for p in res.returns():
        v = final_attr(p, res.self, "_size")
        if v is None or not is_num_const(v):
            return None
        out.add(int(v[2]))
    return out or None


def fixed_size(r, cq):
    """Does the constructor of cq always leave a size that depends on no other field?"""
    res = r.run(r.prog.find_method(cq, "__init__"), cq)
    if res is None or not res.returns():
        return False
    for p in res.returns():
        v = final_attr(p, res.self, "_size")
        if v is None:
            return False
        if is_num_const(v) or is_len(v) or v[0] == "app" and v[1] == "struct.calcsize":
            continue
        e = call_event(p, v)
        if e is not None and e.kind == "call" and (e.name == "calcsize" or str(e.res[-1]).endswith("calcsize")):
            continue
        return False
    return True


def own_size_term(p, t, S):
    """t is the expected/declared size of S: a get_expected_size() result or the _size attribute."""
    if t in (("attr", S, "_size"), ("attr", S, "size")):
        return True
    e = call_event(p, t)
    return e is not None and e.name == "get_expected_size" and e.recv == S


def used_beyond_compare(p, R, idx):
    """Is the result R used on this path for anything but comparisons and len()?"""
    if p.kind == "return" and any(s == R for s in strip_len(p.value)):
        return True
    for e in p.events[idx + 1:]:
        if e.kind in ("newexc", "raise", "except", "loop_begin", "loop_end", "iter_begin", "iter_end", "warn"):
            continue
        for a in list(e.args) + list(e.kw.values()):
            if any(s == R for s in strip_len(a)):
                return True
        if e.kind == "call" and e.recv == R and e.name not in ("startswith", "endswith", "find", "index", "count", "__len__"):
            return True
    return False


def strip_len(t):
    """Subterms of t, not descending into len(...) or comparisons."""
    stack, seen = [t], set()
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if x[0] == "app" and x[1] in ("len", "==", "!=", "eq"):
            continue
        yield x
        stack.extend(kids(x))


# ------------------------------------------------------------------ mappings of sibling values
def is_fresh_empty(p, t, ev):
    """t is a dict created on this path and still empty when ev happens."""
    if t is None or t[0] != "new":
        return False
    for e in p.events:
        if e is ev:
            break
        if e.kind in ("setitem", "setdefault", "update", "dictupdate") and e.recv == t:
            return False
    al = [e for e in p.events if e.res == t and e.kind == "alloc"]
    return bool(al) and not al[0].args


def covers_struct(p, t, S, depth=0, at=None):
    """Does the mapping t hold the values of all of struct S's fields (when event `at` happens)?  True / False / None (not
    modelled)."""
    if depth > 6 or t is None:
        return None
    if t == S:
        return True
    if t == ("attr", S, "__values__"):
        return False
    e = call_event(p, t)
    if e is not None and e.kind == "call" and e.name == "to_dict" and e.recv == S:
        k = arg(e, "keep_discardable", 0)
        return False if k is None else tv(p, k)
    if e is not None and e.kind in ("call", "construct", "copy"):
        got = [covers_struct(p, a, S, depth + 1, at) for a in list(e.args) + list(e.kw.values())]
        if True in got:
            return True
        if got and all(g is False for g in got):
            return False
        return None
    if t[0] == "copy":
        return covers_struct(p, t[3], S, depth + 1, at)
    if t[0] == "app" and t[1] in ("dict",) and len(t) >= 3:
        return covers_struct(p, t[2], S, depth + 1, at)
    if t[0] == "new":
        if at is not None:
            born = next((i for i, x in enumerate(p.events) if x.res == t and x.kind == "alloc"), None)
            open_ = [l for l in loops(p, is_components) if l.lid in at.loops]
            if born is not None and not p.events[born].args and open_ and open_[0].begin is not None:
                before = [x for x in p.events[born:open_[0].begin] if x.recv == t]
                mine = [x for x in p.events if x.recv == t and open_[0].lid in x.loops]
                if not before and mine and all(x.kind in ("setitem", "setdefault") for x in mine):
                    return False        # being filled field by field: the later ones are still missing
        stores = [x for x in p.events if x.recv == t and x.kind in ("setitem", "setdefault", "update", "dictupdate",
                                                                     "append")]
        lps = loops(p, is_components)
        for l in lps:
            if any(x.kind in ("setitem", "setdefault") and l.lid in x.loops for x in stores):
                return True
        for x in stores:
            if x.kind in ("update", "dictupdate") and x.args:
                g = covers_struct(p, x.args[0], S, depth + 1, at)
                if g is not False:
                    return g
        if lps:
            return None
        al = [x for x in p.events if x.res == t and x.kind in ("alloc", "construct", "call", "copy")]
        if al and al[0].kind == "alloc" and not stores:
            if al[0].args:
                g = [covers_struct(p, a, S, depth + 1, at) for a in al[0].args]
                return True if True in g else None
            return False
    return None


def inlined_helper(r, fi):
    """`fi` is a private helper whose code was analysed as part of every function it runs for."""
    rs = r.prog.roots(fi)
    if fi.qual in rs:
        return False
    for f in rs.values():
        ok = False
        for cq in ([f.cls.qual] + sorted(r.prog.subclasses.get(f.cls.qual, ())) if f.cls is not None else [None]):
            if cq is not None and r.prog.find_method(cq, f.name) is not f:
                continue
            res = r.run(f, cq)
            if res is not None and fi.qual in res.engine.functions_seen:
                ok = True
                break
        if not ok:
            return False
    return True


# ------------------------------------------------------------------ assignment by name
def item_assigned(p, st, key, val):
    """struct[key] = val reaches the field's own assignment on every path that returns."""
    if p.kind != "return":
        return False
    through = False
    for e in p.events:
        if e.kind in ("setitem", "update") and e.recv is not None and attr_named(e.recv, "__values__"):
            return "the value is stored past the field's own assignment"
        if e.kind == "setattr" and e.recv == st and key in (e.name, e.extra) or e.kind == "setitem" and e.recv == st and \
                e.args[:1] == (key,) or e.kind == "call" and e.name in ("setattr", "__setattr__", "__setitem__", "__set__"):
            if e.kind == "call" and e.name == "__set__" or val in e.args:
                through = True
            else:
                return f"{', '.join(map(show, e.args))} is assigned instead of the given value"
    if through:
        return None
    if not any(e.kind in ("setattr", "setitem", "update", "mutcall") or e.kind == "call" and (
            val in e.args or val in e.kw.values()) for e in p.events):
        return "the assignment is dropped without consulting the field"
    return (UNKNOWN, "assignment not recognised")


def check_item_assignment(r, env, rule):
    for cq, owner in ((env.STRUCT, lambda S: S),
                      (env.cls("binobj.structures", "MutableStructMappingProxy"), lambda S: ("attr", S, "struct"))):
        fi = env.prog.find_method(cq, "__setitem__")
        if fi is None:
            r.unknown(rule, f"{short(cq)}.__setitem__", "not defined in the package")
            continue
        res = r.run(fi, cq)
        if res is None:
            r.unknown(rule, fi.qual, "not analysable")
            continue
        r.each(rule, f"{fi.qual}", res, lambda p: item_assigned(p, owner(res.self), res.p(1), res.p(2)))


# ------------------------------------------------------------------ everything given is used
KEEPS_ALL = ("always_iterable", "list", "tuple", "iter", "sorted", "reversed", "chain", "cast", "collapse", "set", "frozenset",
             "fromkeys")
DROPS = ("unique_everseen", "unique_justseen", "islice", "filter", "filterfalse", "takewhile", "dropwhile", "compress",
         "take", "first", "last", "one", "nth", "filter_except", "pop")


def dropped_by(p, t, what, depth=0):
    """Is the collection t, built from the things given, known to leave some of them out?"""
    if t is None or depth > 6:
        return None
    for s in subterms(t):
        nm = None
        args = ()
        if s[0] == "sub" and s[2][0] == "slice":
            return f"only part of the {what}s given is used"
        if s[0] == "res":
            e = call_event(p, s)
            if e is not None:
                nm, args = e.name, list(e.args) + list(e.kw.values())
        elif s[0] == "app":
            nm = s[1]
        elif s[0] == "copy":
            nm = s[2]
        if not isinstance(nm, str):
            continue
        nm = nm.split(".")[-1]
        if nm in DROPS:
            return f"{nm}() can leave a given {what} out"
        if s[0] == "res" and nm not in KEEPS_ALL:
            return (UNKNOWN, f"{what}s are passed through {nm}()")
        for a in args:
            m = dropped_by(p, a, what, depth + 1)
            if m:
                return m
    return None
