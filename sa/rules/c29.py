"""C29: a struct compares, iterates and converts by its defined values only."""
from .common import *

TECHNIQUE = "path-sensitive dataflow: provenance of every name yielded, key and value compared, and item converted, with the facts deciding each"
TEXT = ("str", "bytes", "bytearray")


def check(r):
    env = Env(r.prog)
    it = r.rule("R1 iteration", "Iterating a struct yields, once each, exactly the names whose stored value is not UNDEFINED.")
    eq = r.rule("R2 equality", "Comparison with a struct or mapping is decided by the equality of two dictionaries, of the "
                "defined names and values of each side, both converted the same way; with anything else it is False before "
                "any value is converted and without asking for the struct's size.")
    rec = r.rule("R3 conversion", "recursive_to_dicts turns a struct into its dictionary, a mapping into a dictionary of all its "
                 "converted keys and values, a sequence that is not text into a list of all its converted elements, and "
                 "returns anything else unchanged, passing its options on.")
    td = r.rule("R4 to_dict", "to_dict includes every field: those whose value is not known after the first pass are computed and "
                "added; the result is converted with the caller's options.")
    pr = r.rule("R5 wrappers", "The mapping wrappers yield the names the struct yields, count exactly these, and forward every "
                "access with the same key and value to the struct.")
    STR = env.STRUCT
    fi = env.func(STR, "__iter__")
    res = r.run(fi, STR)
    iteration(r, it, fi.qual, res, res.self if res else None, env)

    fi = env.func(STR, "__eq__")
    res2 = r.run(fi, STR, opaque=("recursive_to_dicts",))
    r.each(eq, fi.qual, res2, lambda p: compared(p, res2, env), need=3)
    if res2 is not None:
        for lb in res2.lbs:
            r.verdict(eq, fi.qual + " values", side(lb, res2, env), lb)

    rd = env.modfunc("binobj.structures", "recursive_to_dicts")
    res3 = r.run(rd, opaque=("recursive_to_dicts",))
    r.each(rec, rd.qual, res3, lambda p: converted(p, res3, env), need=4)
    if res3 is not None:
        for lb in res3.lbs:
            r.verdict(rec, rd.qual + " items", item(lb, res3, rd), lb)

    fi = env.func(STR, "to_dict")
    res4 = r.run(fi, STR, opaque=("recursive_to_dicts",))
    r.each(td, fi.qual, res4, lambda p: result(p, res4, rd), need=2)
    if res4 is not None:
        seen = 0
        for lb in res4.lbs:
            m = completed(lb, res4)
            if m is not False:
                seen += 1
                r.verdict(td, fi.qual + " fields", m, lb)
        if not seen and not any(e.kind == "call" and e.name == "compute_value_for_dump" and e.args and e.args[0] != res4.self
                                for p in res4.all + res4.lbs for e in p.events):
            r.bad(td, fi.qual + " fields", "a field is left out of the dictionary")
        elif not seen:
            r.unknown(td, fi.qual + " fields", "no loop adds the missing fields")

    PROXY = r.prog.lookup("binobj.structures", "StructMappingProxy")
    PQ, MQ = "binobj.structures.StructMappingProxy", "binobj.structures.MutableStructMappingProxy"
    for cq in (PQ, MQ):
        if cq not in r.prog.classes:
            r.unknown(pr, cq, "class not found")
            continue
        nm = short(cq)
        fi = r.prog.find_method(cq, "__iter__")
        if fi is not None:
            res5 = r.run(fi, cq)
            iteration(r, pr, f"{fi.qual} [{nm}]", res5, ("attr", res5.self, "struct") if res5 else None, env)
        fi = r.prog.find_method(cq, "__len__")
        if fi is not None:
            res6 = r.run(fi, cq)
            X = ("attr", res6.self, "struct") if res6 else None
            r.each(pr, f"{fi.qual} [{nm}]", res6, lambda p: counted(p, X, env), need=1)
            if res6 is not None:
                for lb in res6.lbs:
                    r.verdict(pr, f"{fi.qual} [{nm}]", counts(lb, X, env), lb)
        for name in ("__getitem__", "__setitem__", "__delitem__"):
            fi = r.prog.find_method(cq, name)
            if fi is None or fi.cls is None or not fi.cls.qual.startswith("binobj"):
                if cq == MQ or name == "__getitem__":
                    r.unknown(pr, f"{cq}.{name}", "not found")
                continue
            res7 = r.run(fi, cq)
            r.each(pr, f"{fi.qual} [{nm}]", res7, lambda p: forwarded(p, res7, name), need=1)


# ------------------------------------------------------------------ names
def values_of(X):
    return ("attr", X, "__values__")


def about(p, l, X):
    """'all' if the loop runs over the names X yields, 'values' if it runs over X.__values__, 'keys' if over a
    container of names derived from them, else None."""
    b = strip_copy(l.base) if l.base is not None else None
    if b == X:
        return "all"
    if b is not None and b == values_of(X):
        return "values"
    if b is not None and is_components(b) and mentions(b, X):
        return "components"
    return None


def name_terms(l, how):
    out = set(l.key())
    if how == "all" or l.mode in ("elems", "keys"):
        out |= l.elem()
        out.add(("elem", l.base, l.lid))
    elif how == "components":
        out |= {("attr", x, "name") for x in l.elem()}
    return out


def value_terms(p, l, X, how):
    ks = name_terms(l, how)
    out = set()
    for k in ks:
        out |= {("sub", values_of(X), k), ("sub", X, k)}
    if how == "values" and l.mode not in ("elems", "keys"):
        out |= l.elem()
    for e in p.events:
        if e.kind == "call" and e.name == "getattr" and e.recv == X and e.args and e.args[0] in ks:
            out.add(e.res)
        if e.kind == "call" and e.name == "get" and e.recv == values_of(X) and e.args and e.args[0] in ks:
            out.add(e.res)
    return out


def defined(p, l, X, how, env):
    """Is the current value known to be something else than UNDEFINED?"""
    if how == "all":
        return True
    for v in value_terms(p, l, X, how):
        f = eq_fact(p, v, env.UNDEFINED)
        if f is not None:
            return not f
        if tv(p, v) is False:
            return True                 # UNDEFINED is not false
    for a, v in p.facts.atoms.items():
        if a[0] == "in" and a[2] == values_of(X) and a[1] in name_terms(l, how) and not v:
            return False
    return None


def consulted(p, l, X, how):
    """Does the path decide anything about the current name or value?"""
    ts = value_terms(p, l, X, how) | name_terms(l, how)
    facts = list(p.facts.atoms) + [("x", t) for t in list(p.facts.eqc) + list(p.facts.nec)] + \
        [("x", t) for k in p.facts.ivl for t, c in k]
    facts = [a for a in facts if not (a[0] == "in" and (a[2][0] == "new" or is_components(a[2])))]
    return any(mentions(x, t) for a in facts for x in a[1:] if isinstance(x, tuple) for t in ts)


def iteration(r, rule, name, res, X, env):
    if res is None:
        r.unknown(rule, name, "not analysable")
        return
    n = 0
    lists = {bare(p.value) for p in res.all if p.kind == "return" and p.value is not None and bare(p.value)[0] == "new"}
    for lb in res.lbs:
        l = current_loop(lb)
        if not l.iter:
            continue
        how = about(lb, l, X)
        if how is None:
            r.unknown(rule, name, f"iterates over {show(l.base)}", lb)
            continue
        n += 1
        r.verdict(rule, name, yielded(lb, l, X, how, env, lists), lb)
    for p in res.all:
        if p.kind == "return" and p.value is not None and p.value != NONE:
            if bare(p.value) == X or bare(p.value) in lists:
                n += 1
            elif bare(p.value) == values_of(X):
                r.bad(rule, name, "the names of undefined values are yielded as well", p)
            else:
                r.unknown(rule, name, f"returns {show(p.value)}", p)
            continue
        if p.kind == "raise":
            if p.facts is not None and exc_origin(p.value)[0] is not None:
                r.unknown(rule, name, "may raise", p)
            continue
        for l in loops(p):
            if about(p, l, X) and l.iter and not l.full and l.how is not None:
                r.bad(rule, name, "the iteration ends early", p)
    if not n:
        r.unknown(rule, name, "no names are yielded in a loop")


def bare(t):
    """The container an iterator runs over."""
    while t[0] == "iter" or t[0] == "copy" and t[2] in ("list", "tuple"):
        t = t[1] if t[0] == "iter" else t[3]
    return strip_copy(t)


def yielded(p, l, X, how, env, lists=()):
    ys = [e for e in l.events() if e.kind == "yield" and e.extra != "inner" or e.kind == "append" and e.recv in lists]
    d = defined(p, l, X, how, env)
    if not ys:
        if d is False:
            return None
        if d is True:
            return "the name of a defined value is not yielded"
        return (UNKNOWN, "a name is skipped for another reason") if consulted(p, l, X, how) else \
            "the name of a defined value is not yielded"
    if len(ys) > 1:
        return "a name is yielded several times"
    v = ys[0].args[0] if ys[0].args else NONE
    if v not in name_terms(l, how):
        if v in value_terms(p, l, X, how):
            return "a value is yielded instead of its name"
        return (UNKNOWN, f"yields {show(v)}")
    if d is True:
        return None
    if d is False:
        return "the name of an undefined value is yielded"
    return (UNKNOWN, "whether the value is defined is asked in another way") if consulted(p, l, X, how) else \
        "a name is yielded without asking whether its value is defined"


# ------------------------------------------------------------------ equality
def compared(p, res, env):
    other, me = res.p(1), res.self
    if eq_fact(p, other, env.UNDEFINED) is True:
        return False
    s, m = is_inst(p, other, env.STRUCT), is_inst(p, other, "Mapping")
    conv = [e for e in p.events if e.kind == "call" and e.name in ("recursive_to_dicts", "to_dict", "compute_value_for_dump")
            or e.kind == "call" and e.name in ("to_bytes", "get_expected_size")]
    for e in p.events:
        of = e.kw.get("of") if e.kind == "alloc" else None
        if of is not None and (of == me or of == other and s is True):
            return f"{e.name}() asks the struct for its size, which may not be known"
        if e.kind == "alloc" and of is not None and s is not False and of == other:
            return (UNKNOWN, f"{e.name}() of the other object")
    if p.kind == "raise":
        if s is None and m is None and not conv:
            return False
        if s is False and m is False:
            return "comparison with another type raises"
        return False
    if s is False and m is False:
        if conv:
            return "values are converted, which may fail, although the other object is neither a struct nor a mapping"
        if p.value == C(False) or p.value == ("ext", "NotImplemented"):
            return None
        if p.value == C(True):
            return (UNKNOWN, "equal to another type") if same_object(p, me, other) else "equal to an object of another type"
        return (UNKNOWN, f"returns {show(p.value)}")
    if same_object(p, me, other):
        return (UNKNOWN, "compared by identity")
    if p.value in (C(False), ("ext", "NotImplemented")) and s is not True and m is not True and narrow(p, other, me):
        if s is None:
            return "a struct of another class is unequal" if m is False else "comparison is False whatever the other object is"
        return "a mapping is unequal without comparing the values"
    if p.value == ("ext", "NotImplemented"):
        return "comparison with a struct or mapping is refused" if s is True or m is True else (UNKNOWN, "refused")
    if s is None and m is None:
        if p.value == C(False):
            return "comparison is False whatever the other object is" if not asked(p, other) else (UNKNOWN, "type asked in another way")
    pairs = [(a[1], a[2], v) for a, v in p.facts.atoms.items() if a[0] == "eq" and v == (p.value == C(True))]
    why = None
    for a, b, v in pairs:
        ia, ib = image(p, a, me, other), image(p, b, me, other)
        if "raw" in (ia or ()) or "raw" in (ib or ()):
            why = "undefined values are compared"
            continue
        if ia is None or ib is None:
            continue
        if {ia[0], ib[0]} != {"self", "other"}:
            continue
        if ia[1] != ib[1]:
            why = "the two sides are converted differently"
            continue
        if not ia[1]:
            why = "nested structs are not converted before comparing"
            continue
        return None
    if why:
        return why
    if p.value == C(True) and not any(a[0] in ("eq", "is") and v for a, v in p.facts.atoms.items()) and \
            not [a for a in p.facts.atoms if a[0] not in ("isinst", "is", "in", "isinst?")]:
        return "equal without comparing the values"
    if p.value == C(False) and m is not True and s is True and not weighed(p, me, other):
        return "a struct is unequal without comparing the values" if only_types(p, other, me) or narrow(p, other, me) else (UNKNOWN, "decided in another way")
    if p.value == C(False) and m is True and not weighed(p, me, other):
        return "a mapping is unequal without comparing the values" if only_types(p, other, me) or narrow(p, other, me) else (UNKNOWN, "decided in another way")
    return (UNKNOWN, f"returns {show(p.value)}")


def narrow(p, other, me):
    """Only the class of the other object was asked, with isinstance()."""
    if any(e.kind in ("iter_begin", "call") for e in p.events):
        return False
    ats = [a for a in p.facts.atoms if any(mentions(x, other) for x in a[1:] if isinstance(x, tuple))]
    return bool(ats) and all(a[0] == "isinst" and a[1] == other or
                             a[0] == "isinst?" and a[1] == other and a[2] == ("app", "type", me) for a in ats)


def bystander(a, me, other):
    """Whether this is about the identity or the class of the two objects."""
    ends = {me, other, ("app", "type", me), ("app", "type", other), ("attr", me, "__class__"), ("attr", other, "__class__")}
    return a[0] in ("eq", "is") and a[1] in ends and a[2] in ends


def weighed(p, me, other):
    return any(a[0] in ("eq", "is") and not bystander(a, me, other) for a in p.facts.atoms)


def only_types(p, other, me):
    """Nothing but the type of the other object is decided."""
    if any(e.kind == "iter_begin" for e in p.events):
        return False
    for a in p.facts.atoms:
        if a[0] in ("isinst", "issub", "hasattr") or bystander(a, me, other) and ("eq", me, other) != a and ("eq", other, me) != a:
            continue
        return False
    return not [t for t in list(p.facts.eqc) + list(p.facts.nec) if mentions(t, other) and t != other] or True


def asked(p, other):
    return any(mentions(x, other) for a in p.facts.atoms for x in a[1:] if isinstance(x, tuple))


def same_object(p, me, other):
    for a, v in p.facts.atoms.items():
        if a[0] in ("is", "eq") and {a[1], a[2]} == {me, other} and v:
            return True
        if a[0] in ("eq", "is") and all(x[0] == "app" and x[1] == "id" for x in a[1:3] if isinstance(x, tuple) and x) and v:
            return True
    return False


def image(p, t, me, other):
    """(side, options of the conversion or () if not converted) of a dictionary that is compared."""
    e = call_event(p, t)
    opts = ()
    if e is not None and e.name == "recursive_to_dicts":
        D = e.kw.get("item", e.args[0] if e.args else None)
        k = e.kw.get("keep_discardable", e.args[1] if len(e.args) > 1 else C(False))
        c = e.kw.get("context", e.args[2] if len(e.args) > 2 else NONE)
        opts = ("conv", k, c)
    else:
        D = t
    if D is None:
        return None
    if D[0] == "copy" and D[2] == "dict":
        src = D[3]
        if src == other:
            return "other", opts
        if src == me:
            return "self", opts
        return None
    if D in (values_of(me), values_of(other)):
        return ("self" if D == values_of(me) else "other"), opts, "raw"
    if D in (me, other):
        return ("self" if D == me else "other"), opts
    if D[0] == "new":
        who = set()
        for l in loops(p):
            for nm, X in (("self", me), ("other", other)):
                if about(p, l, X) and fills(p, l, D):
                    who.add(nm)
        if len(who) == 1:
            return who.pop(), opts
        return ("?", opts) if who else empty_side(p, D, me, other, opts)
    return None


def fills(p, l, D):
    """The loop adds to D, or nothing was added to it (no element on this path)."""
    ev = [e for e in p.events if e.kind == "setitem" and e.recv == D]
    if any(l.lid in e.loops for e in ev):
        return True
    al = next((i for i, e in enumerate(p.events) if e.res == D and e.kind == "alloc"), None)
    if ev or al is None or l.begin is None or l.begin < al:
        return False
    # the first loop over a side after the (empty) dictionary was made
    nxt = [e.extra for e in p.events[al:] if e.kind == "loop_begin"]
    return bool(nxt) and nxt[0] == l.lid


def empty_side(p, D, me, other, opts):
    return None


def side(p, res, env):
    """One name of one side was looked at."""
    l = current_loop(p)
    other, me = res.p(1), res.self
    if not l.iter or eq_fact(p, other, env.UNDEFINED) is True:
        return False
    for X in (me, other):
        how = about(p, l, X)
        if how is None:
            continue
        sets = [e for e in l.events() if e.kind == "setitem" and e.recv is not None and e.recv[0] == "new"]
        d = defined(p, l, X, how, env)
        if how == "all" and X == me:
            d = True
        if not sets:
            if any(e.kind in ("append", "update") or e.kind == "yield" and e.extra != "inner" for e in l.events()):
                return (UNKNOWN, "collected in another way")
            if d is False:
                return None
            return "a defined value is not compared" if d is True or not consulted(p, l, X, how) else \
                (UNKNOWN, "a name is skipped for another reason")
        e = sets[-1]
        if e.args[0] not in name_terms(l, how):
            return (UNKNOWN, f"key {show(e.args[0])}")
        if e.args[1] not in value_terms(p, l, X, how):
            v = call_event(p, e.args[1])
            Y = other if X == me else me
            if e.args[1] in value_terms_of(p, l, X, Y, how):
                return "the value of one side is compared with itself"
            if v is not None and v.name == "recursive_to_dicts" and v.args and v.args[0] in value_terms(p, l, X, how):
                return None
            return (UNKNOWN, f"value {show(e.args[1])}")
        if d is False:
            return "undefined values are compared"
        if d is None:
            return "undefined values are compared" if not consulted(p, l, X, how) else (UNKNOWN, "defined in another way")
        return None
    return False


def value_terms_of(p, l, X, Y, how):
    ks = name_terms(l, how)
    out = {("sub", values_of(Y), k) for k in ks} | {("sub", Y, k) for k in ks}
    for e in p.events:
        if e.kind == "call" and e.name == "getattr" and e.recv == Y and e.args and e.args[0] in ks:
            out.add(e.res)
    return out


# ------------------------------------------------------------------ conversion
def options(p, e, res):
    """The caller's options are passed on."""
    k = e.kw.get("keep_discardable", C(False))
    c = e.kw.get("context", NONE)
    ps = {n: res.param(n) for n in ("keep_discardable", "context")}
    if ps["keep_discardable"] is not None and k != ps["keep_discardable"] and not same(p, k, ps["keep_discardable"]):
        return "keep_discardable is not passed on"
    if ps["context"] is not None and c != ps["context"] and not same(p, c, ps["context"]):
        return "the context is not passed on"
    return None


def converted(p, res, env):
    if p.kind != "return":
        return False
    x = res.p(0)
    s, m, q = is_inst(p, x, env.STRUCT), is_inst(p, x, "Mapping"), is_inst(p, x, "Sequence")
    text = [is_inst(p, x, t) for t in TEXT]
    istext = True in text
    none = eq_fact(p, x, NONE) is True
    v = p.value
    if v == x:
        if istext or none:
            return None
        if s is not False:
            return "a struct is not converted"
        if m is not False:
            return "a mapping is not converted"
        if q is not False:
            return "a sequence is not converted" if not other_types(p, x) or any(
                is_inst(p, x, t) is False for t in ("list", "tuple", "MutableSequence")) else (UNKNOWN, "sequences asked in another way")
        return None
    e = call_event(p, v)
    if e is not None and e.name == "to_dict" and e.recv == x:
        if s is False:
            return "to_dict() of something that is not a struct"
        return options(p, e, res)
    if s is True:
        return "a struct is not converted with to_dict()" if v[0] == "new" else (UNKNOWN, f"a struct becomes {show(v)}")
    if istext:
        return "text is taken apart" if v[0] == "new" else (UNKNOWN, f"text becomes {show(v)}")
    if v[0] in ("new", "copy"):
        kind = made_of(p, v)
        if m is True:
            return None if kind == "dict" else f"a mapping becomes a {kind}"
        if q is True:
            if None in text and not istext:
                miss = [t for t, k in zip(TEXT, text) if k is None]
                return f"{miss[0]} values are taken apart"
            return None if kind == "list" else f"a sequence becomes a {kind}"
        if s is False and m is False and q is False:
            return "something else than a struct, mapping or sequence is converted"
        return (UNKNOWN, f"becomes {show(v)}")
    return (UNKNOWN, f"becomes {show(v)}")


def made_of(p, v):
    if v[0] == "copy":
        return v[2]
    e = next((e for e in p.events if e.kind == "alloc" and e.res == v), None)
    return e.name if e is not None else "?"


def other_types(p, x):
    return [a for a in p.facts.atoms if a[0] == "isinst" and a[1] == x]


def item(p, res, rd):
    l = current_loop(p)
    x = res.p(0)
    if not l.iter or l.base is None or strip_copy(l.base) != x:
        return (UNKNOWN, f"loops over {show(l.base)}") if l.iter else False
    conv = {}
    for e in p.events:
        if e.kind == "call" and e.name == "recursive_to_dicts":
            conv[e.res] = e
    adds = [e for e in l.events() if e.kind in ("setitem", "append") or e.kind == "yield" and e.extra != "inner"]
    if not adds:
        return "an item is left out" if not any(mentions(t, el) for a in p.facts.atoms for t in a[1:] if isinstance(t, tuple)
                                                for el in l.elem() | l.key()) else "some items are left out"
    e = adds[-1]
    vals = {"k": e.args[0], "v": e.args[1]} if e.kind == "setitem" else {"v": e.args[-1]}
    for w, t in vals.items():
        src = l.key() if w == "k" else l.elem()
        if w == "k" and l.mode in ("elems", "keys"):
            src = src | {("elem", l.base, l.lid)}
        if t in src:
            if w == "k":
                continue                # keys are hashable: no struct, mapping or list among them
            return "an item is not converted"
        c = conv.get(t)
        if c is None:
            return (UNKNOWN, f"item {show(t)}")
        a = c.kw.get("item", c.args[0] if c.args else None)
        if a not in src:
            return "another item is converted" if a in l.key() | l.elem() else (UNKNOWN, f"item {show(a)}")
        m = options(p, c, res)
        if m:
            return m
    return None


# ------------------------------------------------------------------ to_dict
def result(p, res, rd):
    if p.kind != "return":
        return False
    e = call_event(p, p.value)
    if e is None or e.name != "recursive_to_dicts":
        if p.value[0] in ("new", "copy"):
            return "nested structs are not converted" if not any(
                x.kind == "call" and x.name == "recursive_to_dicts" for x in p.events) and not any(
                x.kind == "iter_begin" for x in p.events) else (UNKNOWN, f"returns {show(p.value)}")
        x = call_event(p, p.value)
        if x is not None and x.name == "_to_dict_whatever_possible":
            return "nested structs are not converted"
        return (UNKNOWN, f"returns {show(p.value)}")
    m = options(p, e, res)
    if m:
        return m
    return None


def completed(p, res):
    """A field was looked at to be added to the result."""
    l = current_loop(p)
    if not l.iter or l.base is None or not is_components(strip_copy(l.base)):
        return False
    ev = l.events()
    if any(e.kind == "delitem" for e in ev) or any(a[0] == "truth" and any(s[0] == "attr" and s[2] == "discard"
                                                                          for s in subterms(a[1])) for a in p.facts.atoms
                                                   if mentions_any(a[1], l.elem())):
        return False
    if any(e.kind == "except" for e in ev) or any(e.kind == "call" and e.name == "compute_value_for_dump" and
                                                  e.args and e.args[0] == res.self for e in ev):
        return False                    # first pass: whatever is known
    sets = [e for e in ev if e.kind == "setitem"]
    comp = [e for e in ev if e.kind == "call" and e.name == "compute_value_for_dump"]
    names = {("attr", x, "name") for x in l.elem()} | l.key()
    known = [v for a, v in p.facts.atoms.items() if a[0] == "in" and a[1] in names]
    if not sets:
        if True in known:
            return None
        if any(e.kind == "append" and e.args and (e.args[-1] in l.elem() or e.args[-1] in names) for e in ev):
            return (UNKNOWN, "the missing fields are collected first")
        return "a field is left out of the dictionary"
    e = sets[-1]
    if e.args[0] not in names:
        return (UNKNOWN, f"stored under {show(e.args[0])}")
    if comp and e.args[1] == comp[-1].res:
        return None
    return (UNKNOWN, f"stored value {show(e.args[1])}")


def mentions_any(t, ts):
    return isinstance(t, tuple) and any(mentions(t, x) for x in ts)


# ------------------------------------------------------------------ wrappers
def counted(p, X, env):
    if p.kind != "return":
        return False
    v = p.value
    parts, c = lin_parts(v)
    ts = list(parts)
    if not ts:
        return None if not any(l.iter for l in loops(p)) and v == C(0) else f"the length is always {show(v)}" \
            if not loops(p) else (UNKNOWN, f"length {show(v)}")
    if len(ts) == 1:
        t = ts[0]
        if t[0] == "phi":
            init = (p.loopinfo.get(t[1], {}).get("inits") or {}).get(t[2])
            if init is not None and init != C(0) and is_num_const(init):
                return f"counting starts at {show(init)}"
            return None if parts[t] == 1 else "names are counted several times"
        if t[0] == "app" and t[1] == "len":
            a = strip_copy(t[2])
            if a == X:
                return "the length is the size of the struct in bytes" if t[2] == X else None
            if a == values_of(X):
                return "undefined values are counted"
            if a[0] == "new" and c == 0:
                return None
            if a[0] == "new":
                return "one too many or too few is counted"
        e = call_event(p, t)
        if e is not None and e.name in ("__len__", "get_size", "len"):
            return "the length is the size of the struct in bytes"
    return (UNKNOWN, f"length {show(v)}")


def counts(p, X, env):
    l = current_loop(p)
    if not l.iter:
        return False
    how = about(p, l, X)
    if how is None:
        return (UNKNOWN, f"counts {show(l.base)}")
    d = defined(p, l, X, how, env)
    inc = None
    for k, post in (l.info.get("posts") or {}).items():
        phi = ("phi", l.lid, k)
        diff = lin_add(post, phi, -1)
        if is_num_const(diff):
            inc = (inc or 0) + diff[2]
    if inc is None:
        add = [e for e in l.events() if e.kind == "append"]
        if not add:
            return (UNKNOWN, "counted in another way")
        inc = len(add)
    if not inc and any(e.kind in ("append", "setitem") for e in l.events()):
        return (UNKNOWN, "counted in another way")
    if d is None:
        return (UNKNOWN, "counted without knowing whether the value is defined")
    if d and inc != 1:
        return f"a name counts as {inc}"
    if not d and inc:
        return "an undefined value is counted"
    return None


def forwarded(p, res, name):
    if p.kind != "return":
        return False
    X = ("attr", res.self, "struct")
    key = res.p(1)
    if name == "__getitem__":
        e = call_event(p, p.value)
        if e is not None and e.name == "getattr" and e.recv == X and e.args:
            return None if e.args[0] == key else "the value of another name is returned"
        if p.value == ("sub", values_of(X), key) and p.facts.atoms.get(("in", key, values_of(X))) is not True:
            return "a field whose value is not set explicitly is not found"
        if p.value in (("sub", X, key), ("sub", values_of(X), key)):
            return None
        return f"always {show(p.value)}" if isc(p.value) else (UNKNOWN, f"returns {show(p.value)}")
    if name == "__setitem__":
        for e in p.events:
            if e.kind == "setattr" and e.recv == X and e.extra is not None:
                if e.extra != key:
                    return "another name is set"
                return None if e.args and e.args[0] == res.p(2) else "another value is set"
            if e.kind == "setitem" and e.recv in (X, values_of(X)):
                return None if list(e.args) == [key, res.p(2)] else "another item is set"
        return "the struct is not changed" if not p.events else (UNKNOWN, "set in another way")
    for e in p.events:
        if e.kind == "delitem" and (e.recv in (X, values_of(X))):
            return None if e.args and e.args[0] == key else "another name is deleted"
        if e.kind in ("mutcall", "call") and e.recv == values_of(X) and e.name == "pop":
            return None if e.args and e.args[0] == key else "another name is deleted"
        if e.kind == "setitem" and e.recv in (X, values_of(X)) and e.args and e.args[0] == key:
            return "the name is given a value instead of being deleted"
    if any(a[0] == "in" and a[1] == key and a[2] == values_of(X) and not v for a, v in p.facts.atoms.items()):
        return None
    return "the struct is not changed" if not p.events else (UNKNOWN, "deleted in another way")
