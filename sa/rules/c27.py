"""C27: reported sizes agree with what is written."""
from .common import *
from . import c20

TECHNIQUE = "loop-invariant dataflow over the size accumulators, with case analysis of every contribution, plus term comparison of sizes and writes"


def check(r):
    env = Env(r.prog)
    ln = r.rule("R1 length", "A struct's length adds up, for every one of its fields and starting at 0: nothing for a value that is "
                "not present; the declared size of a field whose size is a number and whose value is neither None nor absent; "
                "or else the expected size or the serialized length of the field's resolved value, with all the struct's "
                "resolved values as siblings.")
    cls = r.rule("R2 class size", "The size of a struct class is the sum over all its fields, starting at 0, and is None as soon as "
                 "a field has no size of its own or may be absent while no value is given for it.")
    val = r.rule("R3 value size", "The size computed for a value is the length of what dumping that value writes when the field has "
                 "no declared size.")
    exp = r.rule("R4 expected size", "The expected size of a field is its declared size if that is a number, the value of the field it "
                 "refers to, or otherwise the size of its own value (the null marker's for None; of its default when no value is "
                 "given); nothing else.")
    att = r.rule("R5 declared size", "A field stores exactly the size it is given or the size of its constant; an array's size is the "
                 "product of a constant count and a fixed element size; a nested field's is its struct's; and `has_fixed_size` "
                 "says whether the size is a number.")

    fi = env.func(env.STRUCT, "__len__")
    res = r.run(fi, env.STRUCT)
    summed(r, ln, fi, res, lambda p, l, d: length(p, l, d, res, env, r))

    for c, name in ((env.META, "get_size"), (env.STRUCT, "get_size")):
        fi = env.func(c, name)
        res = r.run(fi, c)
        if c == env.STRUCT and res is not None and not any(e.kind == "loop_begin" for p in res.all for e in p.events):
            r.each(cls, fi.qual, res, lambda p: forwards(p, res))
            continue
        summed(r, cls, fi, res, lambda p, l, d: class_size(p, l, d, res, env))
        r.each(cls, fi.qual + " unknown", res, lambda p: gives_up(p, res, env))

    for cq in env.field_classes():
        sfi = r.prog.find_method(cq, "_size_for_value")
        dfi = r.prog.find_method(cq, "_do_dump")
        if sfi is None or dfi is None:
            r.unknown(val, cq, "no _size_for_value")
            continue
        if sfi.cls.qual == env.FIELD:
            s = r.run(sfi, cq)
            r.each(val, f"{sfi.qual} [{short(cq)}]", s, lambda p: base_value_size(p, s))
            continue
        value_size(r, val, cq, sfi, dfi)

    for cq in env.field_classes():
        fi = r.prog.find_method(cq, "get_expected_size")
        res = r.run(fi, cq, opaque=("_size_for_value", "_get_null_repr"))
        r.each(exp, f"{fi.qual} [{short(cq)}]", res, lambda p: expected(p, res, env))

    for cq in env.field_classes():
        fi = r.prog.find_method(cq, "__init__")
        res = r.run(fi, cq, opaque=("_size_for_value",))
        c = f"{fi.qual} [{short(cq)}]"
        kind = "array" if r.prog.is_subclass(cq, env.field("Array")) else "nested" if r.prog.is_subclass(cq, env.field("Nested")) \
            else None
        # a class that computes its own size is described by what it passes on
        r.each(att, c, res, lambda p: stores(p, res, kind, env, cq))
        for name in ("has_fixed_size", "size"):
            g = r.prog.find_method(cq, name)
            if g is None:
                r.unknown(att, f"{short(cq)}.{name}", "not found")
                continue
            s = r.run(g, cq)
            r.each(att, f"{g.qual} [{short(cq)}]", s, lambda p: getter(p, s, name))


# ------------------------------------------------------------------ accumulators
def summed(r, rule, fi, res, judge):
    """The function returns the sum of contributions over all components; judge every contribution."""
    entry = fi.qual
    if res is None:
        r.unknown(rule, entry, "not analysable")
        return
    keys = {}
    n = 0
    for p in res.all:
        if p.kind != "return" or p.value == NONE:
            continue
        why = total(p, keys)
        if why is False:
            continue
        r.verdict(rule, entry, why, p)
        n += 1
    if not n:
        r.unknown(rule, entry, "no path returns a sum")
    seen = 0
    for lb in res.lbs:
        l = current_loop(lb)
        k = keys.get((id(l.node), l.lid), keys.get(id(l.node)))
        if k is None:
            continue
        d = step(l, k)
        seen += 1
        if d is None:
            r.unknown(rule, entry + " step", "counter not followed")
            continue
        r.each(rule, entry + " step", res, lambda p: judge(p, l, d), paths=[lb])
    if n and keys and not seen:
        r.unknown(rule, entry, "no loop iteration was followed")


def step(l, k):
    post = (l.info.get("posts") or {}).get(k)
    if post is None:
        return C(0) if k in (l.info.get("inits") or {}) else None
    return lin_add(post, ("phi", l.lid, k), -1)


def total(p, keys):
    """The returned value is an accumulator over all components that starts at 0."""
    parts, c = lin_parts(p.value)
    phis = [t for t in parts if t[0] == "phi"]
    ls = [l for l in loops(p, is_components)]
    if not phis:
        if is_num_const(p.value):
            if not ls:
                return "the sum does not depend on the fields"
            if not any(l.full and l.iter for l in ls[-1:]):
                return None if eq_fact(p, p.value, C(0)) else f"a struct without fields has size {show(p.value)}"
            return (UNKNOWN, f"returns {show(p.value)}")
        e = call_event(p, p.value)
        if e is not None and e.name == "get_size" and not e.args and not e.kw and not p.result.fi.name == "get_size" and all(
                x is e or x.kind == "call" and x.name in ("type", "super") for x in p.events):
            return "the class-level size is taken for the length although a null marker may be longer or shorter than its field"
        return (UNKNOWN, f"returns {show(p.value)}")
    if len(phis) > 1:
        return (UNKNOWN, f"returns {show(p.value)}")
    t = phis[0]
    l = L(t[1], p)
    if not (l.base is not None and is_components(l.base)):
        b = strip_copy(l.base) if l.base is not None else None
        if b is not None and b[0] == "sub" and b[2][0] == "slice" and is_components(b[1]) and \
                any(x not in (None, NONE, C(0), C(1)) for x in b[2][1:]):
            return "not every field is counted"
        return (UNKNOWN, f"sums over {show(l.base) if l.base is not None else '?'}")
    keys[id(l.node)] = keys[id(l.node), l.lid] = t[2]
    if parts[t] != 1:
        return f"returns {show(p.value)}"
    if l.mode not in (None, "keys", "values", "items", "view", "iter") and l.mode is not None and "slice" in str(l.mode):
        return "not every field is counted"
    if l.how != "exhausted":
        return "returns before all fields are counted"
    init = (l.info.get("inits") or {}).get(t[2])
    rest = lin_add(p.value, t, -1)
    if init is None:
        return (UNKNOWN, "initial value not known")
    extra = lin_add(init, rest)
    if extra == C(0):
        return None
    if is_num_const(extra):
        return f"{show(extra)} is added to the sum of the fields' sizes"
    # the last iteration's contribution is part of the returned value
    if l.iter and init == C(0):
        return None if all(about(p, x, l) for x in lin_parts(rest)[0]) else (UNKNOWN, f"returns {show(p.value)}")
    return (UNKNOWN, f"returns {show(p.value)}")


def about(p, t, l, depth=0):
    """Does the contribution concern the loop's field?"""
    if mentions(t, l.base) or any(mentions(t, x) for x in l.elem()):
        return True
    if depth > 4:
        return False
    for s in subterms(t):
        e = call_event(p, s) if s[0] == "res" else None
        if e is not None and (e.recv is not None and about(p, e.recv, l, depth + 1) or
                              any(about(p, a, l, depth + 1) for a in e.args)):
            return True
    return False


def resolved(p, t, S, depth=0):
    """Does the mapping hold the resolved values (absent ones as NOT_PRESENT) of all fields?  True/False/None"""
    if t is None or depth > 6:
        return None
    if t == S or t == ("attr", S, "__values__"):
        return False
    e = call_event(p, t)
    if e is not None and e.kind == "call" and e.name == "to_dict" and e.recv == S:
        k = arg(e, "keep_discardable", 0)
        return True if k == C(True) else False if k in (None, C(False)) else None
    if e is not None and e.kind == "call" and str(t[-1] if t[0] != "res" else e.name).endswith("ChainMap"):
        return resolved(p, e.args[0], S, depth + 1) if e.args else None
    if e is not None and e.kind == "construct" and len(e.args) == 1 and not e.kw and str(e.name).endswith("MappingProxy"):
        return resolved(p, e.args[0], S, depth + 1)
    if e is not None and e.kind == "copy":
        return resolved(p, t[3], S, depth + 1) if t[0] == "copy" else resolved(p, e.args[0], S, depth + 1) if e.args else None
    if t[0] == "copy":
        return resolved(p, t[3], S, depth + 1)
    if t[0] == "app" and t[1] == "dict" and len(t) >= 3:
        return resolved(p, t[2], S, depth + 1)
    if t[0] == "new":
        out = False
        al = [x for x in p.events if x.res == t and x.kind == "alloc"]
        known = bool(al)
        if al and al[0].args:
            out = resolved(p, al[0].args[0], S, depth + 1)
        for x in p.events:
            if x.recv != t:
                continue
            if x.kind in ("setitem", "setdefault") and x.args and len(x.args) > 1:
                v = call_event(p, x.args[1])
                if v is not None and v.name == "compute_value_for_dump":
                    out = True
                elif x.kind == "setitem" and out is True and isc(p, x.args[1], C(0)) is None and v is None:
                    out = None
            elif x.kind in ("update", "dictupdate") and x.args:
                g = resolved(p, x.args[0], S, depth + 1)
                if g is not None:
                    out = g
        # the value may have been unavailable for the field that was looked at, or there are no fields
        if out is False and known:
            for l in loops(p):
                if l.base is not None and is_components(l.base):
                    ev = l.events()
                    if l.full and not l.iter:
                        return True
                    if any(e.kind == "call" and e.name == "compute_value_for_dump" for e in ev) and \
                            any(e.kind == "except" for e in ev) and not any(e.kind == "setitem" and e.recv != t for e in ev):
                        return True
            return None if loops(p, is_components) else False
        return out
    return None


def values_of(p, l):
    """Terms for the value of the loop's field in some mapping: {term: mapping}"""
    names = set(l.key()) | {("attr", el, "name") for el in l.elem()}
    out = {}

    def look(t):
        for s in subterms(t):
            if s[0] == "sub" and s[2] in names:
                out[s] = s[1]
    for t in list(p.facts.eqc) + list(p.facts.nec) + list(p.facts.atoms):
        if isinstance(t, tuple):
            for s in ([t] if isinstance(t[0], str) else []):
                look(s)
    for e in p.events:
        for a in list(e.args) + list(e.kw.values()):
            look(a)
    return out


def missing_in(p, l):
    """Mappings known not to hold the loop's field."""
    names = set(l.key()) | {("attr", el, "name") for el in l.elem()}
    return {a[2] for a, v in p.facts.atoms.items() if a[0] == "in" and a[1] in names and v is False}


def length(p, l, d, res, env, r):
    S = res.self
    els = l.elem()
    vals = values_of(p, l)
    comp = {e.res: e for e in p.events if e.kind == "call" and e.name == "compute_value_for_dump" and e.recv in els}
    miss = missing_in(p, l)
    cand = {v: m for v, m in vals.items() if resolved(p, m, S) is not False}
    stale = {v: m for v, m in vals.items() if resolved(p, m, S) is False}

    def says(c):
        got = [isc(p, v, c) for v in list(cand) + list(comp)]
        if True in got:
            return True
        if False in got:
            return False
        for m in miss:
            if resolved(p, m, S) is not False and c == NONE:
                return False
            if resolved(p, m, S) is not False:
                return False
        for q, dflt in gets(p, l):
            v = isc(p, q, c)
            if v is not None:
                return v
        return None

    if d == C(0):
        if says(env.NOT_PRESENT) is True:
            return None
        for e in p.events:
            if e.kind == "call" and e.name in ("present",) or callee_is_present(e, els):
                if tv(p, e.res) is False:
                    return None
        if any(isc(p, v, env.NOT_PRESENT) is True for v in vals):
            return None
        if zero_sized(p, els):
            return None
        if says(env.NOT_PRESENT) is None:
            return (UNKNOWN, "nothing is added, for a reason not recognised")
        return "a field that is present adds nothing to the length"
    if says(env.NOT_PRESENT) is True:
        return f"a field that is not present adds {show(d)}"
    if d in {("attr", el, n) for el in els for n in ("_size", "size")}:
        el = next(iter(x for x in els if d[1] == x))
        if not any(is_inst(p, ("attr", el, n), "int") for n in ("_size", "size")) and \
                p.facts.atoms.get(("truth", ("attr", el, "has_fixed_size"))) is not True:
            return "the declared size is added although it may not be a number" if \
                any(isc(p, ("attr", el, n), NONE) is None for n in ("_size",)) else (UNKNOWN, "size not known to be a number")
        if says(env.NOT_PRESENT) is None:
            return (UNKNOWN, "whether the field is present is not known") if asked(p, env.NOT_PRESENT, els) else \
                "the declared size is added without asking whether the field is present"
        n = says(NONE)
        if n is True:
            return "the declared size is added for None, whose marker may have another length"
        if n is None:
            return (UNKNOWN, "whether the value is None is not known") if not (cand or comp) else \
                "the declared size is added without asking whether the value is None"
        return None
    e = call_event(p, d)
    if e is not None and e.kind == "call" and e.name == "get_expected_size" and e.recv in els:
        M = arg(e, "field_values", 0)
        if says(NONE) is True and not any(isc(p, ("attr", el, n), NONE) is True for el in els for n in ("_size", "size")):
            return "the expected size is added for None, whose marker may have another length"
        if says(env.NOT_PRESENT) is None:
            return (UNKNOWN, "whether the field is present is not known") if asked(p, env.NOT_PRESENT, els) else \
                "the expected size is added without asking whether the field is present"
        g = resolved(p, M, S)
        if g is False:
            return f"the expected size is computed with {show(M)} instead of the resolved values of all fields"
        return None if g else ((UNKNOWN, f"sibling values {show(M)}"))
    if d[0] == "app" and d[1] == "len":
        w = call_event(p, d[2])
        if w is not None and w.name == "to_bytes" and w.recv in els:
            v = arg(w, "data", 0)
            M = w.kw.get("all_fields", w.args[3] if len(w.args) > 3 else None)
            if M is None or M == NONE:
                return "the value is serialized without the sibling values"
            g = resolved(p, M, S)
            if g is False:
                g2 = covers_struct(p, M, S)
                return f"the value is serialized with {show(M)} instead of the resolved values of all fields"
            if g is None:
                return (UNKNOWN, f"sibling values {show(M)}")
            if v == NONE:
                return None if says(NONE) is True else "None is serialized instead of the value" if says(NONE) is False else \
                    (UNKNOWN, "None is serialized")
            return own_value(p, v, cand, stale, comp, S)
        return (UNKNOWN, f"adds {show(d)}")
    if is_num_const(d):
        return f"{show(d)} is added for a field"
    parts, c = lin_parts(d)
    if c and len(parts) == 1:
        inner = length(p, l, next(iter(parts)), res, env, r)
        if inner is None:
            return f"{c} is added besides the field's size"
    return (UNKNOWN, f"adds {show(d)}")


def asked(p, c, els):
    """Does any decision on this path involve c (or a presence predicate)?"""
    for t, v in p.facts.eqc.items():
        if v == c or mentions(t, c):
            return True
    for t, v in p.facts.nec.items():
        if c in v or mentions(t, c):
            return True
    if any(mentions(a, c) for a in p.facts.atoms):
        return True
    return any(callee_is_present(e, els) for e in p.events)


def zero_sized(p, els):
    return any(eq_fact(p, ("attr", el, n), C(0)) is True for el in els for n in ("_size", "size"))


def callee_is_present(e, els):
    return e.kind == "call" and e.name == "present" and e.recv in els


def gets(p, l):
    """(result, default) of .get(<loop's name>, default) calls that stay opaque."""
    names = set(l.key()) | {("attr", el, "name") for el in l.elem()}
    for e in p.events:
        if e.kind == "call" and e.name == "get" and e.args and e.args[0] in names and e.res is not None:
            yield e.res, (e.args[1] if len(e.args) > 1 else NONE)


def own_value(p, v, cand, stale, comp, S, depth=0):
    if v in cand or v in comp:
        return None
    if v in stale:
        return "an unresolved value is serialized"
    if depth > 4:
        return (UNKNOWN, f"serializes {show(v)}")
    e = call_event(p, v)
    if e is not None and e.name == "to_dict":
        k = arg(e, "keep_discardable", 0)
        if k in (None, C(False)):
            return "discarded fields of a nested struct are not counted"
        return own_value(p, e.recv, cand, stale, comp, S, depth + 1)
    if e is not None and e.kind in ("call", "copy") and e.name in ("recursive_to_dicts", "dict", "list", "deepcopy") and e.args:
        if e.name == "recursive_to_dicts" and arg(e, "keep_discardable", 1) in (None, C(False)):
            return "discarded fields of nested structs are not counted"
        return own_value(p, e.args[0], cand, stale, comp, S, depth + 1)
    if v[0] == "new":
        # a converted mapping or sequence
        if any(derives(p, v, x) for x in list(cand) + list(comp)):
            return None
        for x in p.events:
            if x.recv == v or x.res == v:
                for a in list(x.args) + list(x.kw.values()):
                    if any(derives(p, a, c) for c in list(cand) + list(comp)):
                        for y in p.events:
                            if y.name == "recursive_to_dicts" and y.kind == "call" and \
                                    arg(y, "keep_discardable", 1) in (None, C(False)):
                                return "discarded fields of nested structs are not counted"
                        return None
        return None if any(l.base is not None and any(derives(p, l.base, c) for c in list(cand) + list(comp))
                           for l in loops(p)) else (UNKNOWN, f"serializes {show(v)}")
    if any(derives(p, v, x) for x in list(cand) + list(comp)):
        return (UNKNOWN, f"serializes {show(v)}")
    if is_num_const(v) or v[0] == "c":
        return f"serializes {show(v)} instead of the value"
    return (UNKNOWN, f"serializes {show(v)}")


# ------------------------------------------------------------------ class size
def given(p, l, FV):
    """Is a value given for the loop's field?  True/False/None"""
    names = set(l.key()) | {("attr", el, "name") for el in l.elem()}
    if isc(p, FV, NONE) is True:
        return False
    for a, v in p.facts.atoms.items():
        if a[0] == "in" and a[1] in names and (a[2] == FV or a[2][0] == "new"):
            return v
    for t in list(p.facts.eqc) + list(p.facts.nec):
        if t[0] == "sub" and t[1] == FV and t[2] in names:
            return True
    return None


def own_size(p, l):
    """Is the size of the loop's field independent of values?  (no size: False)"""
    for el in l.elem():
        for n in ("_size", "size"):
            a = ("attr", el, n)
            v = is_inst(p, a, "int")
            if v is True:
                return True
            if isc(p, a, NONE) is True:
                return False
            if isc(p, a, NONE) is False:
                return True       # a reference to a value that is missing is reported by get_expected_size
    t = [p.facts.atoms.get(("truth", ("attr", el, "has_fixed_size"))) for el in l.elem()]
    t = [x for x in t if x is not None]
    return t[0] if t else None


def always(p, l, env):
    from .c18 import fixed_facts
    got = [fixed_facts(p, el, env)[1] for el in l.elem()]
    got = [x for x in got if x is not None]
    return got[0] if got else None


def class_size(p, l, d, res, env):
    FV = res.p(1) if len(res.params) > 1 else None
    FV = res.param("field_values") if "field_values" in [x for x in getattr(res, "names", [])] else FV
    g = given(p, l, FV) if FV is not None else False
    els = l.elem()
    names = set(l.key()) | {("attr", el, "name") for el in els}
    subs = [("sub", FV, n) for n in names]
    absent = any(isc(p, s, env.NOT_PRESENT) is True for s in subs)
    if d == C(0):
        if absent:
            return None
        if zero_sized(p, els):
            return None
        return "a field is left out of the sum" if g is False or g is True and any(
            isc(p, s, env.NOT_PRESENT) is False for s in subs) else (UNKNOWN, "nothing is added, for a reason not recognised")
    if absent:
        return f"a field that is not present adds {show(d)}"
    if g is None:
        if own_size(p, l) is True and always(p, l, env) is True:
            pass
        else:
            return (UNKNOWN, "whether a value is given is not known")
    if g is True and all(isc(p, s, env.NOT_PRESENT) is None for s in subs):
        return "a field is counted without asking whether the given value says it is not present"
    if not g:
        s, a = own_size(p, l), always(p, l, env)
        if s is False:
            return "the size of a field without a size is guessed although no value is given for it"
        if a is False:
            return "a field that may be absent is counted although no value is given for it"
        if s is None and d not in {("attr", el, n) for el in els for n in ("_size", "size")}:
            return "a field is counted without asking whether its size depends on a value"
        if a is None:
            return "a field is counted without asking whether it is always present"
    e = call_event(p, d)
    if e is not None and e.name == "get_expected_size" and e.recv in els:
        M = arg(e, "field_values", 0)
        if M == FV or same(p, M, FV) or isc(p, FV, NONE) is True and is_fresh_empty(p, M, e):
            return None
        return f"the expected size is computed with {show(M)}" if M is None or M[0] in ("new", "c") else (UNKNOWN, f"values {show(M)}")
    if d in {("attr", el, n) for el in els for n in ("_size", "size")}:
        if own_size(p, l) is True and any(is_inst(p, ("attr", el, n), "int") for el in els for n in ("_size", "size")):
            return None if g is False or any(isc(p, s, NONE) is False for s in subs) or g is None else None
        return "a size that may not be a number is added"
    if is_num_const(d):
        return f"{show(d)} is added for a field"
    return (UNKNOWN, f"adds {show(d)}")


def gives_up(p, res, env):
    if p.kind != "return" or p.value != NONE:
        return False
    FV = res.p(1) if len(res.params) > 1 else None
    for e in p.events:
        if e.kind == "except":
            return None          # which exceptions may be swallowed is C13's
    for l in loops(p, is_components):
        if l.iter:
            if own_size(p, l) is False or always(p, l, env) is False:
                return None
    if not any(l.iter for l in loops(p, is_components)):
        return "None although no field was looked at" if any(l.full for l in loops(p, is_components)) else \
            (UNKNOWN, "None for a reason not recognised")
    return "None although every field looked at has a size and is always present" if all(
        own_size(p, l) is True and always(p, l, env) is True for l in loops(p, is_components) if l.iter) else \
        (UNKNOWN, "None for a reason not recognised")


def forwards(p, res):
    if p.kind != "return":
        return False
    e = call_event(p, p.value)
    if e is not None and e.name == "get_size":
        if e.args and e.args[0] != NONE or any(v != NONE for v in e.kw.values()):
            return (UNKNOWN, "values are passed")
        return None
    if p.value[0] == "attr" and p.value[2] == "size_bytes":
        return (UNKNOWN, "stored size")
    if is_num_const(p.value) or p.value == NONE:
        return f"always {show(p.value)}"
    return (UNKNOWN, f"returns {show(p.value)}")


# ------------------------------------------------------------------ values
def canon(p, t, V, depth=0):
    """Replace the value by a placeholder and results of calls by the calls."""
    if t == V:
        return ("VALUE",)
    if t[0] == "res" and depth < 8:
        e = call_event(p, t)
        if e is not None:
            return ("callres", e.name, canon(p, e.recv, V, depth + 1) if e.recv is not None else None,
                    tuple(canon(p, a, V, depth + 1) for a in e.args),
                    tuple(sorted((k, canon(p, v, V, depth + 1)) for k, v in e.kw.items()
                                 if v not in e.args)))
    if t[0] == "c":
        return t
    return tuple(canon(p, x, V, depth) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in t)


def strip_kw(t):
    """Ignore whether arguments are passed by name, and default `strict` error handling."""
    if isinstance(t, tuple):
        if t and t[0] == "callres":
            args = tuple(strip_kw(x) for x in t[3]) + tuple(strip_kw(v) for k, v in t[4])
            return ("callres", t[1], strip_kw(t[2]), tuple(a for a in args if a != C("strict")))
        return tuple(strip_kw(x) for x in t)
    return t


def lens(p, t, V):
    """Canonical linear form of an integer term."""
    parts, c = lin_parts(t)
    out = {}
    for x, k in parts.items():
        if x[0] == "app" and x[1] == "len":
            b = x[2]
            y = ("len", strip_kw(canon(p, b, V)))
        else:
            y = strip_kw(canon(p, x, V))
        out[y] = out.get(y, 0) + k
    return out, c


def value_size(r, rule, cq, sfi, dfi):
    cons = f"{sfi.qual} [{short(cq)}]"
    s, d = r.run(sfi, cq), r.run(dfi, cq)
    if s is None or d is None:
        r.unknown(rule, cons, "not analysable")
        return
    V, D, W = s.p(1), d.param("data"), d.param("stream")
    sizes = []
    for p in s.returns():
        if p.value == NONE:
            continue
        sizes.append((p, lens(p, p.value, V)))
    if not sizes:
        r.unknown(rule, cons, "returns no size")
        return
    writes = []
    for p in d.returns():
        ws = [e for e in p.events if e.kind == "call" and e.name == "write" and e.recv == W]
        if len(ws) != 1 or ws[0].loops:
            r.unknown(rule, cons, "dump does not write in one piece", p)
            return
        if padded(p, ws[0].args[0]):
            continue
        writes.append((p, lens(p, ("app", "len", ws[0].args[0]), D)))
    if not writes:
        r.unknown(rule, cons, "no write")
        return
    forms = {(tuple(sorted(f[0].items(), key=repr)), f[1]): p for p, f in writes}
    for p, f in sizes:
        k = (tuple(sorted(f[0].items(), key=repr)), f[1])
        if k in forms:
            r.ok(rule, cons)
            continue
        want = next(iter(forms))
        if f[0] == dict(want[0]):
            r.bad(rule, cons, f"the size differs from the number of bytes written by {f[1] - want[1]}", p)
            continue
        if len(f[0]) == 1 and len(want[0]) == 1:
            a, b = next(iter(f[0])), want[0][0][0]
            if a == ("len", ("VALUE",)) and b != a:
                r.bad(rule, cons, "the size is the length of the value, not of its serialized form", p)
                continue
            if comparable(a, b):
                r.bad(rule, cons, f"the size is that of {text(a)}, but {text(b)} is written", p)
                continue
        if len(f[0]) == 1 and next(iter(f[0]))[:1] == ("app",) and next(iter(f[0]))[1] in ("min", "max"):
            r.bad(rule, cons, "the size is clipped", p)
            continue
        if not f[0]:
            r.bad(rule, cons, f"the size is always {f[1]}", p)
            continue
        if len(f[0]) > 1 and len(want[0]) == 1 and all(comparable(x, want[0][0][0]) and k == 1 for x, k in f[0].items()):
            r.bad(rule, cons, "the sizes of separately converted pieces are added up, but they are converted as one", p)
            continue
        r.unknown(rule, cons, "size and written bytes cannot be compared", p)


def comparable(a, b):
    """Both are lengths of the value put through the same kind of call, with other operands."""
    if a[0] != "len" or b[0] != "len":
        return False
    x, y = a[1], b[1]
    return x[0] == "callres" and y[0] == "callres" and x[1] == y[1] and leafs(x) and leafs(y)


def leafs(t):
    """Only made of the value, constants, attributes of self and method calls."""
    if not isinstance(t, tuple) or not t:
        return True
    if t[0] in ("VALUE", "c", "p"):
        return True
    if t[0] == "callres":
        return (t[2] is None or leafs(t[2])) and all(leafs(x) for x in t[3])
    if t[0] == "attr":
        return leafs(t[1])
    if t[0] == "op":
        return all(leafs(x) for x in t[2:])
    if t[0] == "self":
        return True
    if t[0] == "app":
        return all(leafs(x) for x in t[2:])
    return False


def text(t):
    return str(t).replace("'", "")[:120]


def padded(p, t):
    return any(s[0] == "attr" and s[2] == "pad_byte" for s in subterms(t))


def base_value_size(p, res):
    if p.kind != "return" or p.value == NONE:
        return False
    v = p.value
    S = res.self
    if v in (("attr", S, "_size"), ("attr", S, "size")):
        return None
    if is_num_const(v):
        return f"every value has size {show(v)}"
    if v[0] == "app" and v[1] == "len":
        return (UNKNOWN, "size of a value of unknown type")
    return (UNKNOWN, f"returns {show(v)}")


# ------------------------------------------------------------------ expected size
def expected(p, res, env):
    S, FV = res.self, res.p(1)
    if p.kind != "return":
        return False
    v = p.value
    sz = [("attr", S, "_size"), ("attr", S, "size")]
    isint = [is_inst(p, a, "int") for a in sz]
    none = [isc(p, a, NONE) for a in sz]
    fixed = p.facts.atoms.get(("truth", ("attr", S, "has_fixed_size")))
    if v in sz:
        return None if True in isint or fixed else "the size is returned although it may not be a number"
    if v == NONE:
        return "returns None"
    e = call_event(p, v)
    if e is not None and e.name == "get_expected_size" and e.recv is not None and e.recv != S:
        return (UNKNOWN, "another object's expected size")
    if True in isint or fixed is True:
        return f"returns {show(v)} although the size is a number"
    own_names = [("attr", S, "name")]
    if e is not None and e.name == "_size_for_value" and e.recv == S:
        if True not in none:
            return "the value's size is returned although the field has a declared size" if False in none else \
                (UNKNOWN, "declared size not known")
        a = e.args[0] if e.args else next(iter(e.kw.values()), None)
        if isc(p, v, NONE) is not False:
            return "an unknown size is returned"
        return own(p, a, S, FV, env)
    if v[0] == "app" and v[1] == "len":
        b = v[2]
        x = call_event(p, b)
        if x is not None and x.name == "_get_null_repr":
            if True not in none:
                return "the null marker's size is returned although the field has a declared size" if False in none else \
                    (UNKNOWN, "declared size not known")
            M = arg(x, "all_fields", 0)
            if M is None or M == NONE:
                return "the null marker is rendered without the sibling values"
            if not any(isc(p, t, NONE) is True for t in taken(p, S, FV)):
                return "the null marker's size is returned for a value that is not None"
            return None
        if x is not None and x.name == "to_bytes":
            return (UNKNOWN, "serializes the value")
        return (UNKNOWN, f"returns {show(v)}")
    if v[0] == "sub" and v[1] == FV:
        if True in none:
            return "a field without a size takes another field's value"
        n = v[2]
        a, b = sz
        ok = [a, b, ("attr", a, "name"), ("attr", b, "name")]
        if n in own_names:
            return "the field's own value is taken as its size"
        if n not in ok:
            return (UNKNOWN, f"value of {show(n)}")
        return None if is_inst(p, v, "int") is not False else "a value that is not a number is returned"
    if is_num_const(v):
        return f"returns {show(v)}"
    return (UNKNOWN, f"returns {show(v)}")


def taken(p, S, FV):
    """Terms for the field's own value."""
    out = [("sub", FV, ("attr", S, "name"))]
    given_ = p.facts.atoms.get(("in", ("attr", S, "name"), FV))
    if given_ is not True:
        out.append(("attr", S, "_default"))
        out += [e.res for e in p.events if e.kind == "call" and e.name == "factory" and e.recv == S]
        out.append(("attr", S, "default"))
        if given_ is not False:
            out += [e.res for e in p.events if e.kind == "call" and e.name == "get" and e.recv == FV]
    return out


def own(p, a, S, FV, env):
    if a is None:
        return (UNKNOWN, "no value")
    inn = p.facts.atoms.get(("in", ("attr", S, "name"), FV))
    if a == ("sub", FV, ("attr", S, "name")):
        why = None
    elif a in taken(p, S, FV):
        looked = any(mentions(x, FV) for x in list(p.facts.atoms) + list(p.facts.eqc) + list(p.facts.nec)) or \
            any(e.recv == FV for e in p.events)
        why = None if inn is False else (UNKNOWN, "whether a value is given is not known") if looked else \
            "the default's size is returned without looking for a value"
        if inn is True:
            why = "the default's size is returned although a value is given"
        if isc(p, a, env.UNDEFINED) is not False and why is None and a[0] == "attr":
            return "the undefined marker is sized"
    elif inn is True and (a[0] == "attr" and a[1] == S and a[2] in ("_default", "default", "const") or
                          a in [e.res for e in p.events if e.kind == "call" and e.name == "factory"]):
        return "the default's size is returned although a value is given"
    else:
        return (UNKNOWN, f"size of {show(a)}")
    if why is None and isc(p, a, NONE) is not False:
        return "None is sized like a value"
    return why


# ------------------------------------------------------------------ attributes
def stores(p, res, kind, env, cq):
    if p.kind != "return":
        return False
    S = res.self
    v = final_attr(p, S, "_size")
    if v is None:
        return (UNKNOWN, "no size is stored")
    e = call_event(p, v)
    if kind == "nested":
        if e is not None and e.name == "get_size":
            if e.args and e.args[0] != NONE:
                return (UNKNOWN, "values are passed")
            return None if e.recv is not None and (mentions(e.recv, res.p(1)) or True) else (UNKNOWN, "whose size")
        if v == NONE:
            return None
        return f"the size is {show(v)}" if is_num_const(v) else (UNKNOWN, f"size {show(v)}")
    if kind == "array" and v != NONE and v not in size_param(res) and not (e is not None and e.name == "_size_for_value"):
        comp = final_attr(p, S, "component") or res.p(1)
        cnt = final_attr(p, S, "count") or res.param("count")
        want = [("op", "*", a, b) for x in (comp, res.p(1)) for y in (cnt, ("attr", S, "count")) for s in ("_size", "size")
                for a, b in ((y, ("attr", x, s)), (("attr", x, s), y))]
        cs = lin_norm_mul(v)
        if v in want or cs is not None and cs in {frozenset(w[2:]) for w in want}:
            y = next((y for y in (cnt, ("attr", S, "count")) if is_inst(p, y, "int") is True), None)
            if y is None:
                return "the size is computed from a count that may not be a number"
            for x in (comp, res.p(1)):
                if any(is_inst(p, ("attr", x, s), "int") is True for s in ("_size", "size")) or \
                        p.facts.atoms.get(("truth", ("attr", x, "has_fixed_size"))) is True:
                    return None
            return "the size is computed from an element size that may not be a number"
        if is_num_const(v):
            return f"the size is {show(v)}"
        if v in (cnt, ("attr", S, "count")):
            return "the size is the number of elements"
        if v in [("attr", x, s) for x in (comp, res.p(1)) for s in ("_size", "size")] and \
                fact_lin(p, cnt, "==", C(1)) is not True:
            return "the size is that of a single element"
        parts, c = lin_parts(v)
        if c and any(w in parts for w in want):
            return f"the size is {show(v)}"
        return (UNKNOWN, f"size {show(v)}")
    if e is not None and e.name == "_size_for_value" and e.recv == S:
        a = e.args[0] if e.args else None
        C_ = final_attr(p, S, "const")
        if a is not None and (a == C_ or a in consts(res)):
            if isc(p, a, env.UNDEFINED) is True:
                return "the size of the undefined marker is stored"
            sp = size_param(res)
            if sp and not any(isc(p, s, NONE) is True for s in sp):
                return "the size of the constant replaces the size that was given"
            return None
        return (UNKNOWN, f"size of {show(a) if a is not None else '?'}")
    sp = size_param(res)
    if v in sp:
        return None
    if v == NONE:
        c = consts(res)
        if any(isc(p, s, NONE) is False for s in sp):
            return "the size that was given is dropped"
        if sp and any(isc(p, x, env.UNDEFINED) is False for x in c) and not any(isc(p, x, NONE) is True for x in c):
            return (UNKNOWN, "no size although the field has a constant")
        return None
    if is_num_const(v):
        return None          # a class of fixed width (C15 checks the width)
    if v[0] == "app" and v[1] in ("struct.calcsize", "len"):
        return None
    if e is not None and e.name == "calcsize":
        return None
    return (UNKNOWN, f"size {show(v)}")


def lin_norm_mul(t):
    if t[0] == "op" and t[1] == "*":
        return frozenset(t[2:])
    return None


def size_param(res):
    out = []
    if res.param("size") is not None:
        out.append(res.param("size"))
    for p in res.all:
        for t in list(p.facts.eqc) + list(p.facts.nec):
            if t[0] == "kwget" and t[2] == "size":
                out.append(t)
        v = final_attr(p, res.self, "_size")
        if v is not None and v[0] == "kwget" and v[2] == "size":
            out.append(v)
    return out


def consts(res):
    out = []
    if res.param("const") is not None:
        out.append(res.param("const"))
    for p in res.all:
        for t in list(p.facts.eqc) + list(p.facts.nec):
            if t[0] == "kwget" and t[2] == "const":
                out.append(t)
    return out


def getter(p, res, name):
    if p.kind != "return":
        return False
    S = res.self
    szs = [("attr", S, "_size"), ("attr", S, "size")]
    v = p.value
    if name == "size":
        if v in szs:
            return None
        if v[0] == "c":
            return f"the size is always {show(v)}" if not any(same(p, v, s) for s in szs) else None
        return (UNKNOWN, f"returns {show(v)}")
    known = [is_inst(p, s, "int") for s in szs]
    if v == C(True):
        return None if True in known else "says yes for a size that may not be a number"
    if v == C(False):
        if True in known:
            return "says no for a size that is a number"
        return None if False in known or any(isc(p, s, NONE) is True for s in szs) else "says no without looking at the size"
    if v[0] == "isinst" and v[1] in szs:
        return None if v[2] == "int" else f"asks for {v[2]}"
    if v[0] == "app" and v[1] == "isinstance":
        return None
    return (UNKNOWN, f"returns {show(v)}")
