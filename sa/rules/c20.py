"""C20: the value dumped for a field follows a fixed precedence."""
import ast

from .c03 import comp_elems
from .c14 import ctor_param
from .c16 import keyset
from .common import *

TECHNIQUE = "path-sensitive dataflow: source of the value on every path of the value resolvers, against the facts that exclude the higher-ranking sources"


def check(r):
    env = Env(r.prog)
    comp = r.rule("R1 value for dumping", "compute_value_for_dump returns the value set for the field if there is one, "
                  "else the factory's result or the default, else the result of the compute function called with the "
                  "field and the values, and raises MissingRequiredValueError when there is none of these; it never "
                  "returns UNDEFINED.")
    get = r.rule("R2 reading", "Reading a field's attribute gives the stored value if there is one, else what "
                 "compute_value_for_dump gives for the struct.")
    dump = r.rule("R3 dumping a field", "Field.to_stream serializes the value it was given, or its default when none was "
                  "given, and raises MissingRequiredValueError instead of serializing UNDEFINED.")
    init = r.rule("R4 configuration", "A new field's default and factory are the ones given to its constructor, its "
                  "constant standing in for a missing default.")
    keep = r.rule("R5 set values", "A new struct stores every value it was given, whatever the value is.")
    wr = r.rule("R6 used", "Struct dumping serializes exactly the value compute_value_for_dump gave for the field.")
    only = r.rule("R7 only", "No other code replaces a field's default or factory.")

    items = r.rule("R8 items", "Reading an item of a struct, directly or through a mapping wrapper, reads the attribute or the "
                   "value that was set.")
    for cq, own in ((env.STRUCT, lambda S: S),) + tuple(
            (env.cls("binobj.structures", n), lambda S: ("attr", S, "struct"))
            for n in ("StructMappingProxy", "MutableStructMappingProxy")):
        fi = env.prog.find_method(cq, "__getitem__")
        if fi is None:
            r.unknown(items, f"{short(cq)}.__getitem__", "not defined in the package")
            continue
        res0 = r.run(fi, cq)
        r.each(items, f"{short(cq)}.__getitem__", res0, lambda p: item(p, own(res0.self), res0.p(1), env),
               paths=res0.returns() if res0 else None)

    for cq in env.field_classes():
        fi = env.func(cq, "compute_value_for_dump")
        res = r.run(fi, cq)
        r.each(comp, f"{fi.qual} [{short(cq)}]", res, lambda p: value(p, res, env), need=4)
        fi = env.func(cq, "__get__")
        res2 = r.run(fi, cq)
        r.each(get, f"{fi.qual} [{short(cq)}]", res2, lambda p: reading(p, res2, env), need=2)
        fi = env.func(cq, "to_stream")
        res3 = r.run(fi, cq)
        r.each(dump, f"{fi.qual} [{short(cq)}]", res3, lambda p: dumped(p, res3, env), need=2)
        fi = env.func(cq, "__init__")
        res4 = r.run(fi, cq)
        r.each(init, f"{fi.qual} [{short(cq)}]", res4, lambda p: configured(p, res4, env))

    fi = env.func(env.STRUCT, "__init__")
    res5 = r.run(fi, env.STRUCT)
    r.each(keep, fi.qual, res5, lambda p: kept(p, res5, fi))

    for name in ("to_stream", "partial_dump"):
        fi = env.func(env.STRUCT, name)
        res6 = r.run(fi, env.STRUCT)
        r.each(wr, fi.qual, res6, lambda p: used(p), paths=res6.all if res6 else None)

    for q, f in sorted(r.prog.funcs.items()):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.attr in ("_default", "factory"):
                res7 = None
                own = f.cls is not None and r.prog.is_subclass(f.cls.qual, env.FIELD)
                if own and f.name != "__init__":
                    res7 = r.run(env.func(env.FIELD, "__init__"), env.FIELD)
                    own = res7 is not None and f.qual in res7.engine.functions_seen
                if own:
                    r.ok(only, f"{q} {n.attr}")
                elif f.cls is not None and not r.prog.is_subclass(f.cls.qual, env.FIELD) and \
                        isinstance(n.value, ast.Name) and n.value.id == "self":
                    r.ok(only, f"{q} {n.attr}")
                else:
                    r.bad(only, f"{q} {n.attr}", f"replaces a field's {n.attr}", where=f"{f.module.relpath}:{n.lineno}")


# ------------------------------------------------------------------ sources
def is_explicit(t, vals, key):
    return t[0] == "sub" and t[1] in vals and t[2] == key


def of_call(p, t, callee_t):
    e = call_event(p, t)
    return e is not None and e.kind == "call" and callee(e) == callee_t


def set_in(p, vals, key):
    """Is the key known to be among the values?"""
    for v in vals:
        d = p.facts.atoms.get(("in", key, v))
        if d is not None:
            return d
    return None


def state_of(p, S, env):
    F, D, K = ("attr", S, "factory"), ("attr", S, "_default"), ("attr", S, "_compute_fn")
    hasf = tv(p, F)
    if hasf is None:
        hasf = {True: False, False: True}.get(isc(p, F, NONE))
    fres = next((e.res for e in p.events if e.kind == "call" and callee(e) == F), None)
    hask = True if tv(p, K) is True or isc(p, K, NONE) is False else False if tv(p, K) is False or isc(p, K, NONE) is True \
        else None
    undef = isc(p, D, env.UNDEFINED)
    # no default at all?
    if hasf is True:
        none = isc(p, fres, env.UNDEFINED) if fres is not None else False
    elif hasf is False:
        none = undef
    else:
        none = None
    return F, D, K, hasf, fres, hask, none


def value(p, res, env):
    S, vals = res.self, (res.p(1),)
    key = ("attr", S, "name")
    X = ("sub", res.p(1), key)
    inn = set_in(p, vals, key)
    if inn is True and isc(p, X, env.UNDEFINED) is True:
        inn = "undef"
    F, D, K, hasf, fres, hask, none = state_of(p, S, env)
    looked = any(e.kind == "call" and e.recv == res.p(1) for e in p.events)
    if p.kind == "raise":
        if p.value[0] != "exc":
            return False
        if not any(e.kind == "newexc" and e.res == p.value for e in p.events):
            return False                    # raised by a callback or an access
        if not env.exc_is(p.value[2], env.err("MissingRequiredValueError")):
            if inn is False and none is True and hask is False:
                return f"a missing value is reported as {short(p.value[2])}"
            return False
        if inn is True:
            return "a value that is set is reported as missing"
        if inn == "undef":
            return None
        if inn is None:
            return (UNKNOWN, "not followed") if looked else "a value is reported missing without looking whether it was set"
        if none is False:
            return "a default is reported as missing"
        if none is None:
            return "a value is reported missing without consulting the defaults"
        kr = next((e.res for e in p.events if e.kind == "call" and callee(e) == K), None)
        if kr is not None:
            return None if isc(p, kr, env.UNDEFINED) is True else "a computed value is reported as missing"
        if hask is False or hasf is True:
            return None
        return "a value is reported missing without consulting the compute function"
    v = p.value
    if isc(p, v, env.NOT_PRESENT) is True:
        return None                          # absent: C03
    if isc(p, v, env.UNDEFINED) is True:
        return "returns UNDEFINED"
    if isc(p, v, env.UNDEFINED) is None and v[0] not in ("c", "enum"):
        return "can return UNDEFINED"
    if is_explicit(v, vals, key):
        return None if inn is not False else (UNKNOWN, "reads an item known to be missing")
    if inn is True:
        return f"the value that was set is ignored in favour of {show(v)}"
    if inn is None:
        return (UNKNOWN, "not followed") if looked or v[0] in ("res", "unk", "phi") and not (
            of_call(p, v, F) or of_call(p, v, K)) else "a value is produced without looking whether one was set"
    if of_call(p, v, F):
        e = call_event(p, v)
        return None if not e.args and not e.kw else "the factory is called with arguments"
    if v == D:
        return None if hasf is False else "the default is used although there is a factory" if hasf is True else \
            "the default is used without checking for a factory"
    if v == ("attr", S, "const"):
        return None if none is True else "the constant is used although a default was given" if none is False else \
            "the constant is used without checking for a default"
    if of_call(p, v, K):
        e = call_event(p, v)
        if none is not True:
            return "the computed value is used although there is a default" if none is False else \
                "the computed value is used without checking for a default"
        if len(e.args) != 2 or e.kw or e.args[0] != S or e.args[1] != res.p(1):
            return f"the compute function is called with ({', '.join(show(a) for a in e.args)})"
        return None
    if v[0] in ("c", "enum") or v[0] == "attr" and v[1] == S:
        return f"{show(v)} is used as the value"
    return (UNKNOWN, f"{show(v)} is used as the value")


def reading(p, res, env):
    S, inst = res.self, res.p(1)
    if p.kind != "return":
        return False
    if isc(p, inst, NONE) is True:
        return None if p.value == S else (UNKNOWN, "class access")
    store = ("attr", inst, "__values__")
    vals = (store, inst)
    key = ("attr", S, "name")
    inn = set_in(p, vals, key)
    v = p.value
    if is_explicit(v, vals, key):
        return None
    X = ("sub", store, key)
    if inn is True and isc(p, X, env.UNDEFINED) is not True:
        return f"the value that was set is ignored in favour of {show(v)}"
    e = call_event(p, v)
    if e is not None and e.name == "compute_value_for_dump" and e.recv == S:
        if inn is None and not any(x.kind == "call" and x.recv in vals for x in p.events):
            # compute_value_for_dump looks at the struct itself
            pass
        a = arg(e, "all_values", 0)
        return None if a == inst or covers_struct(p, a, inst) is True else \
            (UNKNOWN, f"computed from {show(a)}") if a != store else None
    if v[0] == "c" or v[0] == "enum" or v[0] == "attr" and v[1] == S or (
            e is not None and e.kind == "call" and callee(e) in (("attr", S, "factory"), ("attr", S, "_compute_fn"))):
        return f"reading an unset field gives {show(v)}"
    if v == inst or v == S:
        return f"reading a field gives {show(v)}"
    return (UNKNOWN, f"reading gives {show(v)}")


def item(p, st, name, env):
    v = p.value
    store = ("attr", st, "__values__")
    X = ("sub", store, name)
    e = call_event(p, v)
    if e is not None and e.kind == "call" and e.recv == st and e.name in ("getattr", "__getitem__", "__getattribute__"):
        return None if e.args[:1] == (name,) or list(e.args) == [name] else "another item is read" if e.args else \
            (UNKNOWN, "not followed")
    if e is not None and e.kind == "call" and e.name in ("__get__", "compute_value_for_dump"):
        return None
    if v == X:
        return None
    if v == ("sub", st, name):
        return None
    inn = set_in(p, (store, st), name)
    if inn is True and isc(p, X, env.UNDEFINED) is not True and v[0] in ("c", "enum", "attr"):
        return f"the value that was set is ignored in favour of {show(v)}"
    if v[0] in ("c", "enum") or v[0] == "attr" and v[2] in ("default", "_default", "const", "not_present_value"):
        return f"reading an unset item gives {show(v)} without consulting the other sources"
    return (UNKNOWN, f"reading gives {show(v)}")


def dumped(p, res, env):
    S, stream, d = res.self, res.p(1), res.p(2)
    isdef = isc(p, d, env.DEFAULT)
    F, D, K, hasf, fres, hask, none = state_of(p, S, env)
    uses = [e for e in p.events if e.kind == "call" and e.name == "_do_dump" and e.recv == S
            and arg(e, "data", 1) != ("attr", S, "null_value")]
    writes = [e for e in p.events if e.kind == "call" and e.recv == stream and e.name == "write"]
    missing = p.kind == "raise" and p.value[0] == "exc" and env.exc_is(p.value[2], env.err("MissingRequiredValueError"))
    if missing and any(e.kind == "newexc" and e.res == p.value for e in p.events):
        if isdef is False and isc(p, d, env.UNDEFINED) is not True:
            return "a value that was given is reported as missing"
        if isdef is True and none is False and not any(
                isc(p, x, env.DEFAULT) is True for x in (D, fres) if x is not None):
            return "a default is reported as missing"
        return None
    if not uses and not writes:
        return False
    for e in uses:
        v = arg(e, "data", 1)
        if v == d:
            if isdef is not False:
                return "the DEFAULT marker itself is serialized"
            if isc(p, d, env.UNDEFINED) is not False:
                return "UNDEFINED can be serialized"
            continue
        if isdef is False:
            return f"serializes {show(v)} instead of the value given" if v[0] in ("c", "enum") or v in (D, ("attr", S, "const")) \
                or of_call(p, v, F) else (UNKNOWN, f"serializes {show(v)}")
        if isdef is None:
            return (UNKNOWN, f"serializes {show(v)}")
        if isc(p, v, env.UNDEFINED) is not False and v[0] != "c":
            return "UNDEFINED can be serialized"
        if of_call(p, v, F):
            continue
        if v == D:
            if hasf is False:
                continue
            return "the default is used although there may be a factory"
        if v == ("attr", S, "const") and (none is True or isc(p, v, env.UNDEFINED) is False and hasf is False):
            continue
        if v[0] in ("c", "enum"):
            return f"{show(v)} is serialized for a field without a value"
        return (UNKNOWN, f"serializes {show(v)}")
    if not uses:
        # the null marker
        if isdef is False:
            if isc(p, d, NONE) is not True:
                return (UNKNOWN, "the value written is not followed") if isc(p, d, NONE) is None else \
                    "something other than the value given is written"
        else:
            x = fres if hasf is True else D
            if x is None or isc(p, x, NONE) is not True:
                return (UNKNOWN, "the value written is not followed")
    return None


def configured(p, res, env):
    if p.kind != "return":
        return False
    S = res.self
    default, const, factory = ctor_param(res, "default"), ctor_param(res, "const"), ctor_param(res, "factory")
    if default is None or const is None or factory is None:
        return (UNKNOWN, "constructor arguments not recognised")
    D, F = final_attr(p, S, "_default"), final_attr(p, S, "factory")
    if D is None or F is None:
        return "the default or the factory is not set"

    def given(t):
        """value of an option when it is not given"""
        return resolve(p, t)
    nodef = isc(p, default, env.UNDEFINED)
    if D[0] == "c" and D != C(None) and D != resolve(p, default) and D != resolve(p, const) or D == NONE and \
            resolve(p, default) != NONE and resolve(p, const) != NONE:
        return f"the default becomes {show(D)}"
    if D == default:
        if nodef is True and isc(p, const, env.UNDEFINED) is not True:
            return "a constant field has no default"
        ok = True
    elif D == const:
        if nodef is not True and not same(p, default, const):
            return "the constant replaces the default" if nodef is False else \
                "the constant is used without checking that no default was given"
        ok = True
    elif D == env.UNDEFINED:
        if nodef is not True and F != default:
            return "the default is dropped"
        if nodef is True and isc(p, const, env.UNDEFINED) is False:
            return "a constant field has no default"
        ok = True
    else:
        return (UNKNOWN, f"the default is {show(D)}")
    if not ok:
        return (UNKNOWN, f"the default is {show(D)}")
    if same(p, F, factory) or F == default and isc(p, factory, NONE) is not False:
        return None
    if F[0] == "c":
        return None if resolve(p, factory) == F else f"the factory becomes {show(F)}"
    return (UNKNOWN, f"the factory is {show(F)}")


def copied(p, t, src, depth=0):
    """Does the mapping t hold all items of src?  True / False / None."""
    if t is None or depth > 6:
        return None
    if t == src or t == ("kwd", (), src):
        return True
    if t[0] == "copy":
        return copied(p, t[3], src, depth + 1)
    if t[0] == "app" and t[1] == "dict" and len(t) >= 3:
        return copied(p, t[2], src, depth + 1)
    if t[0] == "c":
        return False
    if t[0] == "new":
        st = [e for e in p.events if e.recv == t and e.kind in ("setitem", "update", "dictupdate", "setdefault")]
        al = [e for e in p.events if e.res == t and e.kind == "alloc"]
        for e in st + al:
            if e.kind != "setitem" and any(copied(p, a, src, depth + 1) is True for a in e.args):
                return True
        for l in loops(p):
            if l.base is None or strip_copy(l.base) not in (src, ('kwd', (), src)) and keyset(l.base) not in (src, ('kwd', (), src)):
                continue
            if not l.full:
                return False
            if l.iter and not any(e.kind in ("setitem", "setdefault") and l.lid in e.loops and e.recv == t for e in p.events):
                return False
            return True
        if not st and not any(a.args for a in al):
            return False
    return None


def kept(p, res, fi):
    if p.kind != "return":
        return False
    kw = fi.node.args.kwarg
    if kw is None:
        return (UNKNOWN, "the constructor takes no keyword values")
    src = ("p", kw.arg)
    v = final_attr(p, res.self, "__values__")
    if v is None:
        return "the values given are not stored"
    c = copied(p, v, src)
    if c is False:
        return "a value given to the constructor is not stored"
    for e in p.events:
        if e.recv in (v, src, ("kwd", (), src)) and e.kind in ("delitem", "mutcall") or e.recv in (v, src) and e.kind == "call" and e.name in ("pop", "popitem", "clear"):
            return "a value given to the constructor is removed"
        if e.kind == "setitem" and e.recv == src and v == src and not any(mentions(e.args[1], src) for _ in (0,)):
            return "a value given to the constructor is replaced"
    return None if c else (UNKNOWN, f"the values are kept as {show(v)}")


def used(p):
    """Every field write in a struct dump passes on the field's own resolved value."""
    n = 0
    for l in loops(p, is_components):
        if not l.iter and p.kind != "loopback":
            continue
        els = l.elem() | comp_elems(l)
        for e in l.events():
            if e.kind == "call" and e.name == "to_stream" and e.recv in els:
                n += 1
                d = arg(e, "data", 1)
                ce = call_event(p, d) if d is not None else None
                if ce is None or ce.name != "compute_value_for_dump" or ce.recv not in els:
                    return f"serializes {show(d)} instead of the value computed for the field" if d is not None and (
                        d[0] in ("c", "enum", "sub", "attr")) else (UNKNOWN, "the value serialized is not followed")
    return None if n else False
