"""C02: constant and computed fields cannot take any other value."""
import ast

from .c01 import absent
from .common import *


def check(r):
    env = Env(r.prog)
    load = r.rule("R1 load", "Every value Field.from_stream returns for a present field is None, or was compared equal "
                  "to self.const, or the field has no constant; a mismatch raises ValidationError.")
    store = r.rule("R2 store", "Field.__set__ stores only when the field is neither computed nor constant; otherwise it "
                   "raises ImmutableFieldError without storing.")
    comp = r.rule("R3 computes", "Field.computes attaches a function only when there is none yet and the field is not "
                  "constant, and raises ConfigurationError otherwise.")
    only = r.rule("R4 only", "No other code replaces a field's constant or compute function.")

    items = r.rule("R5 items", "Assigning an item of a struct, directly or through its mapping wrapper, assigns the attribute "
                   "on every path that returns, so that the field can refuse it.")
    check_item_assignment(r, env, items)

    for cq in env.field_classes():
        fi = env.func(cq, "from_stream")
        res = r.run(fi, cq)
        tag = f"{fi.qual} [{short(cq)}]"

        def pl(p):
            S = res.self
            const = ("attr", S, "const")
            loaded = loaded_value(p, S)
            if p.kind == "raise":
                return False
            if absent(p, S) or loaded is None and p.value == NONE:
                return False
            if isc(p, const, env.UNDEFINED) is True:
                return None
            if p.value != NONE and loaded is not None and eq_fact(p, loaded, const) is False:
                return "a loaded value different from the constant is not refused"
            for v in {p.value, loaded or p.value}:
                if v is not None and eq_fact(p, v, const) is True:
                    return None
            if p.value == NONE or (loaded is not None and isc(p, loaded, NONE) is True):
                # a null: allowed only for nullable constants, checked against the constant as well
                if eq_fact(p, NONE, const) is True:
                    return None
            return "returns a loaded value that was never compared with the constant"
        r.each(load, tag, res, pl)

        def pv(p):
            S = res.self
            const = ("attr", S, "const")
            if p.kind != "raise":
                return False
            loaded = loaded_value(p, S)
            if loaded is None or isc(p, const, env.UNDEFINED) is not False:
                return False
            if eq_fact(p, loaded, const) is False or eq_fact(p, NONE, const) is False:
                if p.value[0] == "exc" and env.exc_is(p.value[2], env.err("ValidationError")):
                    return None
                # exceptions raised by callbacks before the comparison carry no comparison fact
                return f"a mismatch with the constant raises {p.value[2]} instead of ValidationError"
            return False
        r.each(load, tag + " mismatch", res, pv)

        fi = env.func(cq, "__set__")
        res = r.run(fi, cq)
        tag = f"{fi.qual} [{short(cq)}]"

        def ps(p):
            S = res.self
            stored = any(e.kind in ("setitem", "update") and attr_named(e.recv, "__values__") for e in p.events)
            const, fn = ("attr", S, "const"), ("attr", S, "_compute_fn")
            free = isc(p, const, env.UNDEFINED) is True
            nocomp = not_computed(p, fn)
            if stored or p.kind == "return":
                if not free:
                    return "assignment to a constant field is not refused"
                if not nocomp:
                    return "assignment to a computed field is not refused"
                return None
            if p.value[0] == "exc" and env.exc_is(p.value[2], env.err("ImmutableFieldError")):
                if free and nocomp:
                    return "a plain field refuses assignment"
                return None
            if (isc(p, const, env.UNDEFINED) is False or computed(p, fn)):
                return f"assignment to a constant or computed field raises {show(p.value)}"
            return None
        r.each(store, tag, res, ps, need=2)

    fi = env.func(env.FIELD, "computes")
    res = r.run(fi, env.FIELD)

    def pc(p):
        S = res.self
        const, fn = ("attr", S, "const"), ("attr", S, "_compute_fn")
        st = [e for e in p.events if e.kind == "setattr" and e.name == "_compute_fn"]
        if st:
            if isc(p, const, env.UNDEFINED) is not True:
                return "a compute function can be attached to a constant field"
            if not not_computed_at(st[0], fn):
                return "a second compute function can be attached"
            if not any(same(p, e.args[0], res.p(1)) for e in st):
                return "the function given is not the one attached"
            return None
        if p.kind == "return":
            return "returns without attaching the function"
        if p.value[0] == "exc" and env.exc_is(p.value[2], env.err("ConfigurationError")):
            if isc(p, const, env.UNDEFINED) is True and not_computed(p, fn):
                return "attaching the first function to a plain field is refused"
            return None
        return f"raises {show(p.value)}"
    r.each(comp, fi.qual, res, pc, need=3)

    for q, f in sorted(r.prog.funcs.items()):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and \
                    n.attr in ("_compute_fn", "const"):
                own = f.cls is not None and r.prog.is_subclass(f.cls.qual, env.FIELD) and (
                    all(x.name == "__init__" for x in r.prog.roots(f).values()) or (n.attr == "_compute_fn" and reaches(r, env, "computes", f)))
                if not own:
                    r.bad(only, f"{q} {n.attr}", f"replaces a field's {n.attr}",
                          where=f"{f.module.relpath}:{n.lineno}")
                else:
                    r.ok(only, f"{q} {n.attr}")


def reaches(r, env, name, f):
    """f is the method `name` or a helper it calls."""
    fi = env.func(env.FIELD, name)
    res = r.run(fi, env.FIELD)
    return f.qual == fi.qual or (res is not None and f.qual in res.engine.functions_seen)


def loaded_value(p, S):
    for e in p.events:
        if e.kind == "call" and e.name == "_do_load" and e.recv == S:
            return e.res
    return None


def computed(p, fn):
    return tv(p, fn) is True or isc(p, fn, NONE) is False


def not_computed(p, fn):
    return tv(p, fn) is False or isc(p, fn, NONE) is True


class _At:
    def __init__(self, facts):
        self.facts = facts


def not_computed_at(e, fn):
    a = _At(e.facts)
    return not_computed(a, fn)
