"""C03: the presence predicate alone decides whether a field is in the data."""
import ast

from .common import *


def pred_calls(p, f):
    return [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and callee(e) == ("attr", f, "present")]


def compared(p, t):
    """The predicate's answer is compared with a particular value instead of being taken as true or false."""
    if p.facts.atoms.get(("truth", t)) is not None:
        return False
    cs = set(p.facts.nec.get(t, ())) | ({p.facts.eqc[t]} if t in p.facts.eqc else set())
    return any(c[0] == "c" and isinstance(c[2], (bool, int)) for c in cs)


def check(r):
    env = Env(r.prog)
    load = r.rule("R1 load", "Field.from_stream asks the presence predicate exactly once, with (loaded fields, context, "
                  "stream), before touching the stream; a 'no' returns the not-present value with no stream operation "
                  "and no validator, a 'yes' loads.")
    dump = r.rule("R2 dump", "Field.compute_value_for_dump asks the predicate with (all values, context, None) unless "
                  "the value itself is NOT_PRESENT; 'no' yields NOT_PRESENT and 'yes' does not.")
    wr = r.rule("R3 write", "Struct.to_stream and partial_dump write a field exactly when its value for dumping is not "
                "NOT_PRESENT; validation skips absent fields.")
    cfg = r.rule("R4 config", "The predicate and not-present value are the ones given to the constructor and never "
                 "change.")
    for cq in env.field_classes():
        fi = env.func(cq, "from_stream")
        res = r.run(fi, cq)
        tag = f"{fi.qual} [{short(cq)}]"

        def pl(p):
            S, stream, ctx, lf = res.self, res.p(1), res.p(2), res.p(3)
            cs = pred_calls(p, S)
            if not cs:
                return "loads without asking the presence predicate" if p.kind == "return" else False
            if len(cs) > 1:
                return "asks the presence predicate more than once"
            i, e = cs[0]
            if len(e.args) != 3 or e.kw:
                return f"calls the presence predicate with {len(e.args) + len(e.kw)} arguments"
            mp = e.args[0]
            if not (mp == lf or (isc(p, lf, NONE) is True and mp[0] == "new")):
                return f"gives the predicate {show(mp)} instead of the loaded fields"
            if e.args[1] != ctx or e.args[2] != stream:
                return "does not give the predicate the context and the stream"
            for x in p.events[:i]:
                if x.kind == "call" and (x.recv == stream and x.name != "tell" or passes(x, stream)):
                    return "touches the stream before asking the presence predicate"
            t = tv(p, e.res)
            if compared(p, e.res):
                return "compares the answer of the presence predicate with a particular value"
            later = [x for x in p.events[i + 1:] if x.kind == "call"]
            if t is False:
                if p.kind != "return":
                    return f"raises {show(p.value)} for an absent field"
                if p.value != ("attr", S, "not_present_value"):
                    return f"returns {show(p.value)} instead of the not-present value"
                for x in later:
                    if x.recv == stream and x.name != "tell" or passes(x, stream):
                        return "touches the stream for an absent field"
                    if x.name == "()" and mentions(x.recv, ("attr", S, "validators")):
                        return "runs validators for an absent field"
                return None
            if t is None:
                return "ignores the answer of the presence predicate"
            if p.kind == "return" and not any(x.name == "_do_load" or x.recv == stream and x.name == "read"
                                              for x in later):
                return "does not load a field that is present"
            if p.kind == "return" and p.value == ("attr", S, "not_present_value"):
                return "produces the not-present value for a field that is present"
            if p.kind == "return" and not any(x.name == "_do_load" for x in later) and isc(p, p.value, NONE) is not True:
                return (UNKNOWN, f"returns {show(p.value)} for a field that is present without loading it")
            return None
        r.each(load, tag, res, pl, need=3)

        fi = env.func(cq, "compute_value_for_dump")
        res = r.run(fi, cq)
        tag = f"{fi.qual} [{short(cq)}]"

        def pd(p):
            S, vals, ctx = res.self, res.p(1), res.p(2)
            cs = pred_calls(p, S)
            for _, e in cs:
                if len(e.args) != 3 or e.kw:
                    return "calls the presence predicate without exactly three arguments"
                if e.args[0] != vals or e.args[1] != ctx or e.args[2] != NONE:
                    return f"calls the presence predicate with ({', '.join(show(a) for a in e.args)})"
            if p.kind == "raise":
                # a missing value of an absent field is no error
                if cs and tv(p, cs[0][1].res) is not True and p.value[0] == "exc" and p.value[2] in r.prog.classes:
                    return "raises although the field is absent"
                if not cs and p.value[0] == "exc" and p.value[2] in r.prog.classes and \
                        p.value[2] == env.err("MissingRequiredValueError"):
                    return "reports a missing value without asking the presence predicate"
                return None
            if not cs:
                if isc(p, p.value, env.NOT_PRESENT) is True or p.value == env.NOT_PRESENT:
                    if any(c == env.NOT_PRESENT for c in p.facts.eqc.values()):
                        return None
                return "produces a value without asking the presence predicate"
            t = tv(p, cs[-1][1].res)
            if compared(p, cs[-1][1].res):
                return "compares the answer of the presence predicate with a particular value"
            if t is False:
                return None if isc(p, p.value, env.NOT_PRESENT) is True else \
                    f"produces {show(p.value)} for an absent field"
            if t is True:
                return None if isc(p, p.value, env.NOT_PRESENT) is not True else "drops a field that is present"
            return "ignores the answer of the presence predicate"
        r.each(dump, tag, res, pd, need=3)

    only = r.rule("R5 only", "Wherever else the presence predicate is asked, it is asked with three positional arguments, the "
                  "stream among them only when loading.")
    asked = set()
    for cq in env.field_classes():
        for nm in ("from_stream", "compute_value_for_dump"):
            x = r.run(env.func(cq, nm), cq)
            if x is not None:
                asked |= x.engine.functions_seen
                asked.add(env.func(cq, nm).qual)
    for q, f in sorted(r.prog.funcs.items()):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "present":
                if q in asked:
                    r.ok(only, q)
                    continue
                res0 = r.run(f, f.cls.qual if f.cls else None)
                if res0 is None:
                    r.unknown(only, q, "not analysable")
                    continue
                hits = [(p, e) for p in res0.all for e in p.events if e.kind == "call" and e.node is not None and
                        getattr(e.node, "lineno", 0) == n.lineno and (e.name == "present" or callee(e)[0] == "attr" and
                                                                      callee(e)[2] == "present")]
                st = [x for i, x in enumerate(f.all_params()) if x in ("stream", "fp", "file")]
                bad = next(((p, e) for p, e in hits if len(e.args) != 3 or e.kw or
                            any(e.args[2] == ("p", s) for s in st) and "load" not in q), None)
                if bad:
                    r.bad(only, q, "asks the predicate with arguments of another kind than this operation gives it", *bad)
                elif hits:
                    r.ok(only, q)
                else:
                    r.unknown(only, q, "call not reached")

    for name in ("to_stream", "partial_dump"):
        fi = env.func(env.STRUCT, name)
        res = r.run(fi, env.STRUCT)
        if res is None:
            r.unknown(wr, fi.qual, "; ".join(r.limits[-1:]))
            continue

        wnodes = loop_nodes(res, lambda e: e.kind == "call" and e.name == "to_stream")

        def visit(p, l):
            """Checks one visited field."""
            evs = l.events()
            ws = [e for e in evs if e.kind == "call" and e.name == "to_stream" and e.recv in l.elem() |
                  comp_elems(l)]
            vs = [e for e in evs if e.kind == "call" and e.name == "compute_value_for_dump" and e.recv in l.elem() |
                  comp_elems(l)]
            if not vs:
                return "a field's value is not taken from compute_value_for_dump" if ws else \
                    "a field is skipped without consulting its presence predicate"
            v = vs[-1].res
            absent = isc(p, v, env.NOT_PRESENT)
            if ws and absent is not False:
                return "writes a field without checking that it is present"
            if ws and arg(ws[0], "data", 1) != v:
                return f"writes {show(arg(ws[0], 'data', 1))} instead of the value for dumping"
            if not ws and absent is not True and not raised_by(p, v):
                return "does not write a field that is present"
            return None

        def raised_by(p, v):
            return any(e.kind in ("except",) and exc_origin(e.args[0])[1] == v for e in p.events)

        def pw(p):
            if p.kind != "return":
                return False
            ls = loops(p, is_components)
            ls = [l for l in ls if not l.path.events[l.begin].loops and id(l.node) in wnodes]
            if not ls:
                return "the fields are not visited"
            for l in ls:
                if l.iter:
                    m = visit(p, l)
                    if m:
                        return m
            return None
        r.each(wr, fi.qual, res, pw)
        for lb in res.lbs:
            l = current_loop(lb)
            if l.base is not None and is_components(l.base) and id(l.node) in wnodes:
                r.verdict(wr, fi.qual + " iteration", visit(lb, l), lb)

    fi = env.func(env.FIELD, "__init__")
    res = r.run(fi, env.FIELD)
    for nm in ("present", "not_present_value"):
        r.each(cfg, f"{fi.qual} {nm}", res, lambda p: (
            None if final_attr(p, res.self, nm) == ("p", nm) else f"self.{nm} is {show(final_attr(p, res.self, nm))}")
            if p.kind == "return" else False)
    for q, f in sorted(r.prog.funcs.items()):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and \
                    n.attr in ("present", "not_present_value"):
                if any(x.name != "__init__" for x in r.prog.roots(f).values()):
                    r.bad(cfg, f"{q} {n.attr}", f"replaces a field's {n.attr}",
                          where=f"{f.module.relpath}:{n.lineno}")
                else:
                    r.ok(cfg, f"{q} {n.attr}")


def comp_elems(l):
    """components[key] spelled through the loop's key."""
    out = set()
    b = strip_copy(l.base)
    out.add(("elem", b, l.lid))
    out.add(("sub", b, ("key", b, l.lid)))
    return out

