"""C01: validators see every value before it is stored, returned or written."""
from .common import *


def absent(p, self):
    """The path is one where the presence predicate said no."""
    for e in p.events:
        if e.kind == "call" and callee(e) == ("attr", self, "present"):
            if tv(p, e.res) is False:
                return True
    return False


def returned_value_validated(p, self):
    if p.kind != "return" or absent(p, self):
        return False
    return ran_validators(p, self, p.value)


def dumped(p, stream):
    """(event index, value) of what reaches the stream on this path: index of the first write to the stream."""
    for i, e in enumerate(p.events):
        if e.kind == "call" and (e.recv == stream and e.name in ("write", "writelines")):
            return i
        if e.kind == "call" and e.name in ("_do_dump", "write_int") and passes(e, stream):
            return i
    return None


def check(r):
    env = Env(r.prog)
    load = r.rule("R1 load", "On every path on which Field.from_stream returns a loaded value, a complete loop over "
                  "self.validators called each one with exactly the returned value.")
    dump = r.rule("R2 dump", "On every path on which Field.to_stream writes to the stream, a complete loop over "
                  "self.validators called each one with exactly the value serialized, before the write.")
    store = r.rule("R3 store", "On every path on which Field.__set__ stores into the struct's values, a complete "
                   "loop over self.validators called each one with exactly the stored value, before the store.")
    ctor = r.rule("R4 ctor", "Field.__init__ puts every given validator, bound to the field, into self.validators.")
    body = r.rule("R5 struct", "Struct.validate_contents visits every field that is present: its own validators, "
                  "then every validator method declared for it, with the field's current value; then every struct "
                  "validator.")
    when = r.rule("R6 when", "Struct.from_stream validates the instance it returns, Struct.to_stream validates before "
                  "the first field is written.")
    reg = r.rule("R7 registry", "Every validator method found in a class body is registered for each field it names, "
                 "or as a struct validator; a subclass starts with copies of all of its parent's registrations.")
    byp = r.rule("R8 bypass", "Nothing but Field.__set__ stores into a struct's value mapping.")
    sw = r.rule("R9 swallow", "No exception raised by a validator is swallowed.")
    hooks = r.rule("R10 hooks", "No function calls the _do_load or _do_dump hook of a field other than itself, or writes "
                   "another field's null marker itself, which would step around that field's validators.")
    wrap = r.rule("R11 wrapper", "Calling a registered validator method calls the decorated function exactly once with "
                  "the same arguments, on every path.")
    items = r.rule("R12 items", "Assigning an item of a struct, directly or through its mapping wrapper, assigns the attribute "
                   "on every path that returns, so that the field's validators run.")

    kept = r.rule("R13 kept as validated", "The value a struct keeps for a field it loads is the very value the field's load "
                  "returned, which is the one its validators saw.")
    for cq in [env.STRUCT] + sorted(r.prog.subclasses.get(env.STRUCT, ())):
        for name in ("from_stream", "partial_load"):
            fi = env.func(cq, name)
            res = r.run(fi, cq)
            if res:
                r.each(kept, res.entry, res, keeps, paths=res.all, need=1)

    for cq in env.field_classes():
        fi = env.func(cq, "from_stream")
        res = r.run(fi, cq)
        tag = f"{fi.qual} [{short(cq)}]"
        r.each(load, tag, res, lambda p: returned_value_validated(p, res.self))
        if res:
            lb_runs_elem(r, load, tag, res, lambda b: strip_copy(b) == ("attr", res.self, "validators"), "validators")
            swallow(r, sw, tag, res)

        fi = env.func(cq, "to_stream")
        res = r.run(fi, cq)
        tag = f"{fi.qual} [{short(cq)}]"

        def pdump(p):
            s = res.p(1)
            i = dumped(p, s)
            if i is None:
                return False
            v = None
            for e in p.events[:i + 1]:
                if e.kind == "call" and e.name == "_do_dump" and e.recv == res.self:
                    d = arg(e, "data", 1)
                    if d is not None and not is_null_value(d, res.self):
                        v = d
            if v is None:
                v = NONE
                d = res.p(2)
                if isc(p, d, NONE) is not True and not any(
                        c == NONE for t, c in p.facts.eqc.items()):
                    return "writes something that is neither the serialized value nor a null marker"
            return ran_validators(p, res.self, v, before=i)
        r.each(dump, tag, res, pdump)
        if res:
            lb_runs_elem(r, dump, tag, res, lambda b: strip_copy(b) == ("attr", res.self, "validators"), "validators")
            swallow(r, sw, tag, res)

        fi = env.func(cq, "__set__")
        res = r.run(fi, cq)
        tag = f"{fi.qual} [{short(cq)}]"

        def pset(p):
            inst, val = res.p(1), res.p(2)
            n = False
            for i, e in enumerate(p.events):
                if e.kind in ("setitem", "update") and attr_named(e.recv, "__values__"):
                    n = True
                    if e.kind != "setitem" or e.recv[1] != inst:
                        return "stores somewhere else than the instance's values"
                    if not same(p, e.args[1], val):
                        return f"stores {show(e.args[1])} instead of the assigned value"
                    m = ran_validators(p, res.self, e.args[1], before=i)
                    if m:
                        return m
            if p.kind == "return" and not n:
                return "returns without storing the value"
            return None if n else False
        r.each(store, tag, res, pset)
        if res:
            lb_runs_elem(r, store, tag, res, lambda b: strip_copy(b) == ("attr", res.self, "validators"), "validators")
            swallow(r, sw, tag, res)

    check_ctor(r, env, ctor)
    check_validate_contents(r, env, body, sw)
    check_when(r, env, when, sw)
    check_registry(r, env, reg)
    check_bypass(r, env, byp)
    check_hooks(r, env, hooks)
    check_wrapper(r, env, wrap)
    stack = r.rule("R14 names", "A validator method stays registered for every field name it was declared for, also when the "
                   "decorator is applied on top of another one.")
    check_stacked(r, env, stack)
    check_item_assignment(r, env, items)


def keeps(p):
    """Values stored under a field's name are what that field's from_stream returned."""
    got = {}
    hit = False
    for e in p.events:
        if e.kind == "call" and e.name == "from_stream" and e.res is not None and e.loops:
            got[e.res] = e
            continue
        if e.kind != "setitem" or not e.loops or len(e.args) < 2:
            continue
        v = e.args[1]
        if v in got:
            hit = True
            continue
        src = next((c for t, c in got.items() if c.loops == e.loops and mentions(v, t)), None)
        if src is None or v[0] in ("tuple", "obj", "copy"):
            continue
        lp = next((l for l in loops(p, is_components) if l.lid in e.loops and src.recv in l.elem()), None)
        if lp is not None and v[0] == "app":
            return f"keeps {show(v)} in place of the value the field loaded"
        return UNKNOWN, f"cannot tell what {show(v)} is"
    return None if hit else False


def is_null_value(t, self):
    return t == ("attr", self, "null_value")


def swallow(r, rule, tag, res):
    """Exceptions thrown by validators leave the function."""
    n = 0
    for p in res.paths:
        origins = {}
        for e in p.events:
            if e.kind == "call" and e.name in ("()", "validate_contents"):
                if e.name == "validate_contents" or mentions(e.recv, ("attr", res.self, "validators")) or \
                        contains(e.recv, lambda t: t[0] == "attr" and t[2] in ("validators", "field_validators",
                                                                               "struct_validators")):
                    origins[e.res] = e
        for e in p.events:
            if e.kind == "except":
                exc = e.args[0]
                _, o = exc_origin(exc)
                if o in origins:
                    n += 1
                    bad = p.kind != "raise" or not (p.value[0] == "exc" and exc_origin(p.value)[1] == o)
                    if bad:
                        r.bad(rule, tag, "an exception raised by a validator is caught and not re-raised", p, e)
    if res.paths:
        r.ok(rule, tag)


def check_ctor(r, env, rule):
    fi = env.func(env.FIELD, "__init__")
    res = r.run(fi, env.FIELD)
    val = ("p", "validate")

    def pred(p):
        if p.kind != "return":
            return False
        t = final_attr(p, res.self, "validators")
        if t is None:
            return "self.validators is not set"
        got = elements(p, t)
        if got is None:
            return (UNKNOWN, f"contents of {show(t)}")
        ls = loops(p, lambda b: derives(p, b, val))
        if not ls:
            return "the validators given are never iterated"
        l = ls[0]
        if not l.full:
            return "the loop over the given validators can stop early"
        drop = dropped_by(p, l.base, "validator")
        if drop:
            return drop
        if l.iter and not any(mentions_elem(x, l) for x in got):
            return "a given validator is not put into self.validators"
        if l.iter and not any(bound_to(x, l, res.self) for x in got):
            return "a validator is stored without being bound to the field"
        return None
    r.each(rule, fi.qual, res, pred)
    if res:
        for lb in res.lbs:
            l = current_loop(lb)
            if l.base is not None and derives(lb, l.base, val):
                stored = [e for e in l.events() if e.kind in ("append", "setitem", "extend")]
                r.verdict(rule, fi.qual, None if stored else "an iteration over the given validators drops one", lb)
    # nothing else rebinds or edits `validators`
    for q, f in sorted(r.prog.funcs.items()):
        for e in attr_stores(r, f, "validators"):
            if set(r.prog.roots(f)) != {fi.qual}:
                r.bad(rule, f"{q} stores .validators", "self.validators is replaced outside of the constructor",
                      event=e)


def attr_stores(r, f, name):
    import ast
    out = []
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, (ast.Store, ast.Del)):
            class E:
                node = n

                def where(self):
                    return f"{f.module.relpath}:{self.node.lineno} ({f.qual})"
            out.append(E())
    return out


def elements(p, t):
    c = p.state.cont.get(t)
    if c is not None:
        return [x[0] for x in c]
    if t[0] == "tup":
        return list(t[1])
    if t[0] == "lazy":
        return None
    if t[0] in ("copy",):
        return elements(p, t[3])
    return None


def mentions_elem(t, l):
    return any(mentions(t, x) for x in l.elem())


def bound_to(t, l, self):
    if t[0] == "partial" and mentions(t, self) and mentions_elem(t, l):
        return True
    return mentions(t, self) and mentions_elem(t, l)


def check_validate_contents(r, env, rule, sw):
    fi = env.func(env.STRUCT, "validate_contents")
    res = r.run(fi, env.STRUCT)
    if res is None:
        return r.unknown(rule, fi.qual, "; ".join(r.limits))
    S = res.self

    def outer(b):
        return attr_named(strip_copy(b), "field_validators") or is_components(b)

    def iteration(p, l):
        """One visit of a field on path p."""
        fields = set()
        evs = l.events()
        k = next(iter(l.key()))
        # the value used: argument of the callbacks
        vals, inner = [], []
        for il in loops(p):
            if il.begin is None or il.lid == l.lid or l.lid not in p.events[il.begin].loops:
                continue
            inner.append(il)
        own = [il for il in inner if strip_copy(il.base)[0] == "attr" and strip_copy(il.base)[2] == "validators"
               and is_field_of(strip_copy(il.base)[1], l)]
        meth = [il for il in inner if is_method_list(strip_copy(il.base), l)]
        present = candidate_values(p, l, S, evs)
        np = [v for v in present if isc(p, v, env.NOT_PRESENT) is True]
        if np:
            if any(c.kind == "call" and c.name == "()" for c in evs):
                return "validators run on a field that is not present"
            return None
        if not own or not all(x.full for x in own):
            return "a present field's own validators are not all run"
        if not meth or not all(x.full for x in meth):
            return "a present field's validator methods are not all run"
        for il in own:
            if il.iter:
                cs = loop_calls(il)
                if not cs:
                    return "a field validator is skipped"
                for c in cs:
                    if len(c.args) != 1 or not any(same(p, c.args[0], v) for v in present):
                        return f"a field validator gets {[show(a) for a in c.args]}, not the field's value"
        for il in meth:
            if il.iter:
                cs = loop_calls(il)
                if not cs:
                    return "a validator method is skipped"
                for c in cs:
                    if len(c.args) != 3 or c.args[0] != S or not is_field_of(c.args[1], l) or \
                            not any(same(p, c.args[2], v) for v in present):
                        return f"a validator method gets {[show(a) for a in c.args]}, not (struct, field, value)"
        return None

    def pred(p):
        if p.kind != "return":
            return False
        ls = [l for l in loops(p, outer) if not p.events[l.begin].loops]
        if not ls:
            return "the fields are never visited"
        for l in ls:
            if not l.full:
                return "the loop over the fields can stop early"
            if l.iter:
                m = iteration(p, l)
                if m:
                    return m
        sl = loops(p, lambda b: attr_named(strip_copy(b), "struct_validators"))
        if not sl:
            return "struct validators are not run"
        for l in sl:
            if not l.full:
                return "the loop over the struct validators can stop early"
            if max(x.end for x in ls) > l.begin:
                return "struct validators run before the fields are validated"
            if l.iter:
                cs = loop_calls(l)
                if not cs:
                    return "a struct validator is skipped"
                for c in cs:
                    if len(c.args) != 2 or any(not mentions(a, S) for a in c.args):
                        return f"a struct validator gets {[show(a) for a in c.args]}"
        return None
    r.each(rule, fi.qual, res, pred, need=2)
    for lb in res.lbs:
        l = current_loop(lb)
        if l.base is None:
            continue
        if outer(l.base) and not lb.events[l.begin].loops:
            m = iteration(lb, l)
            r.verdict(rule, fi.qual + " iteration", m, lb)
        elif attr_named(strip_copy(l.base), "struct_validators"):
            r.verdict(rule, fi.qual + " struct iteration",
                      None if loop_calls(l) else "a struct validator is skipped", lb)
        elif strip_copy(l.base)[0] == "attr" and strip_copy(l.base)[2] == "validators" or \
                contains(l.base, lambda t: attr_named(t, "field_validators")):
            r.verdict(rule, fi.qual + " inner iteration",
                      None if loop_calls(l) else "a validator is skipped", lb)
    swallow(r, sw, fi.qual, res)


def is_field_of(t, l):
    """Is t the field object visited by loop l?"""
    ks = l.key()
    if is_components(l.base):
        if t in l.elem():
            return True
    return (t[0] == "sub" and is_components(t[1]) and (t[2] in ks)) or \
        (t[0] == "elem" and is_components(t[1]) and t[2] == l.lid)


def is_method_list(t, l):
    if t in l.elem() and attr_named(strip_copy(l.base), "field_validators"):
        return True
    t = strip_copy(t)
    if t[0] == "sub" and attr_named(t[1], "field_validators"):
        k = t[2]
        return k in l.key() or (k[0] == "attr" and k[2] == "name" and is_field_of(k[1], l))
    if t[0] == "app" and t[1] == "get":
        return attr_named(t[2], "field_validators")
    return False


def candidate_values(p, l, S, evs):
    """Terms standing for the current field's value in this iteration."""
    out = []
    vals = ("attr", S, "__values__")
    for e in evs:
        if e.kind == "call" and e.name in ("compute_value_for_dump", "__getitem__", "__get__") and e.res is not None:
            if e.name == "compute_value_for_dump" and not is_field_of(e.recv, l):
                continue
            out.append(e.res)
        if e.kind == "call" and e.name in ("getattr",):
            out.append(e.res)
        for a in list(e.args):
            for t in subterms(a):
                if value_of_field(t, l, S, vals):
                    out.append(t)
    for t in list(p.facts.nec) + list(p.facts.eqc):
        if value_of_field(t, l, S, vals):
            out.append(t)
    return out


def value_of_field(t, l, S, vals):
    if t[0] == "sub" and t[1] in (vals, S):
        return t[2] in l.key() or (t[2][0] == "attr" and t[2][2] == "name" and is_field_of(t[2][1], l))
    if t[0] == "app" and t[1] == "getattr" and len(t) > 3 and t[2] == S:
        return t[3] in l.key() or (t[3][0] == "attr" and t[3][2] == "name" and is_field_of(t[3][1], l))
    return False


def check_when(r, env, rule, sw):
    fi = env.func(env.STRUCT, "from_stream")
    res = r.run(fi, env.STRUCT)

    def pload(p):
        if p.kind != "return":
            return False
        for e in p.events:
            if e.kind == "call" and e.name == "validate_contents" and e.recv == p.value and not e.loops:
                return None
        return "returns an instance that was not validated"
    r.each(rule, fi.qual, res, pload)
    if res:
        swallow(r, sw, fi.qual, res)
    fi = env.func(env.STRUCT, "to_stream")
    res = r.run(fi, env.STRUCT)

    def pdump(p):
        v = None
        for i, e in enumerate(p.events):
            if e.kind == "call" and e.name == "validate_contents" and e.recv == res.self and not e.loops:
                v = i
            if e.kind == "call" and (e.name == "to_stream" or e.recv == res.p(1) and e.name == "write"):
                return None if v is not None else "a field is written before the struct was validated"
        if p.kind == "return":
            return None if v is not None else "returns without validating the struct"
        return False
    r.each(rule, fi.qual, res, pdump)
    if res:
        swallow(r, sw, fi.qual, res)


def check_registry(r, env, rule):
    fi = env.func(env.META, "from_class")
    res = r.run(fi, env.META)
    if res is None:
        return r.unknown(rule, fi.qual, "; ".join(r.limits))
    prog = r.prog
    deco = env.cls("binobj.decorators", "ValidatorMethodWrapper")

    # registration of methods: find iterations over the class body whose item is a validator method
    def wrapper_item(p, l):
        for el in l.elem():
            if is_inst(p, el, deco) is True:
                return el
        return None

    n = 0
    for lb in res.lbs:
        l = current_loop(lb)
        if l.base is None:
            continue
        el = wrapper_item(lb, l)
        if el is None:
            continue
        n += 1
        r.verdict(rule, "registration of validator methods", registered(lb, l, el), lb)
    if not n:
        r.bad(rule, "registration of validator methods",
              "no loop over the class body registers validator methods")
    # inner loops over field_names: every iteration registers
    m = 0
    for lb in res.lbs:
        l = current_loop(lb)
        b = strip_copy(l.base) if l.base is not None else None
        if b is not None and b[0] == "attr" and b[2] == "field_names":
            m += 1
            okay = any(e.kind in ("append", "extend") and any(mentions(a, b[1]) for a in e.args) and keyed(lb, e.recv, l) for e in l.events())
            r.verdict(rule, "registration for every named field", None if okay else
                      "a field named by a validator method does not get it", lb)
    # bound on full loop
    for p in res.returns():
        for l in loops(p):
            if l.base is not None and strip_copy(l.base)[0] == "attr" and strip_copy(l.base)[2] == "field_names" \
                    and not l.full:
                r.bad(rule, "registration for every named field", "the loop over the named fields can stop early", p)

    # inheritance
    seen_base = set()

    def inherit(p):
        if p.kind != "return":
            return False
        meta = p.value
        base = parent_meta(p)
        if base is None:
            return False
        sv = final_attr(p, meta, "struct_validators")
        fv = final_attr(p, meta, "field_validators")
        if not takes_all(p, sv, ("attr", base, "struct_validators")):
            return "the subclass does not start with all struct validators of its parent"
        if not takes_all(p, fv, ("attr", base, "field_validators"), items=True):
            return "the subclass does not start with all field validators of its parent"
        return None
    r.each(rule, "inherited registrations", res, inherit)
    # every field declared in the class body gets an entry
    for lb in res.lbs:
        l = current_loop(lb)
        comp = [e for e in l.events() if e.kind == "setitem" and owner_of(lb, e.recv, "components") is not None]
        if comp and is_namespace(l.base):
            e = comp[0]
            meta = owner_of(lb, e.recv, "components")
            okay = any(has_entry_loop(lb, x, meta, env) for x in loops(lb)) or any(
                x.kind in ("setitem",) and owner_of(lb, x.recv, "field_validators") is not None
                for x in l.events())
            r.verdict(rule, "every declared field has a validator list", None if okay else
                      "a declared field gets no entry in field_validators, so it is never validated", lb)
    if fi2 := r.prog.lookup("binobj.pep526", "dataclass"):
        res2 = r.run(r.prog.need_func(fi2[1]))
        if res2 is None:
            r.unknown(rule, "annotated fields have a validator list", "; ".join(r.limits))
        else:
            k = 0
            for lb in res2.lbs:
                l = current_loop(lb)
                comp = [e for e in l.events() if e.kind == "setitem" and owner_of(lb, e.recv, "components") is not None]
                if comp:
                    k += 1
                    okay = any(x.kind == "setitem" and owner_of(lb, x.recv, "field_validators") is not None
                               for x in l.events()) or \
                        any(a[0] == "in" and v and attr_named(a[2], "field_validators")
                            for a, v in lb.facts.atoms.items())
                    r.verdict(rule, "annotated fields have a validator list", None if okay else
                              "an annotated field gets no entry in field_validators, so it is never validated", lb)
                    over = [x for x in l.events() if x.kind == "setitem" and
                            owner_of(lb, x.recv, "field_validators") is not None and
                            was_in(x, x.args[0], x.recv) is not False]
                    if over:
                        r.bad(rule, "annotated fields keep registered validators",
                              "registered validator methods are dropped", lb, over[0])


def keyed(p, recv, l):
    """recv is the validator list of the field named by the current element of l."""
    so = sub_of_attr(p, recv, "field_validators")
    if so is not None:
        return so[1] in l.elem() or so[1] in l.key()
    for e in l.events():
        if e.kind == "setitem" and owner_of(p, e.recv, "field_validators") is not None and e.args[1] == recv:
            return e.args[0] in l.elem()
    return False


def is_namespace(b):
    b = strip_copy(b)
    return b is not None and (b[0] == "app" and b[1] == "vars" or b[0] == "attr" and b[2] == "__dict__")


def registered(p, l, el):
    names = ("attr", el, "field_names")
    sv = [e for e in l.events() if e.kind in ("append", "extend") and owner_of(p, e.recv, "struct_validators") is not None
          and any(mentions(a, el) for a in e.args)]
    inner = [x for x in loops(p, lambda b: strip_copy(b) == names)]
    if sv:
        t = tv(p, names)
        if t is True:
            return "a field validator is registered for the whole struct"
        return None
    if inner:
        return None
    return "a validator method is not registered"


def parent_meta(p):
    """The parent's StructMetadata term when this path handles a parent struct."""
    for t in list(p.state.heap.values()) + [x.recv for x in p.events if x.recv is not None]:
        if not isinstance(t, tuple):
            continue
        for s in subterms(t):
            if s[0] == "attr" and s[2] in ("struct_validators", "field_validators", "components") and \
                    contains(s[1], lambda q: q[0] == "attr" and q[2] == "__bases__" or q[0] in ("elem", "sub")) \
                    and s[1][0] == "attr" and s[1][2] == "__binobj_struct__":
                return s[1]
    return None


def takes_all(p, t, src, items=False):
    """t (a container) contains a copy of everything in src."""
    if t is None:
        return False
    for s in subterms(t):
        if s == src:
            return True
    ls = loops(p, lambda b: strip_copy(b) == src)
    for l in ls:
        if not l.full:
            return False
        if not l.iter:
            return True
        for e in l.events():
            if e.kind in ("append", "setitem", "extend") and e.recv == t:
                if any(mentions_elem(a, l) for a in e.args) or any(
                        contains_elem(p, a, l) for a in e.args):
                    return True
        return False
    for e in p.events:
        if e.kind in ("update", "extend") and e.recv == t and any(mentions(a, src) for a in e.args):
            return True
    return False


def contains_elem(p, a, l):
    c = p.state.cont.get(a)
    if c:
        return any(mentions_elem(x[0], l) for x in c)
    return any(contains_elem(p, x, l) for x in subterms(a) if x != a and x in p.state.cont)


def has_entry_loop(p, l, meta, env):
    if l.base is None or not is_namespace(l.base):
        return False
    for e in l.events():
        if e.kind == "setitem" and (attr_named(e.recv, "field_validators") or e.recv[0] == "new"):
            return True
    return not l.iter


def check_wrapper(r, env, rule):
    cq = env.cls("binobj.decorators", "ValidatorMethodWrapper")
    fi = env.func(cq, "__call__")
    res = r.run(fi, cq)
    if res is None:
        return r.unknown(rule, fi.qual, "; ".join(r.limits[-1:]))
    fn = ("attr", res.self, "func")

    def pred(p):
        if p.kind == "raise":
            return False
        cs = [e for e in p.events if e.kind == "call" and (e.recv == fn or callee(e) == fn)]
        if len(cs) != 1:
            return "the decorated function is not called" if not cs else "the decorated function is called twice"
        if any(e.kind == "except" and exc_origin(e.args[0])[1] == cs[0].res for e in p.events):
            return "an exception raised by the decorated function is swallowed"
        got = list(cs[0].args)
        want = [res.p(i) for i in range(1, len(res.fi.params()))] if hasattr(res, "fi") else None
        if len(got) == 1 and got[0][0] in ("star", "p", "va"):
            return None
        if want is not None and got == want:
            return None
        return (UNKNOWN, f"calls it with {[show(a) for a in got]}")
    r.each(rule, fi.qual, res, pred, need=1)


def check_stacked(r, env, rule):
    """The names a validator was declared for survive wrapping it, also when a decorator is stacked on another one."""
    import ast
    cq = env.cls("binobj.decorators", "ValidatorMethodWrapper")
    fi = env.func(cq, "__init__")
    res = r.run(fi, cq)
    if res is None:
        return r.unknown(rule, fi.qual, "; ".join(r.limits[-1:]))
    func, names = res.p(1), res.p(2)
    inner = ("attr", func, "field_names")
    # other places that may take a stack of wrappers apart
    elsewhere = any(isinstance(n, (ast.Attribute, ast.Name)) and getattr(n, "attr", getattr(n, "id", None)) in
                    ("__wrapped__", "unwrap", "ValidatorMethodWrapper") and not isinstance(n, ast.Name) or
                    isinstance(n, ast.Call) and getattr(n.func, "id", "") == "isinstance" and
                    "ValidatorMethodWrapper" in ast.dump(n)
                    for q, f in r.prog.funcs.items() if f.qual.startswith("binobj.decorators.") and q != fi.qual
                    for n in ast.walk(f.node))

    def pred(p):
        if p.kind != "return":
            return False
        sets = [(i, e) for i, e in enumerate(p.events) if e.kind == "setattr" and e.recv == res.self and e.name == "field_names"]
        if not sets:
            return (UNKNOWN, "field_names is not stored here")
        i, e = sets[-1]
        v = e.args[-1]
        stacked = is_inst(p, func, cq)
        if not mentions(v, names) and tv(p, names) is not False:
            return (UNKNOWN, f"names {show(v)}")
        if stacked is False:
            return None
        keeps = mentions(v, inner) or any(x.kind == "call" and x.name == "getattr" and x.recv == func and mentions(v, x.res)
                                          for x in p.events) or tv(p, inner) is False
        over, src = False, None
        for x in p.events[i:]:
            if x.kind == "wraps" and x.name == "wraps":
                src = x.args[0]
            if x.kind == "wraps" and x.name == "apply" and x.recv == res.self or \
                    x.kind == "call" and x.name == "update_wrapper" and res.self in x.args:
                over = True
                src = src if x.kind == "wraps" else next((a for a in x.args if a != res.self), None)
        if over and src == func:
            if stacked is None and elsewhere:
                return (UNKNOWN, "stacked decorators may be handled elsewhere")
            return "a decorator stacked on another one: the names it was given are replaced by those of the inner one"
        if not keeps:
            if stacked is None and elsewhere:
                return (UNKNOWN, "stacked decorators may be handled elsewhere")
            return "a decorator stacked on another one: the names the inner one was given are dropped"
        return None
    r.each(rule, f"{fi.qual} names", res, pred, need=1)


def check_hooks(r, env, rule):
    """The hooks of another field object are never called directly."""
    import ast
    for q, f in sorted(r.prog.funcs.items()):
        if not any(isinstance(n, ast.Attribute) and n.attr in ("_do_load", "_do_dump") for n in ast.walk(f.node)):
            continue
        cq = f.cls.qual if f.cls else None
        res = r.run(f, cq)
        if res is None:
            r.unknown(rule, q, "; ".join(r.limits[-1:]))
            continue
        for p in res.all:
            for e in p.events:
                if e.kind == "call" and e.name in ("_do_load", "_do_dump") and e.recv is not None and \
                        not (cq and e.recv in (res.self, ("super", res.self))) and e.recv[0] not in ("super", "cls"):
                    r.bad(rule, q, f"calls {e.name} of another field directly, past its validators", p, e)
        r.ok(rule, q)
    todo = {}
    for q, f in sorted(r.prog.funcs.items()):
        if any(isinstance(n, ast.Attribute) and n.attr == "_get_null_repr" for n in ast.walk(f.node)):
            todo.update(r.prog.roots(f) if inlined_helper(r, f) else {q: f})
    for q, f in sorted(todo.items()):
        if f.name == "_get_null_repr":
            continue
        cq = f.cls.qual if f.cls else None
        res = r.run(f, cq, opaque=("_get_null_repr",))
        if res is None:
            r.unknown(rule, q, "; ".join(r.limits[-1:]))
            continue
        for p in res.all:
            for e in p.events:
                if not (e.kind == "call" and e.name in ("write", "writelines") and e.args):
                    continue
                for c in p.events:
                    if c.kind == "call" and c.name == "_get_null_repr" and c.recv is not None and mentions(e.args[0], c.res) and \
                            c.recv[0] not in ("super", "cls", "superobj") and not (cq and c.recv in (res.self, ("super", res.self))):
                        r.bad(rule, q, "writes the null marker of another field directly, past its validators", p, e)
        r.ok(rule, q + " null marker")


def check_bypass(r, env, rule):
    import ast
    todo = {}
    for q, f in sorted(r.prog.funcs.items()):
        if any(isinstance(n, ast.Attribute) and n.attr in ("__values__", "__dict__") for n in ast.walk(f.node)):
            todo.update(r.prog.roots(f) if inlined_helper(r, f) else {q: f})
    for q, f in sorted(todo.items()):
        res = r.run(f, f.cls.qual if f.cls else None)
        if res is None:
            r.unknown(rule, q, "; ".join(r.limits[-1:]))
            continue
        for p in res.paths:
            for e in p.events:
                if e.kind in ("setitem", "update", "extend", "mutcall") and attr_named(e.recv, "__values__"):
                    if f.name == "__set__" and f.cls is not None and r.prog.is_subclass(f.cls.qual, env.FIELD):
                        continue
                    r.bad(rule, q, "stores a field value without validating it", p, e)
                if e.kind == "setattr" and e.name == "__values__":
                    if f.name == "__init__" and f.cls is not None and r.prog.is_subclass(f.cls.qual, env.STRUCT):
                        continue
                    r.bad(rule, q, "replaces the value mapping of a struct", p, e)
        r.ok(rule, q)
