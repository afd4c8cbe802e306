"""C23: unions and nested structs delegate to exactly the chosen member."""
from .common import *

TECHNIQUE = "path-sensitive dataflow: identity of the receiver, arguments and result of the delegated load/dump call on every path"

DUMPS = ("to_stream", "_do_dump", "to_bytes", "partial_dump")
LOADS = ("from_stream", "_do_load", "from_bytes", "partial_load", "exact_from_bytes", "get_field")


def check(r):
    env = Env(r.prog)
    ul = r.rule("R1 union load", "A union asks its load decider once, loads with the complete load of exactly the member the "
                "decider returned, gives it the same stream, context and loaded fields, and returns what it loaded.")
    ud = r.rule("R2 union dump", "A union asks its dump decider once and dumps the data unchanged with the complete dump of "
                "exactly the member returned; a struct class is given the mapping's items.")
    bad = r.rule("R3 rejects", "TypeError is raised for every decider result that is neither a field instance nor a struct "
                 "class, and only for those or for a non-mapping given to a struct member.")
    nd = r.rule("R4 nested dump", "A nested field dumps a struct instance with that instance's complete dump and a mapping "
                "with the complete dump of a new instance of its struct class built from exactly that mapping.")
    nl = r.rule("R5 nested load", "A nested field loads with its struct class's complete load and returns its result.")
    cfg = r.rule("R6 configuration", "The choices, deciders and struct class used are the ones given; field classes among the "
                 "choices are refused with ConfigurationError.")
    U, N = env.field("Union"), env.field("Nested")
    for cq in [U] + sorted(r.prog.subclasses.get(U, ())):
        fi = env.func(cq, "_do_load")
        res = r.run(fi, cq)
        tag = f"{fi.qual} [{short(cq)}]"
        r.each(ul, tag, res, lambda p: union_load(p, res, env), need=2)
        r.each(bad, tag, res, lambda p: rejects(p, res, env, "load_decider", res.p(3), None))
        fi = env.func(cq, "_do_dump")
        res2 = r.run(fi, cq)
        tag = f"{fi.qual} [{short(cq)}]"
        r.each(ud, tag, res2, lambda p: union_dump(p, res2, env), need=2)
        r.each(bad, tag, res2, lambda p: rejects(p, res2, env, "dump_decider", res2.p(4), res2.p(2)))
        fi = env.func(cq, "__init__")
        res3 = r.run(fi, cq)
        r.each(cfg, f"{fi.qual} [{short(cq)}]", res3, lambda p: union_cfg(p, res3, env))
    for cq in [N] + sorted(r.prog.subclasses.get(N, ())):
        fi = env.func(cq, "_do_dump")
        res4 = r.run(fi, cq)
        r.each(nd, f"{fi.qual} [{short(cq)}]", res4, lambda p: nested_dump(p, res4, env), need=2)
        fi = env.func(cq, "_do_load")
        res5 = r.run(fi, cq)
        r.each(nl, f"{fi.qual} [{short(cq)}]", res5, lambda p: nested_load(p, res5))
        fi = env.func(cq, "__init__")
        res6 = r.run(fi, cq)
        r.each(cfg, f"{fi.qual} [{short(cq)}]", res6, lambda p: nested_cfg(p, res6))


def is_mapping_type(env):
    """Do structs count as mappings?"""
    import ast
    for k in env.prog.classes[env.STRUCT].mro:
        for b in env.prog.classes[k].bases if k in env.prog.classes else ():
            if b and b[0] == "ext" and "Mapping" in b[1]:
                return True
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "register"
               for m in env.prog.modules.values() for n in ast.walk(m.tree))


# ------------------------------------------------------------------ unions
def decision(p, S, name):
    return [e for e in p.events if e.kind == "call" and callee(e) == ("attr", S, name)]


def kind_of(p, t, env):
    """'field', 'struct', 'neither' or None."""
    f = is_inst(p, t, env.FIELD)
    if f is True:
        return "field"
    s = p.facts.atoms.get(("issub", t, env.STRUCT))
    if s is True:
        return "struct"
    ty = p.facts.atoms.get(("isinst", t, "type"))
    if f is False and (s is False or ty is False) or ty is True and s is False:
        return "neither"
    return None


def other_facts(p, D, env):
    """Was the decider's result examined in a way the rule does not model?"""
    return any(mentions(a, D) and not (a[0] == "isinst" and a[2] in (env.FIELD, "type") or a[0] == "eq" and NONE in a[1:] or
                                       a[0] == "truth")
               for a in p.facts.atoms)


def handled(p):
    return any(e.kind == "except" for e in p.events)


def decider_args(e, first, S, ctx, vals):
    want = (first, ("attr", S, "choices"), ctx, vals)
    got = list(e.args)
    if e.kw or len(got) != 4:
        return f"the decider is called with {len(got)} arguments" if not e.kw else (UNKNOWN, "keyword arguments")
    for g, w in zip(got, want):
        if g != w and strip_copy(g) != w:
            if w == vals and g[0] == "copy":
                continue
            return f"the decider is given {show(g)} for {show(w)}"
    return None


def union_load(p, res, env):
    S, stream, ctx, vals = res.params[:4]
    if p.kind != "return":
        return False
    ds = decision(p, S, "load_decider")
    if not ds:
        return "a value is loaded without asking the load decider"
    if len(ds) > 1:
        return "the load decider is asked more than once"
    D = ds[0].res
    m = decider_args(ds[0], stream, S, ctx, vals)
    if m:
        return m
    for e in p.events:
        if e.kind == "call" and e.name in LOADS and e.recv is not None and e.recv != D:
            if mentions(e.recv, ("attr", S, "choices")) or e.recv[0] in ("elem", "sub"):
                return f"a value is loaded with {show(e.recv)} instead of the member the decider returned"
            return (UNKNOWN, f"loaded with {show(e.recv)}")
    e = call_event(p, p.value)
    if e is None or e.recv != D:
        if e is not None and e.name not in LOADS:
            return (UNKNOWN, f"{show(p.value)} is returned")
        return f"{show(p.value)} is returned instead of what the chosen member loaded"
    if e.name != "from_stream":
        return f"the chosen member loads through {e.name}, not its complete load" if e.name in LOADS else \
            (UNKNOWN, f"loads through {e.name}")
    k = kind_of(p, D, env)
    if k == "neither":
        return "the decider's result is used although it is neither a field nor a struct class"
    if k is None:
        return (UNKNOWN, "kind of member not followed") if handled(p) or other_facts(p, D, env) else \
            "the decider's result is used without checking that it is a field or a struct class"
    return receives(e, (("stream", 0, stream), ("context", 1, ctx)) + ((("loaded_fields", 2, vals),) if k == "field" else ()))


def receives(e, want):
    for n, i, w in want:
        g = arg(e, n, i)
        if g is None:
            return f"the chosen member is not given the {n}"
        if g != w and strip_copy(g) != w and not (g[0] == "copy" and g[3] == w):
            return f"the chosen member is given {show(g)} as its {n}" if g[0] in ("c", "p", "enum", "new", "attr") else \
                (UNKNOWN, f"{n} is {show(g)}")
    return None


def built_from(p, e, data):
    """Is e a construction whose only arguments are **data?"""
    if e.args:
        return False
    ks = list(e.kw.items())
    if len(ks) == 1 and str(ks[0][0]).startswith("**"):
        v = ks[0][1]
        if v == data or v[0] == "view" and v[2] == data:
            return True
        if v[0] == "copy" and v[3] == data or v[0] == "app" and v[1] == "dict" and len(v) == 3 and v[2] == data:
            return "copied"
        if v[0] == "new":
            for l in loops(p, lambda b: b == data or b[0] == "view" and b[2] == data):
                st = [x for x in l.events() if x.kind in ("setitem", "update") and x.recv == v]
                if l.iter and l.full and not st:
                    return "partial"
            if only_known_names(p, v, data):
                return "partial"
        return None
    return None


def only_known_names(p, v, data):
    """The mapping v takes over the declared names only, and nothing else looks at the names the data has."""
    ls = loops(p, lambda b: is_components(b) or b[0] == "view" and is_components(b[2]))
    inner = [x for l in ls for x in l.events()]
    fills = [x for x in p.events if x.kind in ("setitem", "update", "append", "extend") and x.recv == v]
    if not ls or any(x not in inner for x in fills):
        return False
    if not all(any(x is y for y in inner) for x in p.events if x.kind not in ("loop_begin", "iter_begin", "iter_end", "loop_end", "recheck")
               and x.kind in ("call", "copy", "update", "extend", "construct") and (
                   data in x.args or x.recv == data or any(mentions(a, data) for a in list(x.args) + list(x.kw.values()) if a))):
        return False
    if loops(p, lambda b: b == data or mentions(b, data)):
        return False
    names = [a for a in p.facts.atoms if mentions(a, data) and not (a[0] in ("isinst", "in") and data in a[1:])]
    return not names


def mapping_known(p, data, env):
    for a, v in p.facts.atoms.items():
        if a[0] == "isinst" and a[1] == data and v and (str(a[2]).endswith("Mapping") or a[2] == "dict" or a[2] == env.STRUCT):
            return True
    return None


def dump_call(p, stream, recv):
    """Dump calls made on recv."""
    return [e for e in p.events if e.kind == "call" and e.name in DUMPS and e.recv == recv]


def struct_dump(p, cls_t, data, stream, ctx, env, what):
    made = [e for e in p.events if (e.kind == "construct" and e.recv == cls_t) or (e.kind == "call" and e.name == "()" and e.recv == cls_t)
            or e.kind == "call" and callee(e) == cls_t]
    if not made:
        direct = dump_call(p, stream, data)
        if direct and any(a[0] == "isinst" and a[1] == data and v and a[2] in (cls_t, env.STRUCT) for a, v in p.facts.atoms.items()):
            return None if direct[0].name == "to_stream" else f"{what} is dumped through {direct[0].name}"
        return f"{what} is not built from the data" if not any(
            e.kind in ("call", "construct") and (passes(e, data)) for e in p.events if e.name != "dump_decider") else \
            (UNKNOWN, "how the struct is built is not followed")
    e = made[-1]
    b = built_from(p, e, data)
    if b == "partial":
        return f"{what} is built from a part of the mapping only"
    if b is False or b is None:
        if e.args and data in e.args:
            return (UNKNOWN, "positional arguments")
        return (UNKNOWN, f"{what} is built from {show_args(e)}")
    if b == "copied" and mapping_known(p, data, env) is not True:
        return f"{what} is built from data not known to be a mapping"
    ds = dump_call(p, stream, e.res)
    if not ds:
        return f"{what} is built but not dumped" if not any(passes(x, e.res) for x in p.events if x.kind == "call") else \
            (UNKNOWN, "how the struct is dumped is not followed")
    if len(ds) > 1:
        return f"{what} is dumped more than once"
    d = ds[0]
    if d.name == "to_bytes":
        return (UNKNOWN, "dumped through to_bytes")
    if d.name != "to_stream":
        return f"{what} is dumped through {d.name}, not its complete dump"
    return receives(d, (("stream", 0, stream), ("context", 1, ctx)))


def show_args(e):
    return ", ".join([show(a) for a in e.args] + [f"{k}={show(v)}" for k, v in e.kw.items()])


def union_dump(p, res, env):
    S, stream, data, ctx, vals = res.params[:5]
    if p.kind != "return":
        return False
    ds = decision(p, S, "dump_decider")
    if not ds:
        return "a value is dumped without asking the dump decider"
    if len(ds) > 1:
        return "the dump decider is asked more than once"
    D = ds[0].res
    m = decider_args(ds[0], data, S, ctx, vals)
    if m:
        return m
    for e in p.events:
        if e.kind == "call" and e.name in DUMPS and e.recv is not None and mentions(e.recv, ("attr", S, "choices")) and \
                not mentions(e.recv, D):
            return f"the value is dumped with {show(e.recv)} instead of the member the decider returned"
        if e.kind == "call" and e.recv == stream and e.name == "write":
            return (UNKNOWN, "the union writes bytes itself")
    k = kind_of(p, D, env)
    if k == "neither":
        return "the value is dumped although the decider's result is neither a field nor a struct class"
    if k is None:
        return (UNKNOWN, "kind of member not followed") if handled(p) or other_facts(p, D, env) else \
            "the decider's result is used without checking that it is a field or a struct class"
    if k == "struct":
        fs = {str(a[2] if isinstance(a[2], str) else ""): v for a, v in p.facts.atoms.items() if a[0] == "isinst" and a[1] == data}
        if any(a[0] in ("isinst", "isinst?") and a[1] == data and v and a[2] in (D, env.STRUCT) for a, v in p.facts.atoms.items()) and not any(
                v for n, v in fs.items() if n.endswith("Mapping") or n == "dict") and not is_mapping_type(env):
            return "a struct instance, which is not a mapping, is accepted for a struct member"
        return struct_dump(p, D, data, stream, ctx, env, "the chosen struct")
    es = dump_call(p, stream, D)
    if not es:
        return "the chosen field is not dumped" if not any(passes(x, D) for x in p.events if x.kind == "call") else \
            (UNKNOWN, "how the field is dumped is not followed")
    if len(es) > 1:
        return "the chosen field is dumped more than once"
    e = es[0]
    if e.name == "to_bytes":
        return (UNKNOWN, "dumped through to_bytes")
    if e.name != "to_stream":
        return f"the chosen field is dumped through {e.name}, not its complete dump"
    return receives(e, (("stream", 0, stream), ("data", 1, data), ("context", 2, ctx), ("all_fields", 3, vals)))


def rejects(p, res, env, name, vals, data):
    S = res.self
    ds = decision(p, S, name)
    if not ds:
        return False
    k = kind_of(p, ds[-1].res, env)
    if p.kind == "return":
        return "the value is silently ignored although the decider's result is neither a field nor a struct class" \
            if k == "neither" else False
    if p.value[0] != "exc" or not any(e.kind == "newexc" and e.res == p.value for e in p.events):
        return False
    te = env.exc_is(p.value[2], "TypeError")
    if k == "neither":
        return None if te else f"{short(p.value[2])} is raised for a decider result of the wrong type"
    if k == "field":
        return f"{short(p.value[2])} is raised although the decider returned a field"
    if k == "struct":
        if data is None:
            return f"{short(p.value[2])} is raised although the decider returned a struct class"
        m = [v for a, v in p.facts.atoms.items() if a[0] == "isinst" and a[1] == data and str(a[2]).endswith("Mapping")]
        if m and m[0] is False:
            return None if te else f"{short(p.value[2])} is raised for data that is not a mapping"
        if m and m[0] is True:
            return f"{short(p.value[2])} is raised although a mapping was given"
        nd = [v for a, v in p.facts.atoms.items() if a[0] == "isinst" and a[1] == data]
        if nd and te:
            return "TypeError is raised for some mappings" if all(a[2] in ("dict",) for a, v in p.facts.atoms.items()
                                                                  if a[0] == "isinst" and a[1] == data) else (UNKNOWN, "mapping check")
        return (UNKNOWN, "mapping check not followed")
    return (UNKNOWN, "kind of member not followed")


def union_cfg(p, res, env):
    S = res.self
    fa = getattr(res, "vararg", None)
    if p.kind != "return":
        return False
    ch = final_attr(p, S, "choices")
    if fa is not None and strip_copy(ch) != fa:
        return f"the choices become {show(ch)}" if ch is None or ch[0] in ("c", "sub") else (UNKNOWN, show(ch))
    for n in ("load_decider", "dump_decider"):
        v = final_attr(p, S, n)
        if v != ("p", n):
            return f"the {n} becomes {show(v)}" if v is None or v[0] in ("c", "p", "fn") else (UNKNOWN, show(v))
    # a path that completes has seen no field class among the choices
    ls = [l for l in loops(p) if l.base is not None and strip_copy(l.base) == fa]
    if not ls:
        return "field classes among the choices are not refused" if fa is not None and not any(
            mentions(x, fa) for e in p.events for x in list(e.args) + list(e.kw.values()) if e.kind in ("call",)) else \
            (UNKNOWN, "check of the choices not followed")
    l = ls[0]
    if l.how != "exhausted":
        return "not all choices are looked at"
    if l.iter:
        for el in l.elem():
            ty, sb = p.facts.atoms.get(("isinst", el, "type")), p.facts.atoms.get(("issub", el, env.FIELD))
            if ty is False or sb is False or is_inst(p, el, env.FIELD) is True:
                return None
            if ty is True and sb is True:
                return "a field class among the choices is accepted"
        return (UNKNOWN, "check of the choices not followed")
    return None


# ------------------------------------------------------------------ nested
def nested_dump(p, res, env):
    S, stream, data, ctx, vals = res.params[:5]
    if p.kind != "return":
        return False
    C_ = ("attr", S, "struct_class")
    inst = is_inst(p, data, env.STRUCT)
    own = p.facts.atoms.get(("isinst", data, C_))
    es = dump_call(p, stream, data)
    if inst is True or own is True:
        if not es:
            made = [e for e in p.events if callee(e) == C_ or e.recv == C_]
            return (UNKNOWN, "a struct instance is rebuilt") if made else "a struct instance is not dumped"
        if len(es) > 1:
            return "a struct instance is dumped more than once"
        e = es[0]
        if e.name == "to_bytes":
            return (UNKNOWN, "dumped through to_bytes")
        if e.name != "to_stream":
            return f"a struct instance is dumped through {e.name}, not its complete dump"
        return receives(e, (("stream", 0, stream), ("context", 1, ctx)))
    if es:
        return "the data's own dump is used although it is not known to be a struct" if not any(
            mentions(a, data) for a in p.facts.atoms) and not handled(p) else (UNKNOWN, "kind of data not followed")
    return struct_dump(p, C_, data, stream, ctx, env, "the nested struct")


def nested_load(p, res):
    S, stream, ctx = res.params[:3]
    if p.kind != "return":
        return False
    C_ = ("attr", S, "struct_class")
    e = call_event(p, p.value)
    if e is None or e.recv != C_:
        if e is not None:
            return (UNKNOWN, f"{show(p.value)} is returned")
        return f"{show(p.value)} is returned instead of the loaded struct"
    if e.name != "from_stream":
        return f"the nested struct is loaded through {e.name}, not its complete load" if e.name in LOADS else \
            (UNKNOWN, f"loads through {e.name}")
    return receives(e, (("stream", 0, stream), ("context", 1, ctx)))


def nested_cfg(p, res):
    if p.kind != "return":
        return False
    v = final_attr(p, res.self, "struct_class")
    if v != ("p", "struct_class"):
        return f"the struct class becomes {show(v)}" if v is None or v[0] in ("c", "p", "cls") else (UNKNOWN, show(v))
    return None
