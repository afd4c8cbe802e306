"""C10: every field sees the sibling values already known."""
from .c09 import entry_points, null_marker
from .common import *

# callee -> position of the mapping argument (self not counted)
FIELD_POS = {"from_stream": ("loaded_fields", 2), "from_bytes": ("loaded_fields", 3), "to_stream": ("all_fields", 3),
             "to_bytes": ("all_fields", 2), "_do_load": ("loaded_fields", 2), "_do_dump": ("all_fields", 3),
             "compute_value_for_dump": ("all_values", 0), "get_expected_size": ("field_values", 0)}
CALLBACKS = {"present": ("fields", 0), "halt_check": ("loaded_fields", 4), "load_decider": ("loaded_fields", 3),
             "dump_decider": ("all_fields", 3), "_compute_fn": ("all_fields", 1), "should_halt": ("loaded_fields", 4)}
PARAMS = ("loaded_fields", "all_fields", "all_values", "field_values")


def mapping_arg(r, p, e, env):
    """(name, term) of the sibling-mapping argument of a call, or None."""
    if e.kind != "call" or e.recv is None:
        return None
    if e.name in CALLBACKS:
        n, i = CALLBACKS[e.name]
        return n, arg(e, n, i)
    if e.name in FIELD_POS:
        owner = e.extra if isinstance(e.extra, str) else ""
        n, i = FIELD_POS[e.name]
        if ".structures." in owner:
            return None
        if not owner and not (n in e.kw or len(e.args) > i):
            return None            # unresolved receiver: int.to_bytes(), a nested struct, ...
        if not owner and e.name in ("to_bytes", "from_bytes"):
            return None
        return n, arg(e, n, i)
    return None


def check(r):
    env = Env(r.prog)
    pas = r.rule("R1 handed on", "In every field operation that receives the sibling values, every field operation, size "
                 "computation and callback it performs receives that very mapping; when it was not given one, a new empty "
                 "mapping, never None.")
    load = r.rule("R2 struct loading", "While loading a struct (fully, partially, or up to one field), every field receives one "
                  "and the same mapping, in which each iteration stores the field's value under its name before the next "
                  "field is read and from which nothing is removed meanwhile.")
    dump = r.rule("R3 struct dumping", "While dumping a struct (fully or partially) every field's value computation and dump "
                  "receives a mapping of all the struct's values.")
    fixed = {}
    n = {}
    for prm in PARAMS:
        for fi, cq in entry_points(r, prm):
            if cq is not None and not r.prog.is_subclass(cq, env.FIELD):
                continue
            if fi.name.startswith("_get_expected_size") or inlined_helper(r, fi):
                continue
            res = r.run(fi, cq)
            if res is None:
                r.unknown(pas, fi.qual, "not analysable")
                continue
            M = ("p", prm)
            for p in res.all:
                for e in p.events:
                    ma = mapping_arg(r, p, e, env)
                    if ma is None:
                        continue
                    name, got = ma
                    n[e.name] = n.get(e.name, 0) + 1
                    tag = f"{res.entry} -> {e.name}"
                    r.verdict(pas, tag, handed(r, p, e, got, M, env, cq, fixed, res, name), p, e)
    for k in ("present", "halt_check", "load_decider", "dump_decider", "from_stream", "to_stream", "_do_load", "_do_dump",
              "get_expected_size", "_compute_fn"):
        r.verdict(pas, f"calls of {k}", None if n.get(k) else (UNKNOWN, "no call found"))

    for cq in [env.STRUCT] + sorted(r.prog.subclasses.get(env.STRUCT, ())):
        for name in ("from_stream", "partial_load", "get_field"):
            fi = env.func(cq, name)
            res = r.run(fi, cq)
            if res is None:
                r.unknown(load, fi.qual, "not analysable")
                continue
            seen = 0
            for p in res.all:
                for e in p.events:
                    if e.kind != "call" or e.name not in ("from_stream", "_do_load") or e.recv == res.self:
                        continue
                    seen += 1
                    inloop = [l for l in loops(p, is_components) if l.lid in e.loops and e.recv in l.elem()]
                    m = arg(e, "loaded_fields", 2)
                    tag = f"{res.entry} -> {'field' if inloop else 'direct'} {e.name}"
                    r.verdict(load, tag, loading(p, e, m, inloop), p, e)
            r.verdict(load, res.entry, None if seen else (UNKNOWN, "no field is loaded here"))
        for name in ("to_stream", "partial_dump"):
            fi = env.func(cq, name)
            res = r.run(fi, cq)
            if res is None:
                r.unknown(dump, fi.qual, "not analysable")
                continue
            seen = 0
            for p in res.all:
                for e in p.events:
                    if e.kind != "call" or e.name not in ("compute_value_for_dump", "to_stream", "_do_dump") \
                            or e.recv == res.self:
                        continue
                    ma = mapping_arg(r, p, e, env)
                    if ma is None:
                        continue
                    seen += 1
                    tag = f"{res.entry} -> {e.name}"
                    if building(p, e, res.self):
                        continue
                    c = covers_struct(p, ma[1], res.self, at=e)
                    r.verdict(dump, tag, None if c else (f"receives {show(ma[1]) if ma[1] else 'no mapping'}, which does not "
                                                         f"hold all of the struct's values" if c is False or ma[1] is None
                                                         else (UNKNOWN, f"cannot tell what {show(ma[1])} holds")), p, e)
            r.verdict(dump, res.entry, None if seen else (UNKNOWN, "no field is dumped here"))


def building(p, e, S):
    return False


def handed(r, p, e, got, M, env, cq, fixed, res, name):
    if e.name == "get_expected_size" and cq and e.recv == res.self:
        if cq not in fixed:
            fixed[cq] = fixed_size(r, cq)
        if fixed[cq]:
            return None               # the size does not depend on any sibling
    if got is None:
        if isc(p, M, NONE) is True:
            return f"{name} is None when no mapping was given" if e.name not in ("from_stream", "to_stream", "from_bytes",
                                                                             "to_bytes") else None
        return "the sibling values are not handed on"
    if got == NONE:
        if isc(p, M, NONE) is True and e.name in ("from_stream", "to_stream", "from_bytes", "to_bytes"):
            return None
        return "receives None instead of the sibling values"
    if same(p, got, M):
        if isc(p, M, NONE) is True and e.name not in ("from_stream", "to_stream", "from_bytes", "to_bytes"):
            return "receives None instead of a mapping"
        if isc(p, M, NONE) is None and optional(res, M) and e.name not in ("from_stream", "to_stream", "from_bytes",
                                                                         "to_bytes"):
            return "may receive None instead of a mapping"
        return None
    if is_fresh_empty(p, got, e):
        if isc(p, M, NONE) is True or tv(p, M) is False:
            return None
        return "receives a new mapping instead of the sibling values"
    if got[0] == "copy" and got[3] == M:
        return None
    return f"receives {show(got)} instead of the sibling values"


def optional(res, M):
    d = res.fi.default(M[1])
    import ast
    return isinstance(d, ast.Constant) and d.value is None


def loading(p, e, m, inloop):
    if m is None or m == NONE:
        return "the field receives no mapping"
    if not inloop:
        return "the field is read without the values of the fields before it" if m[0] == "new" and \
            not stores_into(p, m, e) else (UNKNOWN, f"cannot tell what {show(m)} holds")
    l = inloop[0]
    if any(s == l.base and False for s in subterms(m)):
        return "uses a different mapping per field"
    if m[0] == "new":
        born = [i for i, x in enumerate(p.events) if x.res == m]
        if born and l.begin is not None and born[0] > l.begin:
            return "every field gets a new mapping"
    for x in p.events:
        if l.lid in x.loops and x.recv == m and x.kind in ("delitem", "pop", "clear", "popitem"):
            return "values are removed while later fields are still being loaded"
    if p.kind == "loopback" and current_loop(p).lid == l.lid:
        for x in p.events:
            if l.lid in x.loops and x.recv == m and x.kind in ("setitem", "setdefault") and len(x.args) >= 2 and \
                    x.args[0] in key_terms(l) and x.args[1] == e.res and p.events.index(x) > p.events.index(e):
                return None
        if any(p.facts.atoms.get(("in", k, m)) is True for k in key_terms(l)):
            return None          # the caller's override stays in the mapping
        return "the loaded value is not made available to the next field"
    return None


def key_terms(l):
    out = set(l.key())
    for el in l.elem():
        out.add(("attr", el, "name"))
    return out


def stores_into(p, m, before):
    for x in p.events:
        if x is before:
            return False
        if x.recv == m and x.kind in ("setitem", "setdefault", "update", "dictupdate"):
            return True
    return False
