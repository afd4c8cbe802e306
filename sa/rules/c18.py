"""C18: a field's published index and offset describe the real layout."""
from .common import *
from . import c17

TECHNIQUE = "loop-invariant dataflow: per-iteration transfer of the index and offset counters while a class is built, plus symbolic stream positions"


def param_of(e, name, i):
    return e.kw.get(name, e.args[i] if len(e.args) > i else None)


def check(r):
    env = Env(r.prog)
    idx = r.rule("R1 index", "While a class is defined, its fields are bound with consecutive indexes that start at the number "
                 "of inherited fields.")
    off = r.rule("R2 offset", "The offset a field is bound with starts at the parent's size; it grows by exactly the field's "
                 "size when the field has a fixed size and is always present, and becomes (and stays) None otherwise.")
    store = r.rule("R3 stored", "Binding a field stores exactly the index and offset it was given, and nothing else ever sets "
                   "them.")
    read = r.rule("R4 direct read", "Reading one field directly happens only when its offset is known, at the current position "
                  "plus that offset, and its value is returned; otherwise all fields up to it are read from the current position.")
    layouts(r, env, idx, off)
    for cq in env.field_classes():
        fi = r.prog.find_method(cq, "bind_to_container")
        res = r.run(fi, cq)
        r.each(store, f"{fi.qual} [{short(cq)}]", res, lambda p: stored(p, res))
        for name, f in sorted(r.prog.classes[cq].methods.items()) if hasattr(r.prog.classes[cq], "methods") else []:
            if all(x.name in ("bind_to_container", "__init__") for x in r.prog.roots(f).values()):
                continue
            res2 = r.run(f, cq)
            if res2 is not None:
                for p in res2.all:
                    for e in p.events:
                        if e.kind == "setattr" and e.name in ("index", "offset") and e.recv == res2.self:
                            r.bad(store, f"{f.qual} [{short(cq)}]", f"sets {e.name}", p, e)

    fi = env.func(env.STRUCT, "get_field")
    res = r.run(fi, env.STRUCT)
    r.each(read, fi.qual, res, lambda p: direct(p, res, env), need=2)


def layouts(r, env, idx, off):
    """Index and offset of every field, in both declaration styles."""
    fc = env.func(env.META, "from_class")
    dc = env.modfunc("binobj", "dataclass")
    pres = r.prog.lookup("binobj.fields.base", "_always_present")
    for fi, cls, ki in ((fc, env.META, 1), (dc, None, 0)):
        res = r.run(fi, cls)
        if res is None:
            r.unknown(idx, fi.qual, "not analysable")
            r.unknown(off, fi.qual, "not analysable")
            continue
        K = res.p(ki)
        nodes = loop_nodes(res, lambda e: e.kind == "call" and e.name == "bind_to_container")
        n = 0
        for lb in res.lbs:
            l = current_loop(lb)
            bs = [e for e in l.events() if e.kind == "call" and e.name == "bind_to_container"]
            if not bs:
                continue
            n += 1
            if len(bs) > 1:
                r.bad(idx, res.entry, "a field is bound more than once", lb)
                continue
            r.each(idx, res.entry, res, lambda p: index(p, l, bs[0], K), paths=[lb])
            r.each(off, res.entry, res, lambda p: offset(p, l, bs[0], K, env, cls is None), paths=[lb])
        # iterations that bind nothing leave both counters alone
        ctr = counters(res)
        for lb in res.lbs:
            l = current_loop(lb)
            if id(l.node) in nodes and not any(e.kind == "call" and e.name == "bind_to_container" for e in l.events()):
                r.verdict(idx, res.entry + " other items", untouched(l, ctr), lb)
        if not n:
            r.unknown(idx, res.entry, "no loop binds fields")
            r.unknown(off, res.entry, "no loop binds fields")


def counters(res):
    """(index keys, offset keys): loop-carried variables handed to bind_to_container."""
    out = set()
    for p in res.all:
        for e in p.events:
            if e.kind == "call" and e.name == "bind_to_container":
                for t in (param_of(e, "index", 2), param_of(e, "offset", 3)):
                    if t is not None and t[0] == "phi":
                        out.add(t[2])
    return out


def key_name(k):
    return k[1] if isinstance(k, tuple) and len(k) == 2 else k


def untouched(l, ctr):
    names = {key_name(k) for k in ctr}
    for k, v in (l.info.get("posts") or {}).items():
        if key_name(k) in names and v != ("phi", l.lid, k) and v != (l.info.get("inits") or {}).get(k):
            return f"{key_name(k)} changes for an item that is not a field"
    return None


def is_count(p, t, K):
    """t is the number of fields the struct has so far."""
    if t[0] == "app" and t[1] == "len" and len(t) > 2:
        c = strip_copy(t[2])
        return is_components(c) or owner_of(p, c, "components") is not None
    return False


def inherited_empty(p):
    """No inherited fields on this path."""
    return True


def index(p, l, e, K):
    t = param_of(e, "index", 2)
    if t is None:
        return "no index is given"
    if is_count(p, t, K):
        for x in p.events:
            if x is e:
                break
            if x.kind == "setitem" and l.lid in x.loops and owner_of(p, x.recv, "components") is not None:
                return "the number of fields is taken after the field was added"
        return None
    # enumerate(start=...)
    parts, c = lin_parts(t)
    phis = [x for x in parts if x[0] == "phi" and x[1] == l.lid]
    if t[0] == "idx" or any(x[0] == "idx" for x in parts):
        return (UNKNOWN, f"index {show(t)}")
    if len(phis) != 1 or parts.get(phis[0]) != 1:
        return "the index is the same for every field" if is_num_const(t) else (UNKNOWN, f"index {show(t)}")
    phi = phis[0]
    rest = lin_add(t, phi, -1)
    init = (l.info.get("inits") or {}).get(phi[2])
    post = (l.info.get("posts") or {}).get(phi[2])
    if init is None or post is None:
        return (UNKNOWN, "counter not followed")
    d = lin_add(post, phi, -1)
    if d != C(1):
        return f"the index grows by {show(d)} instead of 1" if is_num_const(d) else (UNKNOWN, f"index step {show(d)}")
    first = lin_add(init, rest)
    parts0, c0 = lin_parts(first)
    if not parts0:
        if c0 != 0:
            return f"indexes start at {c0}"
        if base_seen(p, K) and not base_empty(p, K):
            return "indexes start at 0 although there are inherited fields"
        return None
    if len(parts0) == 1 and c0 == 0:
        x, k = next(iter(parts0.items()))
        if k == 1 and is_count(p, x, K):
            return None
    if c0 != 0 and len(parts0) == 1 and is_count(p, next(iter(parts0)), K):
        return f"indexes start at {show(first)}"
    return (UNKNOWN, f"indexes start at {show(first)}")


def base_seen(p, K):
    """Does the class have a struct base on this path?"""
    for e in p.events:
        if e.kind == "loop_begin" and e.recv is not None and is_components(e.recv) and c17.own(p, e.recv, K) == "parent":
            return True
        if e.kind == "call" and e.name == "get_size":
            return True
    return False


def base_empty(p, K):
    for t in list(p.facts.eqc):
        if t[0] == "app" and t[1] == "len" and len(t) > 2 and is_components(t[2]) and p.facts.eqc[t] == C(0):
            return True
    for l in loops(p, is_components):
        if l.full and not l.iter:
            return True
        # a sampled inherited entry that is not a field is not copied
        if l.full and not any(e.kind in ("setitem", "update") for e in l.events()):
            return True
    return False


def size_res(p, t, K, env):
    """t is the size of everything inherited."""
    e = call_event(p, t)
    if e is None or e.name != "get_size" or e.args or e.kw:
        return None
    if e.recv is None:
        return None
    o = c17.own(p, e.recv, K)
    if o == "parent":
        return True
    if o == "own" or e.recv == K:
        for x in p.events:
            if x is e:
                break
            if x.kind == "setitem" and owner_of(p, x.recv, "components") is not None and \
                    c17.own(p, x.args[1], K) != "parent":
                return False
        return True
    return None


def fixed_facts(p, f, env):
    """(has a fixed size?, always present?) as decided on this path (None: not decided)."""
    sz = None
    for n in ("_size", "size"):
        v = is_inst(p, ("attr", f, n), "int")
        sz = v if v is not None else sz
    if sz is None and any(isc(p, ("attr", f, n), NONE) is True for n in ("_size", "size")):
        sz = False
    if sz is None:
        sz = p.facts.atoms.get(("truth", ("attr", f, "has_fixed_size")))
    pr = p.facts.atoms.get(("truth", ("attr", f, "is_always_present")))
    P = ("attr", f, "present")
    c = p.facts.const_of(P)
    if c is not None:
        pr = c[0] == "fn" and c[1].endswith("_always_present")
    else:
        for a, v in p.facts.atoms.items():
            if a[0] in ("is", "eq") and P in a[1:3]:
                o = a[2] if a[1] == P else a[1]
                if o[0] == "fn" and o[1].endswith("_always_present"):
                    pr = v
        for x in p.facts.nec.get(P, ()):
            if x[0] == "fn" and x[1].endswith("_always_present"):
                pr = False
    return sz, pr


def offset(p, l, e, K, env, is_dc=False):
    t = param_of(e, "offset", 3)
    if t is None:
        return "no offset is given"
    if t == NONE:
        return "the offset is never known"
    f = e.recv
    if t[0] == "res":
        s = size_res(p, t, K, env)
        return None if s else (UNKNOWN, f"offset {show(t)}")
    if t[0] != "phi" or t[1] != l.lid:
        parts, c = lin_parts(t)
        phis = [x for x in parts if x[0] == "phi" and x[1] == l.lid]
        if len(phis) == 1 and not is_num_const(t) and len(parts) == 1 and c != 0:
            return f"the offset is shifted by {c}"
        if is_num_const(t):
            return f"the offset is always {show(t)}"
        if not phis and t[0] == "attr" and t[2] == "size_bytes":
            return "the offset is taken from size_bytes"
        return (UNKNOWN, f"offset {show(t)}")
    init = (l.info.get("inits") or {}).get(t[2])
    post = (l.info.get("posts") or {}).get(t[2])
    if init is None or post is None:
        return (UNKNOWN, "counter not followed")
    # start
    if init == C(0):
        gs = [x for x in p.events if x.name == "get_size" and x.kind == "call" and size_res(p, x.res, K, env)]
        if gs:
            if not any(eq_fact(p, x.res, C(0)) for x in gs):
                return "offsets start at 0 although the size of the inherited fields is not known to be 0"
        elif is_dc:
            return "offsets start at 0 although there may be inherited fields"
        if base_seen(p, K) and any(x.kind == "loop_begin" and is_components(x.recv) and c17.own(p, x.recv, K) == "parent"
                                   for x in p.events) and not base_empty(p, K):
            return "offsets start at 0 although there are inherited fields"
    elif init == NONE:
        if not any(isc(p, x.res, NONE) is True for x in p.events if x.name == "get_size"):
            return "the offset is never known"
    else:
        s = size_res(p, init, K, env)
        if s is False:
            return "the starting offset is taken after fields were added"
        if s is None:
            if init[0] == "attr" and init[2] in ("size_bytes", "num_own_fields") or is_num_const(init):
                return f"offsets start at {show(init)}"
            return (UNKNOWN, f"offsets start at {show(init)}")
    # step
    known = isc(p, t, NONE)
    sz, pr = fixed_facts(p, f, env)
    if post == NONE or post == t and known is True:
        if known is True or sz is False or pr is False:
            return None
        if sz is True and pr is True and known is False:
            return "the offset is dropped after a field of fixed size"
        if sz is None and pr is None and known is None:
            return "the offset is dropped after every field"
        return (UNKNOWN, "the reason for dropping the offset is not known")
    d = lin_add(post, t, -1)
    if known is True:
        return f"an unknown offset becomes {show(post)}"
    if d == C(0) and sz is not True:
        return "the offset stays known after a field of variable size or presence" if sz is False or pr is False else \
            "the offset is not advanced past the field"
    if sz is False:
        return "the offset stays known after a field without a fixed size"
    if pr is False:
        return "the offset stays known after a field that may be absent"
    if d not in (("attr", f, "_size"), ("attr", f, "size")):
        parts, c = lin_parts(d)
        if is_num_const(d) or any(x in (("attr", f, "_size"), ("attr", f, "size")) for x in parts):
            return f"the offset grows by {show(d)} instead of the field's size"
        e2 = call_event(p, d)
        if e2 is not None and e2.name == "get_expected_size" and e2.recv == f and sz is True:
            return None if pr is True else "the offset stays known after a field that may be absent"
        return (UNKNOWN, f"the offset grows by {show(d)}")
    if sz is not True:
        return "the offset grows without checking that the field has a fixed size"
    if pr is not True:
        return "the offset stays known after a field that may be absent"
    return None


def stored(p, res):
    if p.kind != "return":
        return False
    S = res.self
    i, o = final_attr(p, S, "index"), final_attr(p, S, "offset")
    if i != res.param("index"):
        return "the index is not stored" if i is None else f"the index stored is {show(i)}"
    if o != res.param("offset"):
        if o is None:
            return "the offset is not stored"
        if same(p, o, res.param("offset")):
            return None
        return f"the offset stored is {show(o)}"
    return None


def direct(p, res, env):
    if p.kind != "return":
        return False
    name, stream = res.param("name"), res.param("stream")
    pos = Pos(p, stream)
    lds = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.name in ("from_stream", "_do_load") and
           passes(e, stream)]
    offs = set()
    for t in list(p.facts.eqc) + list(p.facts.nec):
        for s in subterms(t):
            if s[0] == "attr" and s[2] == "offset" and s[1][0] == "sub" and s[1][2] == name:
                offs.add(s)
    single = [(i, e) for i, e in lds if e.recv[0] == "sub" and e.recv[2] == name and is_components(e.recv[1])]
    if single:
        i, e = single[0]
        O = ("attr", e.recv, "offset")
        if isc(p, O, NONE) is True:
            return "a field without a known offset is read directly"
        if isc(p, O, NONE) is None:
            return "a field is read directly without checking that its offset is known"
        at = pos.at[i]
        if at[0] == ("start",) and at[1] == O:
            pass
        elif at[0] == ("start",) and at[1] == C(0) and tv(p, O) is False:
            pass
        elif at[0] == ("abs",) or at[0] == ("start",):
            return f"the field is read at {show(at[1])} from {'the beginning of the stream' if at[0] == ('abs',) else 'the current position'}"
        else:
            sk = [x for x in p.events[:i] if x.kind == "call" and x.name == "seek" and x.recv == stream]
            if sk and sk[-1].args and sk[-1].args[0] == O and (len(sk[-1].args) < 2 or sk[-1].args[1] == C(0)):
                return "the field is read at its offset from the beginning of the stream"
            return (UNKNOWN, "stream position not known")
        if p.value != e.res:
            return f"returns {show(p.value)} instead of the field's value"
        return None
    if any(isc(p, O, NONE) is False and tv(p, O) is not False for O in offs):
        return "all preceding fields are read although the offset is known" if lds or p.value[0] == "sub" else \
            (UNKNOWN, "read not recognised")
    for i, e in lds:
        l = next((x for x in loops(p, is_components) if x.lid in e.loops and e.recv in x.elem()), None)
        if l is None:
            if e.name in ("from_stream",) and e.recv == res.self:
                return (UNKNOWN, "reads a whole struct")
            return (UNKNOWN, f"{show(e.recv)}.{e.name} not recognised")
        if pos.at[l.begin] != (("start",), C(0)):
            return "the preceding fields are not read from the current position"
    for e in p.events:
        if e.kind == "call" and e.name == "partial_load":
            return None
    if p.value[0] == "sub" and p.value[2] == name:
        return None
    if any(p.value == e.res for i, e in lds):
        i, e = [x for x in lds if x[1].res == p.value][0]
        l = next((x for x in loops(p, is_components) if x.lid in e.loops), None)
        if l is not None and any(eq_fact(p, n, name) for n in [("attr", el, "name") for el in l.elem()] + list(l.key())):
            return None
        return (UNKNOWN, "which field's value is returned is not known")
    e = call_event(p, p.value)
    if e is not None and name in e.args:
        return None
    return (UNKNOWN, f"returns {show(p.value)}")
