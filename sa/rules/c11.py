"""C11: fields are processed in declaration order, each exactly once."""
from .common import *

WHOLE = {"from_stream": "from_stream", "to_stream": "to_stream"}
PART = {"partial_load": "from_stream", "partial_dump": "to_stream"}
RAW = {"from_stream": ("from_stream", "from_bytes", "_do_load"), "to_stream": ("to_stream", "to_bytes", "_do_dump")}


def base_of(t):
    """(components mapping, how it is rearranged) for a loop base."""
    how = None
    t0 = t
    for _ in range(6):
        t = strip_copy(t)
        if t is None or is_components(t):
            return t, how
        if t[0] == "app" and t[1] in ("reversed", "sorted", "set", "frozenset", "filter") and len(t) >= 3:
            how = t[1]
            t = t[-1] if t[1] == "filter" else t[2]
        elif t[0] == "slice" or t[0] == "sub" and t[2][0] == "slice":
            how = "a slice"
            t = t[1]
        elif t[0] == "copy":
            how = t[2] if t[2] not in ("list", "tuple", "dict") else how
            t = t[3]
        else:
            break
    if any(is_components(s) for s in subterms(t0)):
        return None, how
    return None, None


def field_events(p, op):
    """[(event, loop or None)] of field loads/dumps (recv is an element of a loop)."""
    out = []
    for e in p.events:
        if e.kind != "call" or e.name not in RAW[op] or e.recv is None or e.recv == ("p", "self"):
            continue
        if e.recv[0] == "cls" or e.recv[0] == "p":
            continue
        l = None
        for x in loops(p):
            if x.lid in e.loops and e.recv in x.elem():
                l = x
        out.append((e, l))
    return out


def same_loop(l, e):
    return l.lid in e.loops


def check(r):
    env = Env(r.prog)
    once = r.rule("R1 each exactly once", "Every iteration over the struct's fields loads (or dumps) that field exactly once; "
                  "dumping may skip only a field whose value is NOT_PRESENT.")
    full = r.rule("R2 all, in order", "A whole-struct load or dump returns only after one complete loop over the declared "
                  "fields in their own order, and reads or writes no field anywhere else.")
    stop = r.rule("R3 stop after last field", "A partial load or dump goes on to another field only if the one just processed "
                  "is not the named last one, and stops early only right after processing the named field or at a field that "
                  "cannot be processed; in the latter case it stops exactly when no last field was named, and raises otherwise.")
    bad = r.rule("R4 unknown last field", "partial_load() raises ValueError for a last_field that is not a field, before it "
                 "touches the stream.")
    order = r.rule("R5 declaration order", "The field mapping of a struct is filled with the parent's fields first and then "
                   "with the class's own fields in namespace order, each under its own name.")

    for cq in [env.STRUCT] + sorted(r.prog.subclasses.get(env.STRUCT, ())):
        for name, op in list(WHOLE.items()) + list(PART.items()):
            fi = env.func(cq, name)
            res = r.run(fi, cq)
            tag = f"{fi.qual} [{short(cq)}]"
            if res is None:
                r.unknown(once, tag, "not analysable")
                continue
            proc = {id(l.node) for p in res.all for e, l in field_events(p, op) if l is not None and is_components(l.base)}
            n = 0
            for lb in res.lbs:
                l = current_loop(lb)
                m = iteration(lb, l, op, env, proc)
                if m is False:
                    continue
                n += 1
                r.verdict(once, tag, m, lb)
                if name in PART:
                    r.verdict(stop, tag + " goes on", goes_on(lb, l, op, res, proc), lb)
            if not n:
                r.unknown(once, tag, "no loop over the fields found")
            if name in WHOLE:
                r.each(full, tag, res, lambda p: whole(p, op, proc))
            else:
                r.each(full, tag, res, lambda p: nowhere_else(p, op, proc))
                r.each(stop, tag + " stops", res, lambda p: stops(p, op, res, proc), need=2)
                r.each(stop, tag + " on failure", res, lambda p: on_failure(p, op, res, env, proc), paths=res.all, need=2)
            if name == "partial_load":
                r.each(bad, tag, res, lambda p: unknown_last(p, res, env), need=2)

    fi = env.func(env.META, "from_class")
    res = r.run(fi, env.META)
    if res is None:
        r.unknown(order, fi.qual, "not analysable")
    else:
        r.each(order, fi.qual + " parent first", res, parent_first, need=1)
        n = 0
        for lb in res.lbs:
            l = current_loop(lb)
            m = own_order(lb, l, env)
            if m is False:
                continue
            n += 1
            r.verdict(order, fi.qual + " own fields", m, lb)
        if not n:
            r.unknown(order, fi.qual + " own fields", "no loop over the namespace binds fields")


def iteration(lb, l, op, env, proc):
    """One finished iteration of a loop over the components in which some path processes fields."""
    if id(l.node) not in proc:
        return False
    evs = [(e, x) for e, x in field_events(lb, op) if x is not None and x.lid == l.lid]
    if len(evs) > 1:
        return "the field is processed more than once"
    if evs:
        if op == "from_stream" and evs[0][0].res is not None and not stored(lb, evs[0][0]):
            return "the loaded value is thrown away"
        return None
    if any(e.kind == "except" for e in lb.events if l.lid in e.loops):
        return "goes on after a failure"
    if op == "from_stream":
        return "an iteration does not load its field"
    comp = [e for e in lb.events if e.kind == "call" and e.name == "compute_value_for_dump" and l.lid in e.loops
            and e.recv in l.elem()]
    if comp and isc(lb, comp[-1].res, env.NOT_PRESENT) is True:
        return None
    return "an iteration does not dump its field"


def stored(p, ev):
    """Is the loaded value handed to anything, or put anywhere, after the load?"""
    i = p.events.index(ev)
    lp = [l for l in loops(p, is_components) if l.lid in ev.loops]
    names = {n for l in lp for n in [("attr", el, "name") for el in l.elem()] + list(l.key())}
    if any(a[0] == "in" and v is True and a[1] in names and not is_components(a[2]) for a, v in p.facts.atoms.items()):
        return True              # a value given by the caller takes precedence
    for x in p.events[i + 1:]:
        if any(mentions(a, ev.res) for a in list(x.args) + list(x.kw.values()) if isinstance(a, tuple)):
            return True
    return p.kind == "return" and mentions(p.value, ev.res)


def whole(p, op, proc):
    if p.kind != "return":
        return False
    nodes = {}
    for e, l in field_events(p, op):
        if l is None:
            return (UNKNOWN, f"{show(e.recv)}.{e.name} is called outside a loop over the fields")
        if not is_components(l.base):
            b, how = base_of(l.base)
            if how:
                return f"the fields are taken from {how} of the declared ones"
            return (UNKNOWN, f"fields are taken from {show(l.base)}")
        nodes[l.lid] = l
    own = [l for l in loops(p, is_components) if id(l.node) in proc]
    if len(own) != 1:
        return "the fields are not processed at all" if not own else "the fields are processed more than once"
    l = own[0]
    if not l.full:
        return "the loop over the fields can stop before the last one"
    return None


def nowhere_else(p, op, proc):
    if p.kind != "return":
        return False
    for e, l in field_events(p, op):
        if l is None:
            return (UNKNOWN, f"{show(e.recv)}.{e.name} is called outside a loop over the fields")
        if not is_components(l.base):
            b, how = base_of(l.base)
            if how:
                return f"the fields are taken from {how} of the declared ones"
            return (UNKNOWN, f"fields are taken from {show(l.base)}")
    own = [l for l in loops(p, is_components) if id(l.node) in proc]
    if len(own) > 1:
        return "the fields are processed more than once"
    return None


def name_is_last(p, l, last):
    """Does the path know whether the current field is the named last one?"""
    if isc(p, last, NONE) is True:
        if any(isc(p, n, NONE) is True for n in [("attr", el, "name") for el in l.elem()] + list(l.key())):
            return True               # no field is named None: not a real path
        return False
    for n in [("attr", el, "name") for el in l.elem()] + list(l.key()):
        v = eq_fact(p, n, last)
        if v is not None:
            return v
    return None


def goes_on(lb, l, op, res, proc):
    if id(l.node) not in proc:
        return None
    last = res.param("last_field")
    v = name_is_last(lb, l, last)
    if v is False:
        return None
    return "goes on to the next field after the named last one" if v is True else \
        "goes on to the next field without checking whether this was the last one"


def stops(p, op, res, proc):
    if p.kind != "return":
        return False
    own = [l for l in loops(p, is_components) if id(l.node) in proc]
    if not own:
        return False
    l = own[0]
    if l.full:
        return None
    last = res.param("last_field")
    evs = [e for e, x in field_events(p, op) if x is not None and x.lid == l.lid]
    comp = [e for e in p.events if e.kind == "call" and e.name == "compute_value_for_dump" and l.lid in e.loops and
            e.recv in l.elem()]
    failed = [e for e in p.events if e.kind == "except" and l.lid in e.loops and e.args and
              exc_origin(e.args[0])[1] in [x.res for x in evs + comp]]
    if failed:
        return None          # judged by on_failure
    v = name_is_last(p, l, last)
    if v is True:
        if evs and op == "from_stream" and evs[-1].res is not None and not stored(p, evs[-1]):
            return "the value of the named last field is thrown away"
        if evs or op == "to_stream" and comp:
            return None
        return "stops before processing the named last field"
    return "stops early at a field that is not the named last one" if v is False else \
        "stops early without checking that this was the named last field"


def on_failure(p, op, res, env, proc):
    """Paths on which a field could not be processed."""
    last = res.param("last_field")
    for l in loops(p, is_components):
        if id(l.node) not in proc:
            continue
        src = [e for e, x in field_events(p, op) if x is not None and x.lid == l.lid]
        if op == "to_stream":
            src = [e for e in p.events if e.kind == "call" and e.name == "compute_value_for_dump" and l.lid in e.loops
                   and e.recv in l.elem()]
        ex = [e for e in p.events if e.kind == "except" and l.lid in e.loops and e.args and
              exc_origin(e.args[0])[1] in [x.res for x in src]]
        if not ex:
            continue
        if p.kind == "loopback":
            if current_loop(p).lid != l.lid:
                continue
            return "goes on with the next field after one could not be processed"
        named = isc(p, last, NONE)
        if p.kind == "return":
            if named is True:
                return None
            return "returns normally although the named last field was not reached"
        if p.kind == "raise":
            if named is True:
                return "raises although no last field was named"
            return None
    return False


def unknown_last(p, res, env):
    last = res.param("last_field")
    st = res.param("stream")
    known = None
    for a, v in p.facts.atoms.items():
        if a[0] == "in" and a[1] == last and is_components(a[2]):
            known = v
    none = isc(p, last, NONE)
    if known is False and none is not True:
        if p.kind == "raise" and p.value[0] == "exc" and env.exc_is(p.value[2], "ValueError"):
            return None if not stream_events(p, st) and not any(passes(e, st) for e in p.events if e.kind == "call") \
                else "touches the stream before rejecting the name"
        return "an unknown last field is not rejected with ValueError"
    if none is True or known is True:
        if p.kind == "raise" and exc_origin(p.value)[1] is None and p.value[0] == "exc" and \
                p.value[2] == "ValueError":
            return "rejects a valid last field"
        return None
    if p.kind == "raise" and exc_origin(p.value)[1] is None:
        return None
    if stream_events(p, st) or any(passes(e, st) for e in p.events if e.kind == "call"):
        return "reads from the stream without checking the name of the last field"
    return None


def stores(p, pred):
    return [(i, e) for i, e in enumerate(p.events) if e.kind in ("setitem", "update") and e.recv is not None and pred(e.recv)]


def own_components(p):
    """Term(s) of the new metadata's components mapping."""
    out = set()
    v = p.value
    if p.kind == "return" and v is not None:
        c = p.state.heap.get((v, "components"))
        if c is not None:
            out.add(c)
    for key, c in p.state.heap.items():
        if len(key) == 2 and key[1] == "components" and key[0][0] == "new":
            out.add(c)
    return out


def parent_first(p):
    if p.kind != "return":
        return False
    comps = own_components(p)
    par, own = [], []
    for i, e in stores(p, lambda t: t in comps or is_components(t) and t[1][0] == "new"):
        from_parent = any(is_components(s) and s not in comps for a in e.args for s in subterms(a))
        (par if from_parent else own).append(i)
    for c in comps:
        if c[0] == "copy" and is_components(c[3]):
            par.append(-1)
    if not par:
        return False
    if own and max(par) > min(own):
        return "a parent field is stored after one of the class's own fields"
    for l in loops(p):
        if is_components(l.base) and l.base not in comps and not l.full:
            return "not all parent fields are taken over"
    return None


def own_order(lb, l, env):
    binds = [e for e in lb.events if e.kind == "call" and e.name == "bind_to_container" and l.lid in e.loops]
    if not binds:
        return False
    if l.base is None or not any(s[0] == "app" and s[1] == "vars" or s[0] == "attr" and s[2] in ("__dict__",)
                                  or s[0] == "p" for s in subterms(l.base)):
        return (UNKNOWN, f"own fields are taken from {show(l.base)}")
    b = l.base
    for s in subterms(b):
        if s[0] == "app" and s[1] in ("reversed", "sorted", "set", "frozenset"):
            return f"own fields are taken in {s[1]} order"
    comps = own_components(lb)
    keys = set(l.key())
    for e in binds:
        nm = arg(e, "name", 1)
        if e.recv not in l.elem():
            return (UNKNOWN, f"binds {show(e.recv)}")
        if nm not in keys:
            return f"a field is bound under the name {show(nm)}"
        st = [x for x in lb.events if x.kind == "setitem" and l.lid in x.loops and x.args[1] == e.recv]
        if not st:
            return "a field of the class is bound but not added to the struct's fields"
        if not all(x.args[0] in keys or x.args[0] == ("attr", e.recv, "name") for x in st):
            return "a field is stored under another name"
    return None
