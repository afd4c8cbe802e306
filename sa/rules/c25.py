"""C25: caller overrides win over loaded data and are never modified."""
from .common import *
from .c16 import MUTATIONS

TECHNIQUE = "path-sensitive dataflow and alias tracking of the override mapping through loading, with per-iteration effects of the field loop"

CHANGES = MUTATIONS + ("extend", "mutcall", "setdefault")


def check(r):
    env = Env(r.prog)
    S = env.STRUCT
    cp = r.rule("R1 copied", "What fields, validators and the new struct receive of the overrides is a deep copy: the mapping given "
                "by the caller and the objects in it are only ever copied or tested.")
    read = r.rule("R2 still read", "Every iteration over the fields reads the field from the stream, whether it is overridden "
                  "or not.")
    seen = r.rule("R3 seen", "The mapping of known values every field receives holds all overrides from the start.")
    win = r.rule("R4 override wins", "A loaded value is stored only under a name that has no value yet, nothing is removed or "
                 "replaced afterwards, and the struct is built from exactly that mapping.")
    pas = r.rule("R5 handed on", "Loading from bytes hands the caller's overrides to the stream loader.")

    entries = []
    for q, f in sorted(r.prog.funcs.items()):
        if "init_kwargs" not in f.all_params() or f.cls is None:
            continue
        for cq in [f.cls.qual] + sorted(r.prog.subclasses.get(f.cls.qual, ())):
            if r.prog.find_method(cq, f.name) is f:
                entries.append((f, cq))
                break
    for name in ("from_stream", "from_bytes"):
        if not any(f.name == name for f, _ in entries):
            raise AnalysisBroken(f"Struct.{name} has no init_kwargs parameter")
    for f, cq in entries:
        res = r.run(f, cq)
        if res is None:
            r.unknown(cp, f.qual, "not analysable")
            continue
        I = ("p", "init_kwargs")
        r.each(cp, res.entry, res, lambda p: untouched(p, I), paths=res.all)
        if f.name != "from_stream":
            if not f.name.startswith("_"):
                r.each(pas, res.entry, res, lambda p: handed(p, I), need=1)
            continue
        r.each(read, res.entry, res, lambda p: reads(p), paths=res.lbs, need=1)
        r.each(seen, res.entry, res, lambda p: sees(p, I), paths=res.all, need=2)
        r.each(cp, f"{res.entry} copy", res, lambda p: copied(p, I), paths=res.all, need=1)
        r.each(win, f"{res.entry} stores", res, lambda p: wins(p, I), paths=res.all, need=1)
        r.each(win, f"{res.entry} builds", res, lambda p: builds(p), need=1)


def overrides(p, I):
    """May there be overrides on this path?"""
    if isc(p, I, NONE) is True or tv(p, I) is False:
        return False
    n = fact_lin(p, ("app", "len", I), "==", C(0))
    return n is not True


def part_of(t, I):
    """t is I or an object inside I, not a copy."""
    while t is not None:
        if t == I:
            return True
        if t[0] in ("elem", "sub", "attr") or t[0] == "view":
            t = t[2] if t[0] == "view" else t[1]
        elif t[0] == "copy" and t[2] != "deepcopy":
            t = t[3]
        else:
            return False
    return False


def untouched(p, I):
    hit = False
    for e in p.events:
        if e.kind in CHANGES and e.recv is not None:
            if e.recv == I or e.recv[0] in ("elem", "sub") and part_of(e.recv, I):
                return f"the caller's overrides are changed ({e.kind})"
        if e.kind == "call" and e.recv is not None and (e.recv == I) and e.name in (
                "pop", "popitem", "clear", "update", "setdefault", "__setitem__", "__delitem__"):
            return f"the caller's overrides are changed ({e.name})"
        if e.kind in ("setattr", "setglobal") and any(part_of(a, I) for a in e.args):
            return "the caller's overrides are kept"
        if e.kind in ("call", "construct") and e.name != "from_stream":
            if any(a == I for a in list(e.args) + list(e.kw.values())):
                if e.kind == "construct" or e.kw.get("**") == I:
                    return "the caller's own mapping of overrides becomes part of the struct"
                return UNKNOWN, f"the overrides are given to {e.name}"
        hit = True
    return None if hit else False


def field_loads(p):
    out = []
    for l in loops(p, is_components):
        for e in l.events():
            if e.kind == "call" and e.name == "from_stream" and e.recv in l.elem():
                out.append((l, e))
    return out


def is_load_loop(p, l):
    return any(x.lid == l.lid for x, _ in field_loads(p))


def reads(p):
    l = current_loop(p)
    if l.base is None or not is_components(l.base):
        return False
    if any(x.lid == l.lid for x, _ in field_loads(p)):
        return None
    # is this the loop that loads the fields?
    node = l.node
    if not any(e.kind == "construct" for e in p.events):
        return "an iteration over the fields does not read the field"
    return False


def contents(p, M, I, upto, depth=0):
    """What M holds of the overrides before event `upto`: 'deep', 'shared', 'none', 'some' or None (not modelled)."""
    if depth > 6 or M is None:
        return None
    if M == I:
        return "shared"
    if M[0] == "copy":
        got = contents(p, M[3], I, upto, depth + 1)
        if M[2] == "deepcopy" and got == "shared":
            got = "deep"
        for e in p.events:
            if e is upto:
                break
            if e.recv == M and e.kind in ("update", "dictupdate") and e.args:
                c = contents(p, e.args[0], I, e, depth + 1)
                if c == "shared" or c == "deep":
                    got = c
        return got
    if M[0] == "app" and M[1] == "dict" and len(M) == 3:
        return contents(p, M[2], I, upto, depth + 1)
    if M[0] == "kwd":
        return None
    if M[0] == "boolop" or M[0] in ("or", "and"):
        return None
    if M[0] == "new":
        got, known = "none", False
        for e in p.events:
            if e is upto:
                break
            if e.res == M and e.kind in ("alloc", "construct"):
                known = True
                for a in list(e.args) + list(e.kw.values()):
                    c = contents(p, a, I, upto, depth + 1)
                    if c is None:
                        known = False
                    elif c != "none":
                        got = c
            if e.recv != M:
                continue
            if e.kind in ("update", "dictupdate") and e.args:
                c = contents(p, e.args[0], I, upto, depth + 1)
                if c is None:
                    known = False
                elif c != "none":
                    got = c
            elif e.kind == "setitem":
                for l in loops(p, lambda b: over(b, I) is not None):
                    if l.lid in e.loops:
                        base = over(l.base, I)
                        v = e.args[1]
                        els = l.elem() | {("sub", I, k) for k in l.key()}
                        if e.args[0] not in l.key():
                            known = False
                        elif v in els:
                            got = base
                        elif v[0] == "copy" and v[3] in els:
                            got = "deep" if v[2] == "deepcopy" or base == "deep" else "shared"
                        else:
                            known = False
        # a loop over the overrides that ran no iteration on this path
        for l in loops(p, lambda b: over(b, I) is not None):
            if not l.iter and got == "none":
                return "empty"
        return got if known else None
    return None


def over(b, I):
    """Is b (the base of a loop) the overrides ('shared') or a deep copy of them ('deep')?"""
    b = strip_copy(b)
    if b == I:
        return "shared"
    if b is not None and b[0] == "copy":
        i = over(b[3], I)
        return "deep" if i and b[2] == "deepcopy" else i
    return None


def sees(p, I):
    if not overrides(p, I):
        return False
    # only the first field's mapping is checked: C10 shows that it stays the same object
    for l, e in field_loads(p):
        M = arg(e, "loaded_fields", 2)
        c = contents(p, M, I, e)
        if c in ("deep", "shared", "empty"):
            return None
        if c == "none":
            return "fields are read without the overrides among the known values"
        return UNKNOWN, f"cannot tell whether {show(M) if M else 'no mapping'} holds the overrides"
    return False


def copied(p, I):
    if not overrides(p, I):
        return False
    hit = False
    for l, e in field_loads(p):
        M = arg(e, "loaded_fields", 2)
        c = contents(p, M, I, e)
        if c == "shared":
            return "fields receive the caller's own objects instead of deep copies"
        hit = hit or c == "deep"
    for e in p.events:
        if e.kind == "construct":
            for a in list(e.args) + list(e.kw.values()):
                c = contents(p, a, I, e)
                if c == "shared":
                    return "the struct is built from the caller's own objects instead of deep copies"
                hit = hit or c == "deep"
        if e.kind in ("setitem", "setattr") and part_of(e.args[-1], I) and not (
                e.recv is not None and e.recv[0] == "new"):
            return "a caller's object is stored in the struct without being copied"
    return None if hit else False


def mapping_of(p):
    fl = field_loads(p)
    return (fl[0][0], arg(fl[0][1], "loaded_fields", 2)) if fl else (None, None)


def wins(p, I):
    l, M = mapping_of(p)
    if M is None or not overrides(p, I):
        return False
    hit = False
    started = False
    for e in p.events:
        if e.kind == "loop_begin" and e.extra == l.lid:
            started = True
        if not started or e.recv != M:
            continue
        hit = True
        if e.kind == "setitem":
            v = e.facts.atoms.get(("in", e.args[0], M)) if e.facts is not None else None
            w = e.facts.atoms.get(("in", e.args[0], I)) if e.facts is not None else None
            if v is False or w is False:
                continue
            if v is None and w is None and e.loops == () and e.args[0][0] == "c":
                continue
            return f"the value loaded for a field replaces the override"
        if e.kind in ("delitem", "mutcall") or e.kind == "call" and e.name in ("pop", "popitem", "clear"):
            return "an override is removed"
        if e.kind in ("update", "dictupdate"):
            c = contents(p, e.args[0], I, e) if e.args else None
            if c in ("deep", "shared"):
                continue
            if e.args and not e.args[0][0] == "new":
                return UNKNOWN, "update with values that are not followed"
            return "loaded values replace the overrides"
    return None if hit else False


def builds(p):
    l, M = mapping_of(p)
    if M is None or p.kind != "return":
        return False
    e = call_event(p, p.value)
    if e is None or e.kind != "construct":
        return UNKNOWN, f"returns {show(p.value)}"
    src = e.kw.get("**")
    if src is None:
        return UNKNOWN, "built without the mapping"
    for _ in range(4):
        if src == M:
            break
        if src[0] == "copy":
            src = src[3]
        elif src[0] == "app" and src[1] == "dict" and len(src) == 3:
            src = src[2]
    if src != M:
        a = [x for x in p.events if x.res == src and x.kind == "alloc"]
        if src[0] == "new" and a and not a[0].args and not any(
                x.kind in ("update", "dictupdate") and x.args and x.args[0] == M for x in p.events if x.recv == src):
            return "the struct is built from a mapping that does not hold the overrides"
        return UNKNOWN, f"built from {show(src)}"
    i = p.events.index(e)
    vals = {p.value, ("attr", p.value, "__values__")}
    for x in p.events[i + 1:]:
        if x.recv in vals and x.kind in ("setitem", "update", "setattr") and x.name != "__values__":
            return "a value of the new struct is replaced after it was built"
    return None


def handed(p, I):
    if p.kind != "return":
        return False
    for e in p.events:
        if e.kind == "call" and e.name == "from_stream":
            a = arg(e, "init_kwargs", 2)
            if a == I or a is not None and a[0] == "copy" and a[3] == I:
                return None
            if not overrides(p, I):
                return None if a in (None, NONE) else (UNKNOWN, f"hands on {show(a)}")
            return f"the overrides are not handed on ({show(a) if a else 'nothing'} is)"
    return UNKNOWN, "no from_stream call"
