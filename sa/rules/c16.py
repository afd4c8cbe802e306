"""C16: names that are not fields are always refused."""
from .common import *
from .c23 import built_from

TECHNIQUE = "path-sensitive dataflow: dominance of the membership test over every effect of name-based accesses"

MUTATIONS = ("setattr", "delattr", "setitem", "delitem", "update", "append", "setslice", "setglobal")


def member(p, name, cont=None):
    """Truth of `name in <components>` on this path (None: not decided)."""
    for a, v in p.facts.atoms.items():
        if a[0] == "in" and a[1] == name and is_components(a[2]):
            return v
    return None


def keyset(t):
    """The container whose keys the set-like term t consists of."""
    for _ in range(6):
        if t is None:
            return None
        s = strip_copy(t)
        if s[0] == "copy" and s[2] in ("set", "frozenset", "dict", "sorted"):
            t = s[3]
        elif s[0] == "app" and s[1] in ("set", "frozenset", "sorted", "dict") and len(s) == 3:
            t = s[2]
        else:
            return s
    return t


def is_values(t, V):
    k = keyset(t)
    return k == V or k is not None and k[0] == "kwd" and k[1] == () and k[2] == V


def difference(t, V, p=None):
    """Is t the set of names in V that are not components?"""
    t = keyset(t)
    if t is None:
        return False
    if t[0] == "lin" and t[2] == 0 and len(t[1]) == 2:
        pos = [x for x, k in t[1] if k == 1]
        neg = [x for x, k in t[1] if k == -1]
        return len(pos) == len(neg) == 1 and is_values(pos[0], V) and is_components(keyset(neg[0]))
    if t[0] == "op" and t[1] == "-":
        return is_values(t[2], V) and is_components(keyset(t[3]))
    if t[0] == "res" and p is not None:
        e = call_event(p, t)
        return e is not None and e.name == "difference" and is_values(e.recv, V) and len(e.args) == 1 and \
            is_components(keyset(e.args[0]))
    return False


def check(r):
    env = Env(r.prog)
    ctor = r.rule("R1 constructor", "A struct constructor that returns has established that no keyword is outside the struct's "
                  "fields; otherwise UnexpectedValueError is raised with exactly the keywords that are not fields, before "
                  "anything is stored.")
    names = r.rule("R2 names reported", "UnexpectedValueError records every name it is given.")
    item = r.rule("R3 item access", "Item access, assignment and deletion reach the field only after the name was found among "
                  "the struct's fields; otherwise KeyError is raised and nothing was changed.")
    fld = r.rule("R4 single field", "get_field() touches the stream only after the name was found among the struct's fields; "
                 "otherwise it raises ValueError.")
    prox = r.rule("R5 mapping wrappers", "The mapping wrappers forward item access, assignment and deletion to the struct with "
                  "the same name.")
    full = r.rule("R6 mappings", "A mapping given in place of a struct reaches the struct's constructor with every name it "
                  "has, so that unknown names are refused there.")
    UVE = env.err("UnexpectedValueError")
    S = env.STRUCT

    res = r.run(env.func(S, "__init__"), S)
    if res is None:
        r.unknown(ctor, "Struct.__init__", "not analysable")
    else:
        kw = res.fi.node.args.kwarg
        V = ("p", kw.arg) if kw else None
        r.each(ctor, res.entry, res, lambda p: constructed(p, V, env, UVE, res), need=2)
        r.verdict(ctor, f"{res.entry} refuses", None if any(exc_origin(p.value)[0] == UVE for p in res.raises())
                  else "UnexpectedValueError is never raised")
        for lb in res.lbs:
            l = current_loop(lb)
            if l.base is not None and is_values(l.base, V):
                bad = any(lb.facts.atoms.get(("in", el, c)) is False for el in l.elem() | l.key()
                          for c in {a[2] for a in lb.facts.atoms if a[0] == "in" and is_components(a[2])})
                if bad:
                    r.verdict(ctor, f"{res.entry} each keyword", None if any(
                        e.kind in ("append", "setitem", "update") for e in l.events()) else "an unknown keyword is skipped", lb)

    fi = env.prog.find_method(UVE, "__init__")
    res2 = r.run(fi, UVE)
    if res2 is not None:
        nm = res2.param("name")
        r.each(names, res2.entry, res2, lambda p: dropped_by(p, final_attr(p, res2.self, "names"), "name") if derives(
            p, final_attr(p, res2.self, "names") or NONE, nm) else "the names are not recorded", paths=res2.returns())

    for m, kind in (("__getitem__", "get"), ("__setitem__", "set"), ("__delitem__", "del")):
        fi = env.func(S, m)
        res3 = r.run(fi, S)
        if res3 is None:
            r.unknown(item, fi.qual, "not analysable")
            continue
        r.each(item, res3.entry, res3, lambda p: access(p, res3, kind, env), need=2)

    fi = env.func(S, "get_field")
    res4 = r.run(fi, S)
    if res4 is None:
        r.unknown(fld, fi.qual, "not analysable")
    else:
        nm = res4.param("name")
        st = res4.param("stream")
        r.each(fld, res4.entry, res4, lambda p: single(p, nm, st, env), need=2)

    for cls in ("Nested", "Union"):
        cq = env.cls("binobj.fields.containers", cls)
        fi = env.prog.find_method(cq, "_do_dump")
        res6 = r.run(fi, cq) if fi is not None else None
        if res6 is None:
            r.unknown(full, f"{cls}._do_dump", "not analysable")
            continue
        r.each(full, res6.entry, res6, lambda p: all_names(p, res6), paths=res6.all)

    for cls, ms in (("StructMappingProxy", ("__getitem__",)), ("MutableStructMappingProxy", ("__getitem__", "__setitem__",
                                                                                            "__delitem__"))):
        cq = env.cls("binobj.structures", cls)
        for m in ms:
            fi = env.prog.find_method(cq, m)
            if fi is None:
                r.bad(prox, f"{cls}.{m}", "not defined")
                continue
            res5 = r.run(fi, cq)
            r.each(prox, f"{cls}.{m}", res5, lambda p: forwarded(p, res5, m), paths=res5.returns() if res5 else None)


def all_names(p, res):
    data = res.p(2)
    hit = False
    for e in p.events:
        if e.kind not in ("construct", "call"):
            continue
        for k, v in e.kw.items():
            if not str(k).startswith("**"):
                continue
            if built_from(p, e, data) == "partial":
                return "names of the mapping are left out before the struct is built"
            hit = True
    return None if hit else False


def constructed(p, V, env, UVE, res):
    if p.kind == "raise":
        n, o = exc_origin(p.value)
        if n != UVE:
            return False
        for e in p.events:
            if e.kind == "setattr" and e.name == "__values__":
                return "the values are stored before the names are checked"
        for e in p.events:
            if e.kind == "newexc" and e.res == p.value:
                t = e.kw.get("name", e.args[1] if len(e.args) > 1 else None)
                if t is None:
                    return "the error does not name the keywords"
                if difference(t, V, p):
                    return None
                k = keyset(t)
                if is_values(t, V) or is_components(k):
                    return "the error does not name the offending keywords"
                if k[0] in ("lin", "op"):
                    return f"the error names {show(t)}"
                if k[0] == "new":
                    return filled_with_offenders(p, k, V)
                if k[0] in ("elem", "key"):
                    return "only one of the offending keywords is named"
                if k[0] == "app" and k[1] in ("min", "max") and len(k) == 3 and difference(k[2], V, p) and \
                        fact_lin(p, ("app", "len", keyset(k[2])), "==", C(1)) is not True:
                    return "only one of the offending keywords is named"
                return (UNKNOWN, f"the error names {show(t)}")
        return (UNKNOWN, "error not built here")
    if any(l.iter and l.full for l in loops(p, lambda b: difference(b, V, p))):
        return "a keyword that is not a field is accepted under some condition"
    for t in candidates(p):
        if difference(t, V, p) and (fact_lin(p, ("app", "len", keyset(t)), "==", C(0)) or tv(p, t) is False or
                                    tv(p, keyset(t)) is False):
            return None
    for a, v in p.facts.atoms.items():
        if a[0] in ("<=", "issubset") and len(a) == 3 and v and is_values(a[1], V) and is_components(keyset(a[2])):
            return None
    for l in loops(p, lambda b: is_values(b, V)):
        if l.full and (not l.iter or any(member(p, el) for el in l.elem() | l.key())):
            return None
        if l.full and l.iter:
            return (UNKNOWN, "the membership of the keywords is not decided")
    if fact_lin(p, ("app", "len", V), "==", C(0)):
        return None
    if any(mentions(t, V) and any(is_components(s) for s in subterms(t)) for t in candidates(p)):
        inter = [t for t in candidates(p) if mentions(t, V) and any(is_components(s) for s in subterms(t))]
        if all(t[0] in ("lin", "app") for t in inter):
            return f"keywords that are not fields can be accepted (only {show(inter[0])} is tested)"
        return (UNKNOWN, "membership test not recognised")
    return "keywords that are not fields are accepted"


def candidates(p):
    """Terms whose truth or length the path has decided."""
    out = set()
    for t in list(p.facts.eqc) + list(p.facts.nec):
        out |= set(subterms(t))
    for a in p.facts.atoms:
        for x in a[1:]:
            if isinstance(x, tuple):
                out |= set(subterms(x))
    for key in p.facts.ivl:
        for t, k in key:
            out |= set(subterms(t))
    return out


def filled_with_offenders(p, k, V):
    got = [e for e in p.events if e.kind in ("append", "setitem", "update") and e.recv == k]
    if not got:
        return (UNKNOWN, "the offending keywords are collected in a way not recognised")
    for e in got:
        t = e.args[0]
        if not any(l.lid in e.loops and (t in l.elem() or t in l.key()) for l in loops(p, lambda b: is_values(b, V))):
            return (UNKNOWN, f"{show(t)} is collected")
        if member(p, t) is not False:
            return "keywords that are fields are reported as offending"
    return None


def access(p, res, kind, env):
    name = res.p(1)
    m = member(p, name)
    if p.kind == "raise":
        n, o = exc_origin(p.value)
        if o is not None:
            return False
        if m is False or m is None:
            if not env.exc_is(n, "KeyError"):
                return f"an unknown name raises {short(n)}"
            ch = [e for e in p.events if e.kind in MUTATIONS]
            return f"{ch[0].kind} happens although the name is unknown" if ch else None
        return False if kind != "get" else None
    if m is not True:
        return "a name that is not a field is not refused"
    S = res.self
    if kind == "get":
        e = call_event(p, p.value)
        if e is not None and e.name in ("getattr", "__getattribute__", "__get__") and (name in e.args or e.name == "__get__"):
            return None
        if e is not None and e.recv is not None and e.recv != S and not mentions(e.recv, name) and attr_named(
                e.recv, "__values__"):
            return "an item is read past the field"
        if any(s == name for s in subterms(p.value)):
            return None
        return (UNKNOWN, f"returns {show(p.value)}")
    muts = [e for e in p.events if e.kind in MUTATIONS]
    if kind == "set":
        m = item_assigned(p, S, name, res.p(2))
        if m is None or isinstance(m, str):
            return m
        if any(e.kind == "setattr" and (e.name == name or name in e.args or e.extra == name) or
               e.kind == "call" and e.name in ("__setattr__", "__set__", "setattr") for e in muts + p.events):
            return None
        if any(e.kind == "setitem" and e.args and e.args[0] == name for e in muts):
            return "the value is stored without going through the field"
        return (UNKNOWN, "assignment not recognised")
    for e in muts:
        if e.kind == "delitem" and e.args and e.args[0] != name:
            return f"another item ({show(e.args[0])}) is deleted"
    if not any(e.kind in ("delitem", "delattr", "update") for e in muts) and not any(
            a[0] == "in" and a[1] == name and v is False for a, v in p.facts.atoms.items()):
        return "nothing is deleted"
    return None


def single(p, name, stream, env):
    m = member(p, name)
    evs = [e for e in p.events if e.kind == "call" and (e.recv == stream or passes(e, stream)) and not harmless(p, e)]
    if m is False:
        if p.kind != "raise":
            return "an unknown field name is not refused"
        n, o = exc_origin(p.value)
        if o is not None or not env.exc_is(n, "ValueError"):
            return f"an unknown field name raises {short(n)}"
        return "the stream is used before the name is checked" if evs else None
    if m is None:
        return "the name is not checked against the fields" if evs or p.kind == "return" else False
    for e in evs:
        if e.facts is not None and not any(a[0] == "in" and a[1] == name and v and is_components(a[2])
                                           for a, v in e.facts.atoms.items()):
            return "the stream is used before the name is checked"
    return None


def harmless(p, e):
    """Asking a stream about itself, or putting it back to where it just said it is."""
    if e.name in ("tell", "seekable", "readable"):
        return True
    if e.name == "seek" and len(e.args) == 1:
        o = call_event(p, e.args[0])
        return o is not None and o.name == "tell" and o.recv == e.recv
    return False


def forwarded(p, res, m):
    name = res.p(1)
    st = ("attr", res.self, "struct")
    for e in p.events:
        at = e.recv is not None and (e.recv == st or e.recv[0] == "attr" and e.recv[1] == st)
        keys = list(e.args[:2]) + [e.name, e.extra]
        if at and (e.kind in ("setitem", "delitem", "setattr", "delattr") or e.kind == "call" and e.name in (
                m, "setattr", "delattr", "__setattr__", "__delattr__", "pop")):
            if not any(k == name for k in keys):
                return f"another item ({', '.join(map(show, e.args))}) is accessed"
            if m == "__setitem__" and res.p(2) not in e.args:
                return f"another value ({', '.join(map(show, e.args))}) is stored"
            return None
    if m == "__getitem__":
        for e in p.events:
            if e.kind == "call" and e.name == "getattr" and e.res == p.value and e.recv == st:
                return None if e.args[:1] == (name,) else f"another item ({', '.join(map(show, e.args))}) is read"
    if m == "__delitem__" and any(a[0] == "in" and a[1] == name and v is False and a[2] == ("attr", st, "__values__")
                                  for a, v in p.facts.atoms.items()):
        return None
    if m == "__getitem__" and any(s == ("sub", st, name) for s in subterms(p.value)):
        return None
    if any(mentions(x, st) for e in p.events for x in list(e.args) + ([e.recv] if e.recv else [])):
        return (UNKNOWN, "forwarding not recognised")
    return f"{m} is not forwarded to the struct"
