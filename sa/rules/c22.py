"""C22: array element counts are enforced exactly."""
from .common import *

TECHNIQUE = "path-sensitive dataflow with linear facts: on every completing path the number of elements written must be entailed equal to the declared count"


def check(r):
    env = Env(r.prog)
    exact = r.rule("R1 exact", "With a declared count, dumping completes only on paths where the number of elements supplied "
                   "is entailed to equal that count.")
    every = r.rule("R2 every element", "Each iteration over the data writes exactly its element, once, through the "
                   "component's complete dump; without a count every element is written.")
    err = r.rule("R3 error", "ArraySizeError is raised only where the number of supplied elements is entailed to differ from "
                 "the declared count, and a mismatch is never reported as another error.")
    load = r.rule("R4 loading", "Elements are loaded one at a time, each added to the result, for as long as the halt check "
                  "on the elements loaded so far is false.")
    halt = r.rule("R5 halting", "The default halt check is true exactly when the count is at most the number of elements "
                  "loaded, or without a count when the stream has no byte left; it leaves the position unchanged.")
    cnt = r.rule("R6 count", "The declared count is None, the constant, or the sibling value under the given field's name; "
                 "FieldReferenceError is raised exactly when that sibling is missing.")
    cfg = r.rule("R7 configuration", "The halt check used is the one given, or else the default; the count is the one given.")
    A = env.field("Array")
    for cq in [A] + sorted(r.prog.subclasses.get(A, ())):
        fi = env.func(cq, "_do_dump")
        tag = f"{fi.qual} [{short(cq)}]"
        res = r.run(fi, cq)
        r.each(exact, tag, res, lambda p: completes(p, res), need=3)
        r.each(err, tag, res, lambda p: mismatch(p, res, env), need=2)
        if res is None:
            r.unknown(every, tag, "not analysable")
        else:
            r.each(every, tag, res, lambda p: writes(p, res), paths=res.all, need=2)
        fi = env.func(cq, "_do_load")
        tag = f"{fi.qual} [{short(cq)}]"
        res2 = r.run(fi, cq)
        r.each(load, tag, res2, lambda p: loads(p, res2, env), paths=res2.all if res2 else None, need=3)
        fi = env.func(cq, "should_halt")
        tag = f"{fi.qual} [{short(cq)}]"
        res3 = r.run(fi, cq)
        r.each(halt, tag, res3, lambda p: halts(p, res3, static(fi)), need=4)
        fi = env.func(cq, "get_final_element_count")
        tag = f"{fi.qual} [{short(cq)}]"
        res4 = r.run(fi, cq)
        r.each(cnt, tag, res4, lambda p: count(p, res4, env), need=4)
        fi = env.func(cq, "__init__")
        res5 = r.run(fi, cq)
        r.each(cfg, f"{fi.qual} [{short(cq)}]", res5, lambda p: configured(p, res5))


def static(fi):
    import ast
    return any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in fi.node.decorator_list)


# ------------------------------------------------------------------ the declared count
def declared(p, S, vals):
    """'none', a term for the declared count, or None when the path did not settle it."""
    K = ("attr", S, "count")
    if isc(p, K, NONE) is True:
        return "none"
    kinds = {c: p.facts.atoms.get(("isinst", K, c)) for c in ("int", "str")}
    fld = None
    for a, v in p.facts.atoms.items():
        if a[0] == "isinst" and a[1] == K and str(a[2]).endswith(".Field"):
            fld = v
    byname, direct = ("sub", vals, ("attr", K, "name")), ("sub", vals, K)
    if kinds["int"] is True:
        return K
    if fld is True:
        return byname
    if kinds["str"] is True:
        return direct
    if isc(p, K, NONE) is False:
        n = [x for x, v in ((K, kinds["int"]), (byname, fld), (direct, kinds["str"])) if v is not False]
        if len(n) == 1:
            return n[0]
    return None


def unwrap(t):
    t = strip_copy(t)
    while t is not None and t[0] == "app" and t[1] in ("enumerate", "tuple", "list", "iter") and len(t) >= 3:
        t = strip_copy(t[2])
    return t


def data_loops(p, data):
    out = []
    for l in loops(p):
        if l.base is not None and (l.base == data or unwrap(l.base) == data or mentions(l.base, data)):
            out.append(l)
    return out


def taken(p, l, res):
    """Terms equal to the number of elements taken from the loop's iterable so far on this path."""
    out = []
    if l.how == "exhausted":
        out += [("app", "len", l.base)]
        d = unwrap(l.base)
        if d is not None and d != l.base:
            out += [("app", "len", d)]
    if not l.iter:
        out.append(C(0))
        return out
    out.append(lin_add(("idx", l.base, l.lid), C(1)))
    out.append(lin_add(("count", l.lid), C(1)))
    for key, init in (l.info.get("inits") or {}).items():
        phi = ("phi", l.lid, key)
        steps = set()
        for lb in res.lbs:
            ll = lb.loopinfo.get(l.lid)
            if ll is not None and lb.value == ("loop", l.lid):
                steps.add((ll.get("posts") or {}).get(key))
        if len(steps) != 1 or None in steps:
            continue
        st = lin_add(next(iter(steps)), phi, -1)
        if st == C(1):
            out.append(lin_add(lin_add(phi, init, -1), C(1)))
        elif st == C(-1):
            out.append(lin_add(lin_add(init, phi, -1), C(1)))
    return out


def other_counters(p, l, res):
    """Loop-carried counters that do not advance on every element."""
    out = []
    for key in (l.info.get("inits") or {}):
        phi = ("phi", l.lid, key)
        steps = set()
        for lb in res.lbs:
            ll = lb.loopinfo.get(l.lid)
            if ll is not None and lb.value == ("loop", l.lid):
                v = (ll.get("posts") or {}).get(key)
                steps.add(lin_add(v, phi, -1) if v is not None else None)
        if len(steps) > 1 and all(x is not None and is_num_const(x) for x in steps):
            out.append(phi)
    return out


def part_of(t, data):
    t = strip_copy(t)
    return t is not None and t[0] == "sub" and unwrap(t[1]) == data and isinstance(t[2], tuple) and t[2][0] == "slice"


def sized(p, data):
    return any(a[0] == "isinst" and a[1] == data and str(a[2]).endswith("Sized") and v for a, v in p.facts.atoms.items())


def relations(p, terms, n):
    """Is the number of elements known (un)equal to n?"""
    for t in terms:
        d = fact_lin(p, t, "==", n)
        if d is None:
            d = eq_fact(p, t, n)
        if d is not None:
            return d
    return None


def strange(p, n, known):
    """The path compared n against something the rule does not understand."""
    atoms = list(p.facts.ivl) if hasattr(p.facts.ivl, "__iter__") else []
    for k in atoms:
        ts = [x for x, _ in k] if isinstance(k, tuple) else []
        if n in ts:
            for x in ts:
                if x != n and not any(mentions(y, x) for y in known):
                    return show(x)
    for a in p.facts.atoms:
        if a[0] in ("eq", "lt", "le") and n in a[1:]:
            o = [x for x in a[1:] if x != n]
            if o and not any(mentions(y, o[0]) for y in known) and o[0] != NONE:
                return show(o[0])
    return None


def completes(p, res):
    S, data, vals = res.self, res.p(2), res.p(4)
    if p.kind != "return":
        return False
    n = declared(p, S, vals)
    if n is None:
        ls = data_loops(p, data)
        return "elements are written without establishing whether there is a declared count" if ls and \
            not any(mentions(a, ("attr", S, "count")) for a in p.facts.atoms) and \
            not any(passes(e, S) or e.recv == S for e in p.events if e.kind == "call") else (UNKNOWN, "count not followed")
    if n == "none":
        return None
    if n[0] == "sub" and p.facts.atoms.get(("in", n[2], vals)) is False:
        return "dumping completes although the declared count is missing"
    if isc(p, n, NONE) is True:
        return None                      # the sibling says there is no count
    ls = data_loops(p, data)
    if len(ls) > 1:
        ls = [l for l in ls if any(e.kind == "call" and e.name == "to_stream" for e in l.events())] or ls[-1:]
    if not ls:
        return (UNKNOWN, "elements are not written by a loop over the data")
    l = ls[-1]
    ts = taken(p, l, res) + [("app", "len", data)]
    if l.base != data:
        ts.append(("app", "len", l.base))
    d = relations(p, ts, n)
    if d is True:
        if l.how != "exhausted" and not (sized(p, data) and relations(p, [("app", "len", data)], n) is True):
            return "dumping completes before all the supplied elements were seen"
        return None
    if d is False:
        return f"dumping completes with a number of elements that differs from the declared count {show(n)}"
    s = strange(p, n, ts + other_counters(p, l, res))
    if part_of(l.base, data):
        return "only part of the supplied elements is written"
    if s or unwrap(l.base) != data:
        return (UNKNOWN, f"the count is compared with {s or show(l.base)}")
    if not l.iter and fact_lin(p, n, "<=", C(0)) is True:
        return (UNKNOWN, "nothing is written; the count is known to be zero unless it is negative")
    return f"dumping completes although the number of elements is not known to equal the declared count {show(n)}"


def writes(p, res):
    S, stream, data, vals = res.self, res.p(1), res.p(2), res.p(4)
    comp = ("attr", S, "component")
    if p.kind == "raise":
        return False
    ls = [current_loop(p)] if p.kind == "loopback" else [l for l in data_loops(p, data) if l.iter]
    ls = [l for l in ls if l.base is not None and mentions(l.base, data) or l.base == data]
    wr = [e for e in p.events if e.kind == "call" and e.name in ("to_stream", "to_bytes", "_do_dump") and e.recv == comp]
    if not ls:
        if p.kind == "return" and not any(l for l in data_loops(p, data)):
            return (UNKNOWN, "elements are not written by a loop over the data")
        if wr and p.kind == "return":
            return "an element is written outside the loop over the data"
        return None if p.kind == "return" else False
    inloop = [l for l in ls if any(e in l.events() for e in wr)]
    if not inloop:
        if all(unwrap(l.base) == data for l in ls) and not other_effects(p, ls, comp):
            return "an element is not written"
        return (UNKNOWN, "how elements are written is not followed")
    l = inloop[-1]
    here = [e for e in wr if e in l.events()]
    if len(here) > 1:
        return "an element is written more than once"
    e = here[0]
    if e.name != "to_stream":
        return f"elements are written through {e.name}, not the component's complete dump" if e.name == "_do_dump" else \
            (UNKNOWN, "elements are collected as bytes")
    if arg(e, "stream", 0) != stream:
        return (UNKNOWN, "elements are written to another stream")
    d = arg(e, "data", 1)
    if d in l.elem() or d is not None and d[0] in ("elem", "sub") and mentions(d, l.base):
        pass
    else:
        return f"{show(d) if d else 'nothing'} is written instead of the element"
    n = declared(p, S, vals)
    if p.kind == "return" and n == "none" and l.how != "exhausted":
        return "writing stops before the end of the data although there is no declared count"
    return None


def other_effects(p, ls, comp):
    for l in ls:
        for e in l.events():
            if e.kind in ("append", "extend", "yield", "setitem") or e.kind == "call" and (passes(e, comp) or e.recv == comp):
                return True
    return False


def mismatch(p, res, env):
    S, data, vals = res.self, res.p(2), res.p(4)
    if p.kind != "raise" or p.value[0] != "exc":
        return False
    made = next((e for e in p.events if e.kind == "newexc" and e.res == p.value), None)
    if made is None:
        return False
    n = declared(p, S, vals)
    ase = env.exc_is(p.value[2], env.err("ArraySizeError"))
    if n is not None and n[0] == "sub" and p.facts.atoms.get(("in", n[2], vals)) is False:
        return False
    if n in (None, "none"):
        if ase:
            return "ArraySizeError is raised although there is no declared count" if n == "none" else \
                (UNKNOWN, "count not followed")
        return False
    lens = [("app", "len", data)]
    ls = data_loops(p, data)
    l = ls[-1] if ls else None
    ts = list(lens)
    if l is not None:
        ts += taken(p, l, res) + [("app", "len", l.base)]
    if l is not None and l.iter and (l.how != "exhausted"):
        # one more element than written so far has been supplied
        more = [lin_add(t, C(-1)) for t in taken(p, l, res)]
        wrong = any(fact_lin(p, t, ">=", n) is True for t in more)
        right = any(fact_lin(p, t, "<", n) is True for t in more)
    else:
        d = relations(p, ts, n)
        wrong, right = d is False, d is True
    if ase:
        if wrong or relations(p, lens, n) is False:
            return None
        if strange(p, n, ts):
            return (UNKNOWN, "the count is compared with something not modelled")
        if right:
            return "ArraySizeError is raised although the number of elements is the declared one"
        if isc(p, n, NONE) is True:
            return None
        if l is not None and l.iter and l.how != "exhausted":
            return "ArraySizeError is raised before more elements than declared were supplied"
        return "ArraySizeError is raised although the number of elements may be the declared one"
    if wrong and p.value[2] not in ("TypeError",):
        return f"a wrong number of elements is reported as {short(p.value[2])}"
    return False


# ------------------------------------------------------------------ loading
def loads(p, res, env):
    S, stream, vals = res.self, res.p(1), res.p(3)
    comp = ("attr", S, "component")
    H = ("attr", S, "halt_check")
    hs = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and (callee(e) == H or e.recv == H)]
    fs = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.recv == comp and e.name in ("from_stream", "_do_load",
                                                                                                 "from_bytes")]
    for i, e in fs:
        if e.name == "_do_load":
            return "elements are loaded bypassing the component's complete load"
        prev = [h for h in hs if h[0] < i]
        if not prev:
            return "an element is loaded without asking whether to stop"
        h = prev[-1]
        if tv(p, h[1].res) is not False:
            return "an element is loaded although the halt check said to stop" if tv(p, h[1].res) is True else \
                (UNKNOWN, "halt check result not followed")
        if any(h[0] < j < i for j, _ in fs):
            return "two elements are loaded after one halt check"
    apps = [(i, e) for i, e in enumerate(p.events) if e.kind == "append"]
    if p.kind in ("return", "loopback"):
        for i, e in fs:
            adds = [(j, a) for j, a in apps if a.args and a.args[-1] == e.res]
            np = isc(p, e.res, env.NOT_PRESENT)
            if np is True:
                if adds:
                    return "an absent element is added to the result"
                continue
            if np is None and adds:
                return "an element is added without checking whether it was present" if not any(
                    mentions(a, e.res) for a in p.facts.atoms) else (UNKNOWN, "presence check not followed")
            if not adds:
                if any(x.kind in ("setslice", "extend", "mutcall") for x in p.events):
                    return (UNKNOWN, "how elements are added is not followed")
                return "a loaded element is not added to the result"
            if len(adds) > 1:
                return "a loaded element is added more than once"
            nxt = [h for h in hs if h[0] > i]
            if nxt and adds[0][0] > nxt[0][0]:
                return "the halt check is asked before the loaded element was added"
        for j, a in apps:
            if a.args and not any(a.args[-1] == e.res for _, e in fs) and any(h[1].args and len(h[1].args) > 2 and
                                                                             h[1].args[2] == a.recv for h in hs):
                return f"{show(a.args[-1])} is added to the loaded elements"
    for _, h in hs:
        want = (S, stream, None, res.p(2), vals)
        got = h.args
        if h.kw:
            continue
        if len(got) != 5:
            return f"the halt check is called with {len(got)} arguments"
        for g, w in zip(got, want):
            if w is not None and g != w and not (w == vals and (g == vals or g[0] == "copy")):
                return f"the halt check is given {show(g)} for {show(w)}"
        adds = [a.recv for _, a in apps]
        if adds and got[2] not in adds and not (got[2][0] == "copy" and got[2][3] in adds):
            return "the halt check is not given the elements loaded so far"
    if p.kind == "return":
        if not hs:
            return "loading completes without asking the halt check"
        if tv(p, hs[-1][1].res) is not True:
            return "loading stops although the halt check said to go on" if tv(p, hs[-1][1].res) is False else \
                (UNKNOWN, "halt check result not followed")
        if fs and fs[-1][0] > hs[-1][0]:
            return "an element is loaded after the halt check said to stop"
        lst = hs[-1][1].args[2] if len(hs[-1][1].args) > 2 else None
        v = strip_copy(p.value)
        if lst is not None and v != lst and v != strip_copy(lst):
            return f"{show(p.value)} is returned instead of the loaded elements"
    return None


def halts(p, res, is_static):
    ps = [("p", n) for n in res.fi.params()]
    if not is_static and len(ps) == 6:
        ps = ps[1:]
    if len(ps) < 5:
        raise Undecided("unexpected signature")
    S, stream, values, ctx, vals = ps[:5]
    if p.kind == "raise":
        if p.value[0] == "exc" and len(p.value) > 2 and any(e.kind == "newexc" and e.res == p.value for e in p.events):
            n = declared(p, S, vals)
            if n == "none":
                return "an error is raised although there is no declared count"
        return False
    n = declared(p, S, vals)
    if n is None:
        return (UNKNOWN, "count not followed")
    v = p.value
    out = tv(p, v) if v[0] != "c" else bool(v[2])
    ln = ("app", "len", values)
    if n != "none":
        done = fact_lin(p, ln, ">=", n)
        if v[0] == "app" and v[1] in ("<=", ">=", "<", ">", "=="):
            return (UNKNOWN, "comparison returned as is")
        if out is None:
            return (UNKNOWN, f"{show(v)} returned")
        if out is True:
            return None if done is True else "loading is told to stop although fewer elements than declared may be loaded" \
                if not strange(p, n, [ln]) else (UNKNOWN, "the count is compared with something not modelled")
        return None if done is False else "loading is told to go on although the declared number of elements may be loaded" \
            if not strange(p, n, [ln]) else (UNKNOWN, "the count is compared with something not modelled")
    reads = [e for e in p.events if e.kind == "call" and e.recv == stream and e.name in ("read", "peek", "read1")]
    if not reads:
        if any(e.kind == "call" and (passes(e, stream) or e.recv == stream) for e in p.events):
            return (UNKNOWN, "end of data found by other means")
        return "the end of the data is not looked for"
    pos = Pos(p, stream)
    if pos.end != (("start",), C(0)):
        return "the stream position is changed by the halt check"
    e = reads[-1]
    if e.args == () or e.args and (e.args[0] == C(0)):
        return "the halt check reads the wrong number of bytes"
    lr = ("app", "len", e.res)
    empty = True if isc(p, e.res, C(b"")) is True or tv(p, e.res) is False or fact_lin(p, lr, "==", C(0)) is True else \
        False if isc(p, e.res, C(b"")) is False or tv(p, e.res) is True or fact_lin(p, lr, "==", C(0)) is False else None
    if e.args and e.args[0] != C(1) and empty is None:
        return (UNKNOWN, "more than one byte looked at")
    if out is None or empty is None:
        return (UNKNOWN, f"{show(v)} returned")
    if out is True and not empty:
        return "loading is told to stop although there is more data"
    if out is False and empty:
        return "loading is told to go on at the end of the data"
    return None


def count(p, res, env):
    S, vals = res.self, res.p(1)
    K = ("attr", S, "count")
    n = declared(p, S, vals)
    if p.kind == "raise":
        if p.value[0] != "exc" or not any(e.kind == "newexc" and e.res == p.value for e in p.events):
            if n not in (None, "none", K) and p.value[0] == "exc" and p.value[2] in ("KeyError",):
                return "a missing count leaks KeyError"
            return False
        fre = env.exc_is(p.value[2], env.err("FieldReferenceError"))
        if n in ("none", K):
            return f"{short(p.value[2])} is raised although the count does not refer to another field"
        if n is None:
            return False
        inn = p.facts.atoms.get(("in", n[2], vals))
        if fre:
            return None if inn is False else "FieldReferenceError is raised although the sibling value is there" if inn is True \
                else (UNKNOWN, "membership not followed")
        if inn is False:
            return f"a missing count is reported as {short(p.value[2])}"
        return False
    v = p.value
    if n is None:
        if v == NONE and isc(p, K, NONE) is None:
            return "None is given as the count although one may be declared"
        return (UNKNOWN, "count not followed")
    if n == "none":
        return None if v == NONE or isc(p, v, NONE) is True else f"{show(v)} is given as the count of an array without one"
    if v == n:
        if n != K and p.facts.atoms.get(("in", n[2], vals)) is not True:
            return (UNKNOWN, "membership not followed") if any(mentions(a, vals) for a in p.facts.atoms) or any(
                e.kind in ("except", "call") for e in p.events) else "a missing count leaks KeyError"
        return None
    if v[0] == "app" and v[1] == "int" and len(v) == 3 and v[2] == n:
        return None
    e = call_event(p, v)
    if e is not None and e.recv == vals and e.name in ("get", "__getitem__", "pop"):
        inn = p.facts.atoms.get(("in", e.args[0], vals))
        if e.name == "__getitem__" or inn is True or isc(p, v, NONE) is False and len(e.args) == 1:
            return None
        return (UNKNOWN, "membership not followed") if inn is None and any(isc(p, v, x) is False for x in (
            NONE, env.UNDEFINED, *e.args[1:])) else "a missing count is given a default"
    if n != K and p.facts.atoms.get(("in", n[2], vals)) is False:
        return f"a missing count is given the default {show(v)}"
    if v[0] in ("c", "enum") or v[0] == "attr" or v[0] == "lin":
        return f"{show(v)} is given as the count instead of {show(n)}"
    return (UNKNOWN, f"{show(v)} is given as the count")


def configured(p, res):
    S = res.self
    if p.kind != "return":
        return False
    hc, ct = ("p", "halt_check"), ("p", "count")
    h = final_attr(p, S, "halt_check")
    given = tv(p, hc)
    if given is None and isc(p, hc, NONE) is not None:
        given = not isc(p, hc, NONE)
    own = h is not None and (h[0] == "bound" or h[0] == "fn" or h[0] == "attr") and "should_halt" in str(h)
    if given is True and h != hc:
        return f"the given halt check is replaced by {show(h)}" if own or h is None or h[0] in ("c",) else (UNKNOWN, show(h))
    if given is False and not own:
        return f"the default halt check is {show(h)}" if h is None or h[0] in ("c", "p") else (UNKNOWN, show(h))
    if given is None and h is not None and h != hc and not own:
        return (UNKNOWN, show(h))
    if given is None and own:
        return "the given halt check is ignored"
    k = final_attr(p, S, "count")
    if k != ct and resolve(p, k) != resolve(p, ct):
        return f"the declared count is replaced by {show(k)}" if k is None or k[0] in ("c", "attr") else (UNKNOWN, show(k))
    return None
