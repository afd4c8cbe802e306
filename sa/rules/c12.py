"""C12: discard only hides a field from loaded results, never from the data."""
from .common import *

TECHNIQUE = "path-sensitive AST dataflow: effect of the discard flag (information-flow style) on every load/dump path"


def discard_of(p, l):
    """Truth of <element>.discard on this path, and whether it was consulted."""
    els = set(l.elem())
    for a in p.facts.atoms:     # the field looked up by the current name
        for x in a[1:]:
            if isinstance(x, tuple) and x and x[0] == "attr" and x[2] == "discard" and x[1][0] == "sub" and \
                    is_components(x[1][1]) and x[1][2] in l.key():
                els.add(x[1])
    for el in els:
        d = ("attr", el, "discard")
        v = tv(p, d)
        if v is not None:
            return v
    return None


def keys_of(l):
    out = set(l.key())
    for el in l.elem():
        out.add(("attr", el, "name"))
    return out


def consults(p):
    """Facts of this path that depend on a discard flag."""
    return [a for a in p.facts.atoms if any(isinstance(s, tuple) and s and s[0] == "attr" and s[2] == "discard"
                                            for x in a[1:] if isinstance(x, tuple) for s in subterms(x))]


def actions(p, l):
    """What an iteration does with the current field's name: ('remove', target, i), ('list', target, i), ('keep', ...)"""
    ks = keys_of(l)
    out = []
    for i, e in enumerate(p.events):
        if l.lid not in e.loops:
            continue
        if e.kind == "delitem" and e.args and e.args[0] in ks:
            out.append(("remove", e.recv, i))
        elif e.kind == "delattr" and (e.name in ks or e.args and e.args[0] in ks):
            out.append(("remove", e.recv, i))
        elif e.kind == "call" and e.name in ("__delitem__", "__delattr__", "pop") and e.args and e.args[0] in ks:
            out.append(("remove", e.recv, i))
        elif e.kind == "append" and e.args and (e.args[0] in ks or e.args[0] in l.elem()):
            out.append(("list", e.recv, i))
        elif e.kind == "setitem" and e.args and e.args[0] in ks:
            out.append(("keep", e.recv, i))
    if not out and any(a[0] == "in" and a[1] in ks and not is_components(a[2]) and v is False for a, v in p.facts.atoms.items()):
        out.append(("missing", None, len(p.events)))      # the name isn't there, so there is nothing to remove
    return out


def selection(res, flag=None, value=None):
    """node id -> {'yes': [per-path action sets with discard True], 'no': [...]} for the loops that consult discard."""
    out = {}
    for lb in res.lbs:
        l = current_loop(lb)
        if l.base is None:
            continue
        d = discard_of(lb, l)
        if d is None or flag is not None and tv(lb, flag) is (not value):
            continue
        o = out.setdefault(id(l.node), {"yes": [], "no": [], "lb": [], "lid": l})
        o["yes" if d else "no"].append(({a[0] for a in actions(lb, l)}, lb))
    return out


def names_lists(res, sel):
    """Containers (by creation node of the loop filling them) listing exactly the discardable names."""
    return {n for n, o in sel.items() if o["yes"] and all("list" in a for a, _ in o["yes"]) and
            all("list" not in a for a, _ in o["no"])}


def alloc_node(p, t):
    return next((e.node for e in p.events if e.kind == "alloc" and e.res == t), None)


def empty(lb, yes):
    """The container the other iterations remove from has nothing in it here."""
    nodes = {id(alloc_node(q, t)) for a, q in yes for k, t, i in actions(q, current_loop(q)) if k == "remove" and t[0] == "new"}
    return any(e.kind == "alloc" and not e.args and id(e.node) in nodes and lb.state.ver.get(e.res, 0) == 0 and
               not lb.state.loopinfo.get(("looped", e.res)) for e in lb.events)


def hides(p, res, sel):
    """(loops that remove the discardable fields on this path, problem or None)"""
    good = []
    why = None
    for l in loops(p):
        o = sel.get(id(l.node))
        if o is None:
            continue
        yes, no = o["yes"], o["no"]
        rem_yes = [("remove" in a) for a, _ in yes]
        rem_no = [("remove" in a) for a, _ in no]
        keep_yes = [("keep" in a) for a, _ in yes]
        keep_no = [("keep" in a) for a, _ in no]
        lst_yes = [("list" in a) for a, _ in yes]
        lst_no = [("list" in a) for a, _ in no]
        if any(rem_no):
            why = "a field that is not discardable is removed"
        elif any(rem_yes):
            if not all(r or "missing" in a or empty(lb, yes) for r, (a, lb) in zip(rem_yes, yes)):
                why = "a discardable field is not always removed"
            elif not l.full:
                why = "removing the discardable fields can stop early"
            else:
                good.append(l)
        elif any(lst_yes) or any(lst_no):
            src = {t for a, lb in yes + no for k, t, i in actions(lb, current_loop(lb)) if k == "list"}
            if any(lst_no) and not any(lst_yes):
                why = "the non-discardable fields are selected"
                continue
            if not all(lst_yes) or any(lst_no):
                why = "the selection of discardable fields is wrong"
                continue
            if l.iter is False:      # no fields, so nothing is selected
                good.append(l)
                continue
            for m in loops(p):
                if m is not l and m.base is not None and strip_copy(m.base)[0] == "new" and not is_components(m.base) and \
                        m.begin is not None and l.begin is not None and m.begin > l.begin:
                    if m.iter is False or any(e.kind in ("delitem", "delattr") for e in m.events()):
                        good.append(m)
        elif any(keep_no) and not any(keep_yes) and all(keep_no):
            good.append(l)
        elif any(keep_yes) and not any(keep_no):
            why = "the discardable fields are kept instead of the others"
        else:
            why = why or "a discardable field is not removed"
    return good, why


def check(r):
    env = Env(r.prog)
    load = r.rule("R1 loaded result", "After a complete load has been validated, exactly the fields flagged discard are "
                  "removed from the struct; nothing is removed before.")
    part = r.rule("R2 partial load", "Exactly the fields flagged discard are missing from the struct partial_load() returns, "
                  "and they are hidden only after all fields have been read.")
    dic = r.rule("R3 dictionaries", "to_dict() drops exactly the fields flagged discard, and only when keep_discardable is "
                 "false; the flag is handed on to nested structs.")
    dump = r.rule("R4 not in the data", "No path that dumps, sizes or validates a struct or field, reads a field, or reads a "
                  "single field by name depends on the discard flag, and dumping asks for dictionaries that keep "
                  "discardable fields.")

    for cq in [env.STRUCT] + sorted(r.prog.subclasses.get(env.STRUCT, ())):
        fi = env.func(cq, "from_stream")
        res = r.run(fi, cq)
        tag = f"{fi.qual} [{short(cq)}]"
        if res is None:
            r.unknown(load, tag, "not analysable")
        else:
            sel = selection(res)
            r.each(load, tag, res, lambda p: after_load(p, res, sel), need=1)
            r.each(load, tag + " reading", res, lambda p: reading(p), paths=res.all)
        fi = env.func(cq, "partial_load")
        res2 = r.run(fi, cq)
        tag = f"{fi.qual} [{short(cq)}]"
        if res2 is None:
            r.unknown(part, tag, "not analysable")
        else:
            sel2 = selection(res2)
            r.each(part, tag, res2, lambda p: after_partial(p, res2, sel2), need=1)
            r.each(part, tag + " reading", res2, lambda p: reading(p), paths=res2.all)
        fi = env.func(cq, "to_dict")
        res3 = r.run(fi, cq)
        tag = f"{fi.qual} [{short(cq)}]"
        if res3 is None:
            r.unknown(dic, tag, "not analysable")
        else:
            sel3 = selection(res3)
            r.each(dic, tag, res3, lambda p: to_dict(p, res3, sel3), need=2)
            nested(r, dic, fi, res3)
        for name in ("to_stream", "partial_dump", "validate_contents", "__len__", "get_field", "__eq__", "__iter__"):
            fi = r.prog.find_method(cq, name)
            if fi is None:
                continue
            rs = r.run(fi, cq)
            tag = f"{fi.qual} [{short(cq)}]"
            if rs is None:
                r.unknown(dump, tag, "not analysable")
                continue
            r.each(dump, tag, rs, indifferent, paths=rs.all)
            if name == "get_field":
                r.each(dump, tag + " -> value", rs, lambda p: own_value(p, rs), need=1)
            if name in ("to_stream", "partial_dump"):
                r.each(dump, tag + " -> to_dict", rs, lambda p: keeps(p, rs), paths=rs.all, need=0)
    for cq in env.field_classes():
        for name in ("from_stream", "to_stream", "compute_value_for_dump", "get_expected_size", "_do_load", "_do_dump",
                     "__get__", "__set__"):
            fi = r.prog.find_method(cq, name)
            if fi is None or (fi.cls is not None and fi.cls.qual != cq):
                continue
            rs = r.run(fi, cq)
            if rs is None:
                r.unknown(dump, f"{fi.qual}", "not analysable")
                continue
            r.each(dump, rs.entry, rs, indifferent, paths=rs.all, need=0)


def indifferent(p):
    c = consults(p)
    return f"the outcome depends on {show(c[0][1]) if isinstance(c[0][1], tuple) else c[0]}" if c else None


def reading(p):
    """No field is skipped, and none removed, because of discard while fields are being read."""
    reads = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name in ("from_stream", "_do_load")]
    if not reads:
        if p.kind == "loopback":
            l = current_loop(p)
            if is_components(l.base) and discard_of(p, l) is True and not actions(p, l) and \
                    not any(e.name == "validate_contents" for e in p.events):
                return (UNKNOWN, "cannot tell what this loop does with a discardable field")
        return False
    e = p.events[reads[-1]]
    if e.facts is not None and any(a[0] != "x" and any(isinstance(s, tuple) and s and s[0] == "attr" and s[2] == "discard"
                                   for x in a[1:] if isinstance(x, tuple) for s in subterms(x)) for a in e.facts.atoms):
        return "whether a field is read depends on its discard flag"
    last = reads[-1]
    rl = [l for l in loops(p, is_components) if l.lid in e.loops]
    for i, x in enumerate(p.events):
        if x.kind in ("delitem", "delattr") and (i < last or rl and rl[0].lid in x.loops):
            return "a field is removed while fields are still being read"
    return None


def after_load(p, res, sel):
    if p.kind != "return":
        return False
    good, why = hides(p, res, sel)
    val = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name == "validate_contents"]
    if not good:
        if why is None and not any(l.base is not None for l in loops(p)):
            return (UNKNOWN, "no loop over the fields")
        return why or "discardable fields are not removed from the loaded struct"
    if why:
        return why
    if val and any(l.begin is not None and l.begin < val[-1] for l in good):
        return "discardable fields are removed before the struct is validated"
    return None


def filtered_copy(p, res, sel):
    """Some container of selected names decides which loaded values go into the returned struct: True when they are the
    discardable ones and exactly the others are copied, None when it can't be told, False when nothing of the kind."""
    seen = False
    for l in loops(p):
        if sel.get(id(l.node)) is not None or l.base is None or is_components(strip_copy(l.base)):
            continue
        yes, no = [], []
        for lb in res.lbs:
            m = current_loop(lb)
            if m.node is not l.node:
                continue
            for a, v in lb.facts.atoms.items():
                if a[0] == "in" and a[1] in keys_of(m) and isinstance(a[2], tuple) and strip_copy(a[2])[0] == "new":
                    kept = any(x[0] == "keep" for x in actions(lb, m))
                    if any(x[0] == "keep" and x[1] == strip_copy(a[2]) for x in actions(lb, m)):
                        continue
                    (yes if v else no).append((kept, strip_copy(a[2])))
        if yes or no:
            seen = True
            lists = names_lists(res, sel)
            made = {id(e.node) for lb in res.lbs for e in lb.events if e.kind == "alloc" and e.res in [t for _, t in yes + no]}
            fed = {id(alloc_node(lb, t)) for n, o in sel.items() if n in lists for a, lb in o["yes"]
                   for k, t, i in actions(lb, current_loop(lb)) if k == "list"}
            if made <= fed and no and all(k for k, _ in no) and not any(k for k, _ in yes) and l.full:
                return True
            if made and made <= fed and no and yes and not any(k for k, _ in no) and all(k for k, _ in yes):
                return "the discardable fields are kept instead of the others"
    return None if seen else False


def after_partial(p, res, sel):
    if p.kind != "return":
        return False
    good, why = hides(p, res, sel)
    if not good and not why:
        f = filtered_copy(p, res, sel)
        if f:
            return None if f is True else f
        if f is None:
            return (UNKNOWN, "values are filtered by a collection of names")
    if not good:
        return why or "discardable fields are returned by a partial load"
    return why


def to_dict(p, res, sel):
    if p.kind != "return":
        return False
    flag = res.param("keep_discardable")
    keep = tv(p, flag)
    if {tv(lb, flag) for o in sel.values() for _, lb in o["yes"]} >= {True, False}:
        # the flag is looked at for each field
        good, why = hides(p, res, selection(res, flag, False))
        if not good or why:
            return why or "discardable fields are not dropped"
        if any(a & {"remove", "list"} for o in selection(res, flag, True).values() for a, _ in o["yes"] + o["no"]):
            return "discardable fields are dropped although they were asked for"
        return None
    good, why = hides(p, res, sel)
    if keep is True:
        return "discardable fields are dropped although they were asked for" if good or why else None
    if keep is False:
        return None if good and not why else (why or "discardable fields are not dropped")
    if good or why:
        return "discardable fields are dropped without looking at keep_discardable"
    return (UNKNOWN, "keep_discardable is not consulted on this path") if sel else \
        "keep_discardable is not consulted"


def nested(r, dic, fi, res):
    """Every to_dict() of a nested struct gets the flag the caller passed."""
    seen = set()
    work = []
    for p in res.all:
        for e in p.events:
            if e.kind == "call" and e.name == "to_dict":
                k = arg(e, "keep_discardable", 0)
                r.verdict(dic, f"{res.entry} nested to_dict", None if k is not None and same(p, k, res.param("keep_discardable"))
                          or k is not None and tv(p, k) is not None and tv(p, k) == tv(p, res.param("keep_discardable"))
                          else "keep_discardable is not handed on to nested structs", p, e)
            if e.kind == "call" and isinstance(e.extra, str) and e.extra in r.prog.funcs and "keep_discardable" in \
                    r.prog.funcs[e.extra].params() and e.name != "to_dict":
                k = arg(e, "keep_discardable", 1)
                r.verdict(dic, f"{res.entry} -> {e.name}", None if k is not None and same(p, k, res.param("keep_discardable"))
                          else "keep_discardable is not handed on", p, e)
                if e.extra not in seen:
                    seen.add(e.extra)
                    work.append(e.extra)
    while work:
        q = work.pop()
        rr = r.run(q)
        if rr is None:
            r.unknown(dic, q, "not analysable")
            continue
        for p in rr.all:
            for e in p.events:
                if e.kind == "call" and (e.name == "to_dict" or e.extra == q):
                    k = arg(e, "keep_discardable", 0 if e.name == "to_dict" else 1)
                    r.verdict(dic, f"{q} -> {e.name}", None if k is not None and same(p, k, rr.param("keep_discardable"))
                              else "keep_discardable is not handed on to nested structs", p, e)


def comes_from(p, t, src, depth=0):
    if t is None or depth > 4:
        return False
    if mentions(t, src):
        return True
    for s in subterms(t):
        e = call_event(p, s) if s[0] == "res" else None
        if e is not None and any(comes_from(p, x, src, depth + 1) for x in [e.recv] + list(e.args) if x is not None):
            return True
    return False


def own_value(p, rs):
    """The value of a single field must not come from a load that drops discardable fields."""
    if p.kind != "return":
        return False
    for e in p.events:
        if e.kind == "call" and e.name in ("partial_load", "from_stream", "from_bytes", "to_dict") and e.recv == rs.self and \
                e.res is not None and comes_from(p, p.value, e.res):
            if e.name == "to_dict" and arg(e, "keep_discardable", 0) is not None:
                continue
            return f"the value is taken from {e.name}(), which drops discardable fields"
    return None


def keeps(p, rs):
    n = 0
    for e in p.events:
        if e.kind == "call" and e.name == "to_dict" and e.recv == rs.self:
            k = arg(e, "keep_discardable", 0)
            n += 1
            if k is None or tv(p, k) is False:
                return "the sibling mapping used for dumping lacks the discardable fields"
            if tv(p, k) is None:
                return (UNKNOWN, f"keep_discardable={show(k)}")
    return None if n else False
