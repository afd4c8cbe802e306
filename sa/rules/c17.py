"""C17: defining a struct class never alters another struct class."""
from .common import *

TECHNIQUE = "ownership analysis: every mutation made while a class is defined is traced to an object the new class owns"

MUT = ("setattr", "delattr", "setitem", "delitem", "update", "append", "setslice", "setglobal")
BINDERS = ("bind_to_container", "__set_name__", "maybe_assign_name", "computes", "__init__")
CONTAINERS = ("components", "struct_validators", "field_validators", "argument_defaults")


def is_namespace(t, K):
    """vars(cls) / cls.__dict__ of the class being defined (or a copy)."""
    for _ in range(6):
        if t is None:
            return False
        t = strip_copy(t)
        if t[0] == "copy":
            t = t[3]
            continue
        break
    return t == ("app", "vars", K) or t == ("attr", K, "__dict__") or t[0] == "p" and t[1] == "namespace"


def bases(t, K):
    t = strip_copy(t)
    return t is not None and t[0] == "attr" and t[1] == K and t[2] in ("__bases__", "__base__", "__mro__")


def own(p, t, K, depth=0):
    """'own' (belongs to the class being defined), 'parent', or None (unknown)."""
    if depth > 12 or t is None:
        return None
    k = t[0]
    if k in ("new", "exc", "slice"):
        return "own"
    if k == "sub" and t[2][0] == "slice":
        return "own"
    if k == "copy":
        return "own"
    if t == K:
        return "own"
    if k == "attr":
        b, n = t[1], t[2]
        if bases(t, K):
            return "parent"
        if n == "__binobj_struct__" and b == K:
            return "own"
        if b[0] == "copy":
            return "own" if "deep" in str(b[2]) else own(p, ("attr", b[3], n), K, depth + 1)
        if b[0] == "p" and b != K:
            return own_param(b, n)
        return own(p, b, K, depth + 1)
    if k in ("elem", "sub"):
        c = t[1]
        return content(p, c, K, depth + 1, t)
    if k == "app" and t[1] in ("super", "next", "iter", "reversed", "sorted", "list", "tuple") and len(t) >= 3:
        return own(p, t[2], K, depth + 1)
    if k == "res":
        e = call_event(p, t)
        if e is not None and e.name in ("make_field_instance", "from_class"):
            return "own"
        if e is not None and e.kind == "construct":
            return "own"
        if e is not None and e.name in ("get", "pop", "setdefault") and e.recv is not None:
            return content(p, e.recv, K, depth + 1, t)
        if e is not None and e.name == "getattr" and e.recv is not None:
            return own(p, e.recv, K, depth + 1)
        return None
    if k == "p":
        return own_param(t, None)
    return None


def own_param(b, n):
    if b[1] in ("self", "cls", "metadata", "class_metadata", "struct_info"):
        return "own"
    return None


def content(p, c, K, depth, t=None):
    """Who owns the objects stored in the container c?"""
    if depth > 12 or c is None:
        return None
    c = c[2] if c[0] == "view" else c
    if is_namespace(c, K):
        return "own"
    if bases(c, K):
        return "parent"
    if is_components(c) and c[0] == "attr" and own(p, c[1], K, depth + 1) == "parent":
        return "parent"
    if is_components(c):
        # inherited fields are in there too
        if t is not None and t[0] == "sub" and p.facts.atoms.get(("in", t[2], c)) is True and not any(
                e.kind == "setitem" and e.recv == c and e.args and e.args[0] == t[2] for e in p.events) and all(
                v is False for a, v in p.facts.atoms.items() if a[0] == "in" and a[1] == t[2] and a[2] != c):
            return "parent"
        for a, v in p.facts.atoms.items():
            if a[0] == "in" and t is not None and len(t) > 2 and (a[1] == t[2] or a[1] == t) or a[0] == "in" and t is not None \
                    and any(mentions(a[1], x) for x in (t, c)):
                return None
        return "parent" if own(p, c, K, depth + 1) is not None else None
    if c[0] == "slice" or c[0] == "sub" and c[2][0] == "slice":
        return content(p, c[1], K, depth + 1, t)
    if c[0] == "copy":
        if "deep" in str(c[2]):
            return "own"
        return content(p, c[3], K, depth + 1, t)
    if c[0] == "new":
        got = set()
        for e in p.events:
            if e.recv == c and e.kind in ("setitem", "append") and e.args:
                v = e.args[-1]
                got.add(own(p, v, K, depth + 1))
            elif e.recv == c and e.kind == "update":
                for a in list(e.args) + list(e.kw.values()):
                    got.add(content(p, a, K, depth + 1))
            elif e.res == c and e.kind == "alloc":
                for a in e.args:
                    if a[0] in ("view", "copy", "attr", "new"):
                        got.add(content(p, a, K, depth + 1))
        if not got:
            # collected by a loop whose sampled iteration stored nothing: what it ranges over decides
            for i, e in enumerate(p.events):
                if e.res == c and e.kind == "alloc" and c[2] != "dict":
                    nxt = next((x for x in p.events[i + 1:] if x.kind == "loop_begin"), None)
                    if nxt is not None and nxt.recv is not None:
                        return content(p, nxt.recv, K, depth + 1)
        if "parent" in got:
            return "parent"
        if None in got:
            return None
        return "own"
    o = own(p, c, K, depth + 1)
    if o == "parent":
        return "parent"
    if c[0] == "attr" and c[2] == "field_validators":
        return o           # R2: every list in there is a copy
    if c[0] == "attr" and o == "own" and c[2] in CONTAINERS:
        return None
    return None


def check(r):
    env = Env(r.prog)
    wr = r.rule("R1 writes", "Everything that is modified while a class is being defined (its metadata, containers, fields, "
                "attributes) belongs to that class: no mutation reaches a base class, its metadata, its containers or an "
                "inherited field.")
    cp = r.rule("R2 copies", "The containers in a new class's metadata are fresh objects or copies, and the validator lists "
                "inside them are copies too.")
    bind = r.rule("R3 binding", "Binding a field modifies that field only.")
    redef = r.rule("R4 redefinition", "A field is bound and added to a struct only after its name was found not to be among "
                   "the struct's fields (inherited ones included); otherwise FieldRedefinedError is raised.")
    multi = r.rule("R5 one struct base", "A class whose bases include more than one struct is rejected with "
                   "MultipleInheritanceError.")
    FR, MI = env.err("FieldRedefinedError"), env.err("MultipleInheritanceError")

    fc = env.func(env.META, "from_class")
    dc = env.modfunc("binobj", "dataclass")
    isub = env.func(env.STRUCT, "__init_subclass__")
    jobs = [("from_class", r.run(fc, env.META), 1), ("dataclass", r.run(dc), 0)]
    for name, res, ki in jobs:
        if res is None:
            for ru in (wr, redef):
                r.unknown(ru, name, "not analysable")
            continue
        K = res.p(ki)
        r.each(wr, res.entry, res, lambda p: writes(p, K, env), paths=res.all)
        n = 0
        for p in res.all:
            m = redefinition(p, K, FR)
            if m is False:
                continue
            n += 1
            r.verdict(redef, res.entry, m, p)
        if not n:
            r.unknown(redef, res.entry, "no field is bound")
        r.verdict(redef, res.entry + " raises", None if any(exc_origin(p.value)[0] == FR for p in res.raises())
                  else "FieldRedefinedError is never raised")
        if name == "from_class":
            r.each(cp, res.entry, res, lambda p: copies(p, K), need=2)
            r.each(multi, res.entry, res, lambda p: one_base(p, K, MI), need=2)
            r.verdict(multi, res.entry + " raises", None if any(exc_origin(p.value)[0] == MI for p in res.raises())
                      else "MultipleInheritanceError is never raised")
            for lb in res.lbs:
                l = current_loop(lb)
                if bases(l.base, K):
                    r.verdict(multi, res.entry + " every base", every_base(lb, l), lb)

    res = subclass_hook(r, env, isub)
    if res is None:
        r.unknown(wr, isub.qual, "not analysable")
    else:
        K = res.p(0)
        r.each(wr, res.entry, res, lambda p: writes(p, K, env), paths=res.all)

    for cq in env.field_classes():
        for m in ("bind_to_container", "__set_name__"):
            fi = r.prog.find_method(cq, m)
            if fi is None:
                continue
            res = r.run(fi, cq)
            r.each(bind, f"{fi.qual} [{short(cq)}]", res, lambda p: only_self(p, res), paths=res.all if res else None)


def subclass_hook(r, env, fi):
    """__init_subclass__ with from_class() kept opaque (it is analysed on its own)."""
    return r.run(fi, env.STRUCT, opaque=("from_class",))


def describe(t):
    return show(t)


def writes(p, K, env):
    bad = None
    for e in p.events:
        tgt = None
        if e.kind in MUT:
            tgt = e.recv
        elif e.kind == "call" and e.name in BINDERS:
            tgt = e.recv
        if tgt is None:
            continue
        o = own(p, tgt, K)
        if o == "parent":
            what = e.name if isinstance(e.name, str) and e.name and e.kind != "call" else e.kind
            return f"{what if e.kind != 'call' else e.name} modifies {show(tgt)}, which belongs to a base class"
        if o is None:
            bad = (UNKNOWN, f"{e.kind} {e.name} on {show(tgt)}: owner not known")
    return bad


def copies(p, K):
    if p.kind != "return":
        return False
    M = p.value
    for n in CONTAINERS:
        v = final_attr(p, M, n)
        if v is None:
            continue
        if v[0] in ("new", "copy"):
            if n == "field_validators" and content(p, v, K, 0) == "parent":
                return "the validator lists of the base class are shared"
            continue
        if v[0] == "c":
            continue
        o = own(p, v, K)
        if o == "parent" or (v[0] in ("attr", "res", "app", "globv", "sub") and mentions_class(v, K)):
            return f"{n} is {show(v)}, not a copy"
        return (UNKNOWN, f"{n} is {show(v)}")
    return None


def mentions_class(v, K):
    return v[0] == "attr" and mentions(v, K) and v[2] in CONTAINERS


def bound(e):
    name = e.kw.get("name", e.args[1] if len(e.args) > 1 else None)
    return name


def redefinition(p, K, FR):
    out = False
    free = []       # names found to be free earlier on this path
    if p.kind == "raise" and exc_origin(p.value)[0] == FR:
        hit = any(a[0] == "in" and is_components(a[2]) and v for a, v in p.facts.atoms.items()) or \
            any(a[0] == "in" and a[2][0] == "new" and v for a, v in p.facts.atoms.items())
        return None if hit else (UNKNOWN, "raised for a name not known to be among the fields")
    for i, e in enumerate(p.events):
        name = None
        if e.kind == "call" and e.name == "bind_to_container":
            name = bound(e)
        elif e.kind == "setitem" and e.recv is not None and owner_of(p, e.recv, "components") is not None and \
                e.args[1] is not None and content(p, ("new", -1), K, 0) is not None and not inherited_copy(p, e, K):
            name = e.args[0]
        if name is None:
            continue
        v = absent(p, e, name)
        if v is False or name in free:
            free.append(name)
            out = None if out is False else out
            continue
        if v is True:
            return "an inherited field is redefined"
        if v is None and e.facts is not None:
            return "a field is bound without checking whether its name is taken"
    return out


def inherited_copy(p, e, K):
    """The store copies a field over from the base class."""
    return own(p, e.args[1], K) == "parent"


def absent(p, e, name):
    """False: known not to be taken; True: known to be taken; None: not checked."""
    if e.facts is None:
        return False
    out = None
    for a, v in e.facts.atoms.items():
        if a[0] == "in" and a[1] == name and (is_components(a[2]) or owner_of(p, a[2], "components") is not None):
            if v is False:
                return False
            out = True
    if out is None:
        for a, v in e.facts.atoms.items():
            if a[0] in ("is", "isc", "eq") and any(mentions(x, name) and any(is_components(s) for s in subterms(x))
                                                   for x in a[1:] if isinstance(x, tuple)):
                return False
        # a dictionary that is still empty holds no name
        for key, v in p.state.heap.items():
            if key[1:] == ("components",) and v[0] == "new" and not any(
                    x.recv == v and x.kind in ("setitem", "update") for x in before(p, e)):
                if not any(l.base is not None and is_components(l.base) for l in loops(p)):
                    return False
    return out


def before(p, e):
    out = []
    for x in p.events:
        if x is e:
            break
        out.append(x)
    return out


def counted(p, K):
    """Lists collected from the class's bases."""
    out = set()
    for e in p.events:
        if e.kind == "append" and e.recv is not None and any(bases(l.base, K) for l in loops(p) if l.lid in e.loops):
            out.add(e.recv)
        if e.kind == "alloc" and any(x.kind == "loop_begin" and bases(x.recv, K) for x in p.events):
            out.add(e.res)
    return out


def lengths(p, cs):
    """Length (and truth) terms of these lists that the path has compared with something."""
    return [t for t in subterms_of_facts(p) if t[0] == "app" and t[1] == "len" and len(t) > 2 and t[2] in cs]


def one_base(p, K, MI):
    if p.kind == "raise":
        n, o = exc_origin(p.value)
        if n != MI:
            return False
        ts = lengths(p, counted(p, K))
        if any(p.facts.decide_lin(t, "<=", C(1)) is True for t in ts):
            return "a class with a single struct base is rejected"
        return None
    ls = [l for l in loops(p, lambda b: bases(b, K))]
    if not ls and any(l.base[0] == "sub" and bases(l.base[1], K) and l.base[2][0] == "slice" for l in loops(p) if l.base):
        return "not all bases are looked at"
    if not ls:
        return (UNKNOWN, "the bases are not enumerated in a loop")
    cs = counted(p, K)
    ts = lengths(p, cs)
    if any(l.full and not l.iter for l in ls):
        return None                   # no bases at all
    if any(p.facts.decide_lin(t, "<=", C(1)) is True for t in ts) or any(tv(p, c) is False for c in cs):
        return None
    if not any(l.full for l in ls):
        return "not all bases are looked at"
    if any(p.facts.decide_lin(t, "<=", C(k)) is True for t in ts for k in (2, 3)):
        return "more than one struct base is accepted"
    if not ts and not any(l.base is not None and t_counter(p, l) for l in ls):
        return "the number of struct bases is not checked"
    return (UNKNOWN, "the number of struct bases is not decided")


def t_counter(p, l):
    """Is anything that changes in this loop looked at afterwards?"""
    return any(t[0] in ("phi", "φ") for t in subterms_of_facts(p))


def subterms_of_facts(p):
    out = set()
    for key in p.facts.ivl:
        for t, k in key:
            out |= set(subterms(t))
    for t in list(p.facts.eqc) + list(p.facts.nec):
        out |= set(subterms(t))
    for a in p.facts.atoms:
        for x in a[1:]:
            if isinstance(x, tuple):
                out |= set(subterms(x))
    return out


def every_base(lb, l):
    """A base that is a struct is counted."""
    for el in l.elem():
        for a, v in lb.facts.atoms.items():
            if a[0] == "hasattr" and a[1] == el and v:
                if not any(e.kind in ("append", "setitem", "update") and el in e.args for e in l.events()):
                    m = ("attr", el, "__binobj_struct__")
                    if any(t[0] == "attr" and t[1] == m for t in subterms_of_facts(lb)):
                        return "whether a struct base is counted depends on what it contains"
                    return (UNKNOWN, "a struct base is not collected")
    return None


def only_self(p, res):
    S = res.self
    for e in p.events:
        if e.kind in MUT:
            t = e.recv
            if t is None or t[0] in ("new", "copy", "exc"):
                continue
            root = t
            while root[0] in ("attr", "sub", "elem", "view"):
                root = root[2] if root[0] == "view" else root[1]
            if root == S:
                if t != S and t[0] == "attr" and t[2] in ("__class__",) or t[0] == "app":
                    return f"{show(t)} is modified"
                continue
            return f"{e.kind} modifies {show(t)}, which is not the field"
    return None
