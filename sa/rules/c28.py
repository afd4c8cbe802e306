"""C28: both declaration styles produce equivalent structs."""
from .c18 import layouts
from .common import *
from . import c17

TECHNIQUE = "path-sensitive dataflow over both class-building procedures (annotations and assignments) against one common specification"
UNIONS = ("typing.Union", "types.UnionType")


def check(r):
    env = Env(r.prog)
    reg = r.rule("R1 registration", "In both styles every declared field is bound to the struct's metadata under its own name and "
                 "then stored, the very same object, among the components; it ends up as the class attribute, is owned by the "
                 "class, and has a list of validators, an existing one being kept.")
    inst = r.rule("R2 field built", "The field made from an annotation is the annotated instance, the annotated class created "
                  "with the field's name and the class attribute of that name as its default, or a nested field of the annotated "
                  "struct class created in the same way; it is nullable (null value DEFAULT) exactly when None is among the "
                  "annotation's types.")
    un = r.rule("R3 unions", "An annotation that is a union (in either syntax) is reduced to its only type that is not None, and "
                "raises InvalidTypeAnnotationError when there are several; no other annotation raises it.")
    one = r.rule("R4 one field per name", "A field is only taken from an annotation when it is the only one in it; several raise "
                 "ConfigurationError. A name is skipped only if it is inherited and not annotated again or has no field annotation.")
    cnt = r.rule("R5 bookkeeping", "The number of own fields recorded is the number of fields bound; a class that already has "
                 "assigned fields raises MixedDeclarationsError, a class without field annotations NoDefinedFieldsError, and no "
                 "other class does.")
    order = r.rule("R6 order", "Fields are taken in the order of the class body: annotations as Python reports them (extras "
                   "included), assignments in the order of the namespace.")
    lay = r.rule("R7 layout", "In both styles fields are bound with consecutive indexes that start at the number of inherited fields, "
                 "and with offsets that start at the parent's size, grow by the size of every field that has a fixed size and is "
                 "always present, and are None after any other.")
    layouts(r, env, lay, lay)
    dc = env.modfunc("binobj", "dataclass")
    fc = env.func(env.META, "from_class")
    hook = env.func(env.STRUCT, "__init_subclass__")

    # ---------------------------------------------------------------- assignment style
    res = r.run(fc, env.META)
    if res is None:
        r.unknown(reg, fc.qual, "not analysable")
    else:
        K = res.p(1)
        n = 0
        for lb in res.lbs:
            l = current_loop(lb)
            for e in bindings(l):
                n += 1
                r.verdict(reg, fc.qual, registered(lb, l, e, K, env, False), lb)
                r.verdict(order, fc.qual, in_order(lb, l, K, False), lb)
        nodes = loop_nodes(res, lambda e: e.kind == "call" and e.name == "bind_to_container")
        for lb in res.lbs:
            l = current_loop(lb)
            if id(l.node) in nodes and not bindings(l) and inner(lb, l):
                r.verdict(reg, fc.qual + " other items", skipped_item(lb, l, env), lb)
        if not n:
            r.unknown(reg, fc.qual, "no field is bound")
        r.each(cnt, fc.qual, res, lambda p: recorded(p, p.value, res, env), need=1)
    res = r.run(hook, env.STRUCT, opaque=("from_class",))
    r.each(reg, hook.qual, res, lambda p: metadata_stored(p, res), need=1)
    if res is not None:
        K = res.p(0)
        lists = owned_lists(res)
        for lb in res.lbs:
            l = current_loop(lb)
            r.verdict(reg, hook.qual + " owner", owned(lb, l, K, env, lists), lb)
        r.verdict(reg, hook.qual + " owner", None if any(
            e.kind == "setattr" and e.name == "__objclass__" for p in res.all for e in p.events)
            else (UNKNOWN, "the owner is set elsewhere"))

    # ---------------------------------------------------------------- annotation style
    res = r.run(dc, inline=("make_field_instance",))
    if res is None:
        for ru in (reg, inst, un, one, cnt, order):
            r.unknown(ru, dc.qual, "not analysable")
        return
    K = res.p(0)
    ITA, MIX, NDF, CFG = (env.err(x) for x in ("InvalidTypeAnnotationError", "MixedDeclarationsError", "NoDefinedFieldsError",
                                               "ConfigurationError"))
    n = 0
    nodes = loop_nodes(res, lambda e: e.kind == "call" and e.name == "bind_to_container")
    for lb in res.lbs:
        l = current_loop(lb)
        if id(l.node) not in nodes:
            continue
        bs = bindings(l)
        for e in bs:
            n += 1
            r.verdict(reg, dc.qual, registered(lb, l, e, K, env, True), lb)
            r.verdict(order, dc.qual, in_order(lb, l, K, True), lb)
            r.verdict(one, dc.qual, alone(lb, l, e), lb)
            f = e.recv
            for f in produced(lb, l, e):
                m = made(lb, l, f, K, env)
                if m is not False:
                    r.verdict(inst, dc.qual, m, lb)
                m = reduced(lb, l, f, env)
                if m is not False:
                    r.verdict(un, dc.qual, m, lb)
        if not bs and inner(lb, l):
            r.verdict(one, dc.qual + " skipped", skipped(lb, l, env), lb)
    if not n:
        for ru in (reg, inst, one, order):
            r.unknown(ru, dc.qual, "no field is bound")
    raised = {}
    for p in res.raises():
        q = exc_origin(p.value)[0]
        if q in (ITA, MIX, NDF, CFG):
            raised[q] = True
            ru = un if q == ITA else one if q == CFG else cnt
            r.verdict(ru, f"{dc.qual} raises {short(q)}", reason(p, q, K, env, ITA, MIX, NDF, CFG), p)
    for q, ru, what in ((ITA, un, "unions of several types"), (MIX, cnt, "mixed declarations"), (NDF, cnt, "a struct without fields"),
                        (CFG, one, "several field annotations")):
        r.verdict(ru, f"{dc.qual} raises {short(q)}", None if q in raised else f"{what}: {short(q)} is never raised")
    r.each(cnt, dc.qual, res, lambda p: recorded(p, ("attr", K, "__binobj_struct__"), res, env, True) if p.kind == "return"
           else False, need=1)
    r.each(cnt, dc.qual + " result", res, lambda p: (None if p.value == K else f"returns {show(p.value)}")
           if p.kind == "return" else False)


def bindings(l):
    return [e for e in l.events() if e.kind == "call" and e.name == "bind_to_container"]


def inner(lb, l):
    """Was an element looked at (and this is the innermost loop that ran)?"""
    return l.iter


# ------------------------------------------------------------------ registration
def names_of(l):
    return set(l.key()) | {("attr", x, "name") for x in l.elem()}


def bound_name(e):
    return e.kw.get("name", e.args[1] if len(e.args) > 1 else None)


def registered(p, l, e, K, env, is_dc):
    f = e.recv
    name = bound_name(e)
    if name is None:
        return "no name is given"
    if name not in l.key():
        if name[0] == "elem" or name in l.elem():
            pass
        elif name[0] == "c":
            return f"bound under the name {show(name)}"
        else:
            return (UNKNOWN, f"bound under {show(name)}")
    si = e.kw.get("struct_info", e.args[0] if e.args else None)
    if si is None or si == K:
        return "bound to something else than the struct's metadata"
    ev = l.events()
    i = ev.index(e)
    st = [x for x in ev if x.kind == "setitem" and x.args and owner_of(p, x.recv, "components") is not None]
    if not st:
        if any(x.kind in ("update", "mutcall") and owner_of(p, x.recv, "components") is not None for x in ev):
            return (UNKNOWN, "stored in another way")
        return "a bound field is not added to the components"
    s = st[-1]
    if s.args[0] != name:
        return "a field is stored under another name than it is bound with"
    if s.args[1] != f:
        return "another object than the bound field is stored among the components"
    if len(st) > 1 and any(x.args[1] != f for x in st):
        return "several objects are stored"
    if is_dc:
        att = [x for x in ev if x.kind == "setattr" and x.recv == K and (x.extra == name or x.name == name or show(name) in str(x.name))
               or x.kind == "setattr" and x.recv == K and f in x.args]
        if not att:
            if any(x.kind == "call" and x.name in ("setattr", "__setattr__") for x in ev):
                return (UNKNOWN, "class attribute set in another way")
            return "the class attribute is not replaced with the field"
        if f not in att[-1].args:
            return "the class attribute is not the field"
        oc = [x for x in ev if x.kind == "setattr" and x.name == "__objclass__" and x.recv == f]
        if not oc:
            return "the field's owning class is not set"
        if oc[-1].args[0] != K:
            return "the field's owning class is another class"
        return kept(p, l, ev, name, e)
    return None


def kept(p, l, ev, name, e):
    conts = set()
    for x in ev:
        o = owner_of(p, x.recv, "field_validators") if x.recv is not None else None
        if o is None:
            continue
        if x.kind == "setitem" and x.args and x.args[0] == name:
            w = was_in(x, name, x.recv)
            if w is not False and x.args[1][0] in ("new", "c") and not mentions(x.args[1], x.recv):
                if any(mentions(a, x.recv) for a in (x.args[1],)):
                    return None
                al = call_event(p, x.args[1])
                return "the validators already declared for the field are dropped" if w is None or w is True else None
            return None
        if x.kind in ("setdefault",) or x.kind == "call" and x.name in ("setdefault",):
            return None
        if x.kind in ("update", "mutcall"):
            return None
    for a, v in p.facts.atoms.items():
        if a[0] == "in" and a[1] == name and owner_of(p, a[2], "field_validators") is not None:
            return None if v else "a field has no list of validators"
    return "a field has no list of validators"


def skipped_item(p, l, env):
    for el in l.elem():
        v = is_inst(p, el, env.FIELD)
        if v is False:
            return None
        if v is True:
            return "a field in the class body is not bound"
    return (UNKNOWN, "an item is skipped without asking whether it is a field")


def metadata_stored(p, res):
    if p.kind != "return":
        return False
    K = res.p(0)
    for e in p.events:
        if e.kind == "setattr" and e.recv == K and "__binobj_struct__" in str(e.extra) + str(e.name):
            m = call_event(p, e.args[0])
            return None if m is not None else (UNKNOWN, "metadata from elsewhere")
    if any(e.kind == "call" and e.name in ("setattr", "__setattr__") for e in p.events):
        return (UNKNOWN, "metadata stored in another way")
    return "the metadata of the new class is not stored"


def made_at(p, t):
    return next((id(e.node) for e in p.events if e.kind == "alloc" and e.res == t), None)


def owned_lists(res):
    """Where the lists are made whose every element gets an owner."""
    good, bad = set(), set()
    for lb in res.lbs:
        l = current_loop(lb)
        b = strip_copy(l.base) if l.base is not None else None
        if b is None or b[0] != "new" or not l.iter:
            continue
        sets = [e for e in l.events() if e.kind == "setattr" and e.name == "__objclass__" and e.recv[0] in ("elem", "sub")]
        (good if sets else bad).add(made_at(lb, b))
    return good - bad - {None}


def owned(p, l, K, env, lists=()):
    els = l.elem()
    if not l.iter:
        return None
    sets = [e for e in l.events() if e.kind == "setattr" and e.name == "__objclass__"]
    isf = None
    for el in els:
        v = is_inst(p, el, env.FIELD)
        isf = v if v is not None else isf
    if sets:
        e = sets[-1]
        if e.args[0] != K:
            return "the owner of a field is not the class that declares it"
        return None
    if isf is True:
        if any(e.kind == "append" and e.args and e.args[0] in els and made_at(p, e.recv) in lists for e in l.events()):
            return None
        return "a field of the class body has no owner"
    return None


# ------------------------------------------------------------------ order
def in_order(p, l, K, is_dc):
    b = l.base
    t = strip_copy(b)
    if l.mode is not None and "rev" in str(l.mode):
        return "fields are taken in reverse order"
    for s in subterms(b):
        if s[0] == "app" and s[1] in ("sorted", "reversed", "set", "frozenset") or s[0] == "copy" and s[2] in ("sorted", "set"):
            return f"the order of the fields is that of {s[1] if s[0] == 'app' else s[2]}()"
        e = call_event(p, s) if s[0] == "res" else None
        if e is not None and e.name in ("sorted", "reversed", "set", "frozenset"):
            return f"the order of the fields is that of {e.name}()"
    if not is_dc:
        return None
    e = call_event(p, t)
    if e is not None and "get_type_hints" in str(e.name) + str(e.res):
        x = e.kw.get("include_extras", e.args[3] if len(e.args) > 3 else None)
        if x is None or x == C(False):
            return "typing.Annotated annotations are dropped"
        if not (e.args and e.args[0] == K or K in e.kw.values()):
            return (UNKNOWN, "annotations of something else")
        return None
    return (UNKNOWN, f"fields come from {show(b)}")


# ------------------------------------------------------------------ building fields
def produced(p, l, e):
    """Field terms a binding may stand for on this path."""
    f = e.recv
    if f[0] == "sub" and f[1][0] == "new" or f[0] == "elem" and f[1][0] == "new":
        return [x.args[-1] for x in p.events if x.kind == "append" and x.recv == f[1]]
    return [f]


def annotations(p, l):
    """Terms for a (possibly nested) annotation of the current name."""
    out = set(l.elem())
    for x in loops(p):
        if x.base is not None and any(mentions(x.base, el) for el in l.elem()) and \
                any(s[0] == "attr" and s[2] == "__metadata__" for s in subterms(x.base)):
            out |= x.elem()
            out.add(("elem", x.base, x.lid))
    return out


def type_args(p, anns):
    """{result of typing.get_args(annotation): annotation}"""
    out = {}
    for e in p.events:
        if e.kind == "call" and ("get_args" in str(e.name) or "get_args" in str(e.res)) and e.args and e.args[0] in anns:
            out[e.res] = e.args[0]
    for e in p.events:
        for a in list(e.args) + list(e.kw.values()):
            for s in subterms(a):
                if s[0] == "attr" and s[2] == "__args__" and s[1] in anns:
                    out[s] = s[1]
    return out


def origin_facts(p, a):
    """{union name: known truth of get_origin(a) is that union}"""
    out = {}
    res = [e.res for e in p.events if e.kind == "call" and "get_origin" in str(e.name) + str(e.res) and e.args and e.args[0] == a]
    for at, v in p.facts.atoms.items():
        if at[0] in ("eq", "is"):
            for x, y in ((at[1], at[2]), (at[2], at[1])):
                if y in res and x[0] == "ext":
                    n = norm_union(x[1])
                    if n:
                        out[n] = v
        elif at[0] in ("isinst",) and at[1] == a and norm_union(str(at[2]).replace("ext:", "")):
            out[norm_union(str(at[2]))] = v
    for y in res:
        c = p.facts.const_of(y)
        if c is not None and c[0] == "ext" and norm_union(c[1]):
            out[norm_union(c[1])] = True
    return out


def norm_union(n):
    n = str(n)
    if n in UNIONS:
        return n
    if n.endswith("UnionType"):
        return "types.UnionType"
    if n == "Union" or n.endswith("typing.Union"):
        return "typing.Union"
    return None


def core(p, l, T):
    """(annotation the type came from, reduced from a union?) or None"""
    anns = annotations(p, l)
    if T in anns:
        return T, False
    ta = type_args(p, anns)
    for s in subterms(T):
        if s in ta:
            return ta[s], True
    # an element of a tuple filtered from the arguments
    if T[0] in ("sub", "elem") and T[1][0] == "new":
        for x in p.events:
            if x.kind == "append" and x.recv == T[1] and x.args:
                c = core(p, l, x.args[-1])
                if c is not None:
                    return c[0], True
        for x in loops(p):
            if x.base in ta:
                return ta[x.base], True
        for x in p.events:
            if x.kind == "loop_begin" and x.recv in ta:
                return ta[x.recv], True
    return None


def type_of(f, p):
    """(kind, type term, name, default, null value, event) of a field built on this path."""
    e = call_event(p, f)
    if e is None:
        return None
    if e.kind == "construct" and str(e.extra or e.res[-1]).endswith("Nested") or "Nested" in str(e.res[-1]):
        return "nested", e.kw.get("struct_class", e.args[0] if e.args else None), e
    if e.kind == "call":
        c = callee(e)
        return "class", c, e
    if e.kind == "construct":
        return ("other", None, e) if e.recv is None or e.recv[0] == "cls" else ("class", e.recv, e)
    return None


def made(p, l, f, K, env):
    anns = annotations(p, l)
    c0 = core(p, l, f)
    if c0 is not None:
        v = is_inst(p, f, env.FIELD)
        if v is True:
            return None
        return (UNKNOWN, "a type that is not known to be a field is used directly")
    t = type_of(f, p)
    if t is None:
        return (UNKNOWN, f"field {show(f)}")
    kind, T, e = t
    if T is None:
        return (UNKNOWN, f"field {show(f)}")
    if e.kw.get("**") is not None:
        return (UNKNOWN, "further arguments")
    c = core(p, l, T)
    if c is None:
        return (UNKNOWN, f"type {show(T)}")
    A, was_union = c
    sub = p.facts.atoms.get(("issub", T, env.STRUCT))
    fld = p.facts.atoms.get(("issub", T, env.FIELD))
    if kind == "nested" and sub is not True:
        return "a type not known to be a struct is nested" if sub is False else (UNKNOWN, "not known to be a struct class")
    if kind == "class" and sub is True:
        return "a struct class is created instead of being nested"
    nm = e.kw.get("name")
    if nm is not None and nm not in l.key():
        return (UNKNOWN, f"name {show(nm)}")
    # default
    d = e.kw.get("default")
    got = {x.res for x in p.events if x.kind == "call" and x.name == "getattr" and x.recv == K and x.args and x.args[0] in l.key()}
    has = next((v for a, v in p.facts.atoms.items() if a[0] == "hasattr" and a[1] == K and a[2] in l.key()), None)
    if d is None:
        if has is False:
            pass
        elif has is None and any(x.name in ("get", "vars", "__dict__") for x in p.events if x.kind == "call"):
            return (UNKNOWN, "default not recognised")
        else:
            return "the class attribute is not used as the field's default"
    elif d in got:
        pass
    elif d == env.UNDEFINED:
        if has is not False:
            return "the class attribute is not used as the field's default" if not got or has is True else \
                (UNKNOWN, "default not followed")
    elif d[0] == "c":
        return f"the field's default is {show(d)}" if not any(same(p, d, g) for g in got) and has is not False else \
            f"the field's default is {show(d)} although none was given" if has is False else None
    else:
        return (UNKNOWN, f"default {show(d)}")
    extra = [k for k in e.kw if k not in ("name", "default", "null_value", "struct_class")]
    if extra:
        return (UNKNOWN, f"also passes {', '.join(map(str, extra))}")
    # nullability
    nv = e.kw.get("null_value")
    ta = type_args(p, anns)
    none = None
    for at, v in p.facts.atoms.items():
        if at[0] == "in" and at[2] in ta and ta[at[2]] == A and is_none_type(at[1]):
            none = v
    if none is None:
        none = searched(p, ta, A)
    if nv is None or nv == env.UNDEFINED:
        if none is True:
            return "an optional annotation makes a field that is not nullable"
        if none is None and was_union and asked_elsewhere(p, ta, A):
            return "whether None is among the types is asked of another annotation"
        if none is None and was_union:
            return "whether None is among the types is not asked" if not mentioned_none(p) else \
                (UNKNOWN, "nullability not recognised")
        return None
    if nv != env.DEFAULT:
        return f"the null value is {show(nv)} instead of DEFAULT" if nv[0] == "c" or nv[0] == "enum" else (UNKNOWN, f"null value {show(nv)}")
    if none is False:
        return "a field is nullable although its annotation is not optional"
    if none is None:
        return "a field is nullable whatever its annotation" if not mentioned_none(p) else (UNKNOWN, "nullability not recognised")
    return None


def is_none_type(t):
    return t == ("app", "type", NONE) or t[0] in ("ext", "cls") and str(t[1]).endswith("NoneType") or show(t) == "type(None)"


def asked_elsewhere(p, ta, A):
    """Was membership of None only asked of the arguments of another annotation than A?"""
    ats = [at for at, v in p.facts.atoms.items() if at[0] == "in" and is_none_type(at[1])]
    res = {e.res: e.args[0] for e in p.events if e.kind == "call" and "get_args" in str(e.name) + str(e.res) and e.args}
    return bool(ats) and all(at[2] in res and res[at[2]] != A for at in ats)


def none_tests(p, l):
    return [v for at, v in p.facts.atoms.items() if at[0] in ("is", "eq") and len(at) == 3 and
            (is_none_type(at[1]) and at[2] in l.elem() or is_none_type(at[2]) and at[1] in l.elem())]


def searched(p, ta, A):
    """Outcome of a loop looking for None among the arguments of A (any(t is type(None) for t in args))."""
    own = [l for l in loops(p) if l.base in ta and ta[l.base] == A]
    if any(l.how != "exhausted" and True in none_tests(p, l) for l in own):
        return True
    leave = None
    for l in own:
        if l.how == "exhausted":
            if leave is None:
                leave = leaving(p.result)
            if id(l.node) in leave:
                return False
    return None


def leaving(res):
    """Loops that are left when an element is found to be None."""
    got = getattr(res, "_c28_leaving", None)
    if got is None:
        got = set()
        for q in list(res.all):
            for l in loops(q):
                if l.how != "exhausted" and l.iter and True in none_tests(q, l) and l.base is not None and not (
                        q.kind == "loopback" and current_loop(q).lid == l.lid):
                    got.add(id(l.node))
        res._c28_leaving = got
    return got


def mentioned_none(p):
    return any(any(is_none_type(s) for s in subterms(x)) for a in p.facts.atoms for x in a[1:] if isinstance(x, tuple))


# ------------------------------------------------------------------ unions
def reduced(p, l, f, env):
    c = core(p, l, f)
    if c is None:
        t = type_of(f, p)
        c = core(p, l, t[1]) if t is not None and t[1] is not None else None
        if c is None:
            return False
    A, was = c
    of = origin_facts(p, A)
    if True in of.values() and not was:
        return "a union annotation is taken as it is"
    if was:
        if not single(p):
            return "a union of several types is accepted"
        if of and True not in of.values():
            return (UNKNOWN, "an argument of something else than a union")
    return None


def single(p):
    for t in list(p.facts.eqc) + [k[0] for k in p.facts.ivl if len(k) == 1]:
        x = t[0] if isinstance(t, tuple) and t and isinstance(t[0], tuple) else t
        if isinstance(x, tuple) and x and x[0] == "app" and x[1] == "len":
            if eq_fact(p, x, C(1)) is True or eq_fact(p, x, C(2)) is True:
                return True
    return False


# ------------------------------------------------------------------ one field per name
def alone(p, l, e):
    f = e.recv
    if f[0] in ("sub", "elem") and f[1][0] == "new":
        lst = f[1]
    else:
        lst = next((x.recv for x in p.events if x.kind == "append" and x.args and x.args[-1] == f and x.recv[0] == "new"), None)
        if lst is None:
            return (UNKNOWN, "where the field comes from is not known")
    for t in terms_len(p, lst):
        if eq_fact(p, t, C(1)) is True or fact_lin(p, t, "<=", C(1)) is True:
            return None
    return "the first of several field annotations is used"


def terms_len(p, lst):
    out = set()
    for t in list(p.facts.eqc) + list(p.facts.nec):
        if t[0] == "app" and t[1] == "len" and len(t) > 2 and t[2] == lst:
            out.add(t)
    for k in p.facts.ivl:
        for t, c in k:
            if isinstance(t, tuple) and t[0] == "app" and t[1] == "len" and len(t) > 2 and t[2] == lst:
                out.add(t)
    return out


def emptied(p):
    """Is a list that something was added to taken to be empty (the path cannot be run)?"""
    for e in p.events:
        if e.kind == "append" and e.recv is not None and e.recv[0] == "new":
            if any(eq_fact(p, t, C(0)) is True for t in terms_len(p, e.recv)) and \
                    not any(x.kind in ("mutcall", "delitem") and x.recv == e.recv for x in p.events):
                return True
    return False


def skipped(p, l, env):
    """No field is made for the current name."""
    if emptied(p):
        return False
    anns = annotations(p, l)
    inherited = any(a[0] == "in" and a[1] in l.key() and is_components(a[2]) and v for a, v in p.facts.atoms.items())
    looked = {e.args[0] for e in p.events if e.kind == "call" and "get_origin" in str(e.name) + str(e.res) and e.args
              and e.args[0] in anns}
    types = {a[1] for a in p.facts.atoms if a[0] in ("issub", "isinst") and a[1] is not None and core(p, l, a[1]) is not None}
    if not looked and not types:
        if any(x.kind == "loop_begin" and mentions(x.recv, el) for x in p.events if x.recv is not None for el in l.elem()):
            return False                # an annotation without any metadata
        if inherited:
            own = next((v for a, v in p.facts.atoms.items() if a[0] == "in" and a[1] in l.key()
                        and any(s == C("__annotations__") or s[0] == "attr" and s[2] == "__annotations__"
                                for s in subterms(a[2]))), None)
            if own is True:
                return "an inherited field that is annotated again is ignored"
            if own is None and any(a[0] in ("in", "hasattr") and C("__annotations__") in a and not v
                                   for a, v in p.facts.atoms.items()):
                return None
            if own is None and not any(mentions(x, k) for a in list(p.facts.atoms) + [("eq", t) for t in list(p.facts.eqc) + list(p.facts.nec)]
                                       for x in a[1:] if isinstance(x, tuple) for k in l.key()
                                       if not (a[0] == "in" and is_components(a[2]))):
                return "an inherited field is ignored without asking whether it is annotated again"
            if own is None:
                return (UNKNOWN, "whether the name is annotated again is not known")
            return None
        # no annotation was sampled (an empty Annotated)
        return None
    for T in types:
        ok = p.facts.atoms.get(("issub", T, env.FIELD)) is True or p.facts.atoms.get(("issub", T, env.STRUCT)) is True or \
            is_inst(p, T, env.FIELD) is True
        if ok:
            return "a field annotation is ignored"
        if is_inst(p, T, "type") is True and (p.facts.atoms.get(("issub", T, env.STRUCT)) is None or
                                              p.facts.atoms.get(("issub", T, env.FIELD)) is None):
            miss = "struct" if p.facts.atoms.get(("issub", T, env.STRUCT)) is None else "field"
            return f"a type is ignored without asking whether it is a {miss} class"
        if is_inst(p, T, "type") is False and is_inst(p, T, env.FIELD) is None:
            return "an annotation is ignored without asking whether it is a field"
    for A in anns & (looked | types):
        of = origin_facts(p, A)
        c = [core(p, l, T) for T in types]
        if any(x is not None and x[0] == A and x[1] for x in c):
            continue
        for n in UNIONS:
            if of.get(n) is None:
                what = "X | Y" if n == "types.UnionType" else "typing.Union"
                return f"an annotation is ignored without asking whether it is a union ({what})"
    return None


# ------------------------------------------------------------------ errors and bookkeeping
def reason(p, q, K, env, ITA, MIX, NDF, CFG):
    meta = ("attr", K, "__binobj_struct__")
    if q == MIX:
        n = ("attr", meta, "num_own_fields")
        if fact_lin(p, n, ">", C(0)) is True or eq_fact(p, n, C(0)) is False or tv(p, n) is True:
            return None
        if fact_lin(p, n, "<=", C(0)) is True or eq_fact(p, n, C(0)) is True:
            return "raised for a class without assigned fields"
        return (UNKNOWN, "raised for another reason")
    if q == NDF:
        if any(e.kind == "call" and e.name == "bind_to_container" for e in p.events):
            return "raised although a field was found"
        return None
    if q == CFG:
        for l in loops(p):
            for t in [t for e in p.events if e.kind == "append" for t in terms_len(p, e.recv)]:
                if fact_lin(p, t, "<=", C(1)) is True or eq_fact(p, t, C(1)) is True:
                    continue
                if fact_lin(p, t, ">", C(1)) is True:
                    return None
        ts = all_lens(p)
        if any(fact_lin(p, t, ">", C(1)) is True for t in ts):
            return None
        return (UNKNOWN, "raised for another reason")
    if q == ITA:
        u = any(at[0] in ("eq", "is") and v and any(x[0] == "ext" and norm_union(x[1]) for x in at[1:] if isinstance(x, tuple))
                for at, v in p.facts.atoms.items()) or any(v[0] == "ext" and norm_union(v[1]) for v in p.facts.eqc.values())
        if not u:
            asked = any(e.kind == "call" and "get_origin" in str(e.name) + str(e.res) for e in p.events)
            return "raised for an annotation that is not a union" if asked and all_false_unions(p) else \
                (UNKNOWN, "raised for another reason")
        ts = all_lens(p)
        if any(eq_fact(p, t, C(1)) is True for t in ts if t[2][0] == "new"):
            return "an optional annotation is rejected"
        raw = {e.res for e in p.events if e.kind == "call" and "get_args" in str(e.name) + str(e.res)}
        ts = [t for t in ts if not is_components(t[2])]
        if ts and all(t[2] in raw for t in ts) and not any(
                eq_fact(p, t, C(2)) is False or fact_lin(p, t, ">", C(2)) is True for t in ts) and any(
                at[0] == "in" and is_none_type(at[1]) and at[2] in raw and v for at, v in p.facts.atoms.items()) and any(
                eq_fact(p, t, C(1)) is False for t in ts):
            return "an optional annotation is rejected"
        return None
    return None


def all_false_unions(p):
    got = [v for at, v in p.facts.atoms.items() if at[0] in ("eq", "is") and
           any(x[0] == "ext" and norm_union(x[1]) for x in at[1:] if isinstance(x, tuple))]
    return bool(got) and not any(got)


def all_lens(p):
    out = set()
    for t in list(p.facts.eqc) + list(p.facts.nec):
        if t[0] == "app" and t[1] == "len" and len(t) > 2:
            out.add(t)
    for k in p.facts.ivl:
        for t, c in k:
            if isinstance(t, tuple) and t[0] == "app" and t[1] == "len" and len(t) > 2:
                out.add(t)
    return out


def recorded(p, M, res, env, is_dc=False):
    if p.kind != "return":
        return False
    v = final_attr(p, M, "num_own_fields")
    if v is None:
        return "the number of own fields is not recorded"
    if is_dc:
        n0 = ("attr", M, "num_own_fields")
        if not (fact_lin(p, n0, "<=", C(0)) is True or eq_fact(p, n0, C(0)) is True or tv(p, n0) is False):
            return "a class with assigned fields is accepted"
    bound = [e for e in p.events if e.kind == "call" and e.name == "bind_to_container"]
    parts, c = lin_parts(v)
    phis = [t for t in parts if t[0] == "phi"]
    if is_dc and not bound:
        zero = eq_fact(p, v, C(0))
        if zero is True or v == C(0):
            return "a class without field annotations is accepted"
        if zero is None and fact_lin(p, v, ">", C(0)) is not True:
            return "a class without field annotations is accepted" if len(parts) == 1 and phis else \
                (UNKNOWN, "number of fields not followed")
    if not phis:
        if not parts:
            if not bound and v == C(0):
                return None
            return f"the number of own fields is always {show(v)}"
        return (UNKNOWN, f"number of own fields {show(v)}")
    if len(phis) > 1 or parts[phis[0]] != 1:
        return (UNKNOWN, f"number of own fields {show(v)}")
    t = phis[0]
    init = (p.loopinfo.get(t[1], {}).get("inits") or {}).get(t[2])
    rest = lin_add(v, t, -1)
    if init is None:
        return (UNKNOWN, "counter not followed")
    want = C(1 if any(t[1] in e.loops for e in bound) else 0)
    # counters that start at the number of inherited fields are reduced by it
    total = lin_add(init, rest)
    if total == want:
        return None
    if any(x[0] == "app" and x[1] == "len" and owner_of(p, x[2], "components") is not None
           for x in lin_parts(total)[0]):
        return "inherited fields are counted as well"
    if is_num_const(total):
        return f"{show(total)} is recorded for {'one field' if want == C(1) else 'no field'}"
    return (UNKNOWN, f"number of own fields {show(v)}")
