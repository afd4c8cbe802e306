"""C19: struct-level argument defaults fill only what was not given explicitly."""
import ast

from .common import *
from .c16 import keyset

TECHNIQUE = "path-sensitive dataflow: precedence of the membership tests guarding every attribute write made while binding"

FIXED = ("name", "index", "offset")


def class_const(prog, cq, name):
    """Literal value of a class attribute, through the MRO."""
    for k in prog.classes[cq].mro:
        ci = prog.classes.get(k)
        if ci is None:
            continue
        for n in ci.node.body:
            t = n.target if isinstance(n, ast.AnnAssign) else n.targets[0] if isinstance(n, ast.Assign) else None
            if isinstance(t, ast.Name) and t.id == name and n.value is not None:
                v = n.value
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("frozenset", "tuple", "set", "list"):
                    if not v.args:
                        return ()
                    v = v.args[0]
                try:
                    return tuple(ast.literal_eval(v))
                except Exception:
                    return None
    return ()


def flat(t):
    """Concatenation of strings as a list of parts, constants merged."""
    out = []

    def go(x):
        if x[0] == "op" and x[1] == "+" and len(x) == 4:
            go(x[2]); go(x[3])
        elif x[0] == "fstr":
            for y in x[1]:
                go(y)
        elif x[0] == "app" and x[1] == "str" and len(x) == 3:
            go(x[2])
        elif x[0] == "c" and isinstance(x[2], str) and out and isinstance(out[-1], str):
            out[-1] += x[2]
        elif x[0] == "c" and isinstance(x[2], str):
            out.append(x[2])
        else:
            out.append(x)
    go(t)
    return out


OTHER = "another_option"


def check(r):
    env = Env(r.prog)
    prec = r.rule("R1 precedence", "While a field is bound, each overrideable attribute is written only if it was not passed "
                  "explicitly: with the struct default qualified by the field's class name if there is one, otherwise with the "
                  "unqualified one, and not at all if there is neither.")
    only = r.rule("R2 nothing else", "Binding writes no attribute of the field other than its name, index, offset and the "
                  "overrideable ones.")
    expl = r.rule("R3 explicit arguments", "A new field records the names of exactly the keyword arguments it was created with, "
                  "and overrideable attributes can only be given as keywords.")
    meta = r.rule("R4 inherited options", "A class's argument defaults are those of its Meta, looked up through inheritance, and "
                  "are in place before any field is bound.")
    n = 0
    for cq in env.field_classes():
        names = class_const(r.prog, cq, "__overrideable_attributes__")
        fi = r.prog.find_method(cq, "bind_to_container")
        tag = f"{fi.qual} [{short(cq)}]"
        if names is None:
            r.unknown(prec, tag, "__overrideable_attributes__ is not a literal")
            continue
        res = r.run(fi, cq)
        if names:
            n += 1
            for a in names:
                r.each(prec, f"{tag} {a}", res, lambda p: precedence(p, res, a, env.UNDEFINED), need=3)
                r.verdict(expl, f"{short(cq)} {a} keyword-only", keyword_only(r, cq, a))
            # a field type of the user's may allow more than one option
            two = tuple(names) + (OTHER,)
            res2 = r.run(fi, cq, assume=(("__overrideable_attributes__", two),))
            for a in two:
                r.each(prec, f"{tag} {a} of {len(two)}", res2, lambda p: precedence(p, res2, a, env.UNDEFINED), need=3)
        r.each(only, tag, res, lambda p: nothing_else(p, res, names), paths=res.all if res else None)
        nw = r.prog.find_method(cq, "__new__")
        if nw is None:
            r.bad(expl, f"{short(cq)}.__new__", "explicit arguments are not recorded")
        else:
            res2 = r.run(nw, cq)
            r.each(expl, f"{nw.qual} [{short(cq)}]", res2, lambda p: recorded(p, nw))
    if not n:
        r.unknown(prec, "field classes", "no field class allows any default")
    fc = env.func(env.META, "from_class")
    res = r.run(fc, env.META)
    r.each(meta, fc.qual, res, lambda p: options(p, res.p(1)), need=2)


def keyword_only(r, cq, a):
    fi = r.prog.find_method(cq, "__init__")
    for k in r.prog.classes[cq].mro:
        ci = r.prog.classes.get(k)
        f = ci.methods.get("__init__") if ci else None
        if f is None:
            continue
        ar = f.node.args
        if a in [x.arg for x in ar.posonlyargs + ar.args]:
            return f"{f.qual} takes {a} positionally, so it is not seen as explicit"
        if ar.vararg is not None:
            return (UNKNOWN, f"{f.qual} takes *{ar.vararg.arg}")
    return None


def key_kind(t, S, a):
    """'typed', 'generic' or None"""
    if t == C(a):
        return "generic"
    ps = flat(t)
    if len(ps) == 2 and ps[1] == "__" + a:
        n = ps[0]
        if n[0] == "attr" and n[2] == "__name__" and n[1] in (("app", "type", S), ("attr", S, "__class__")):
            return "typed"
        if n[0] == "attr" and n[2] == "__qualname__":
            return "qualname"
    if len(ps) == 1 and isinstance(ps[0], str) and ps[0].endswith("__" + a):
        return "base:" + ps[0]
    return None


def foreign_class(t, S, a):
    """The class, other than the field's own, whose name qualifies the default."""
    ps = flat(t)
    if len(ps) == 2 and ps[1] == "__" + a and isinstance(ps[0], tuple) and ps[0][0] == "attr" and ps[0][2] == "__name__":
        c = ps[0][1]
        if c[0] == "elem" and any(x[0] == "attr" and x[2] in ("__mro__", "__bases__") or x[0] == "app" and x[1] == "mro"
                                  for x in subterms(c)):
            return c
    return None


def is_defaults(t, res):
    t = keyset(t) if t is not None else None
    return t is not None and t[0] == "attr" and t[2] == "argument_defaults"


def precedence(p, res, a, U):
    if p.kind != "return":
        return False
    S = res.self
    ex = ty = ge = None
    odd = None
    for at, v in p.facts.atoms.items():
        if at[0] != "in":
            continue
        c = at[2]
        if is_defaults(c, res) and key_kind(at[1], S, a) is None and at[1][0] != "c":
            odd = at[1]
        if at[1] == C(a) and c == ("attr", S, "__explicit_init_args__"):
            ex = v
        elif is_defaults(c, res):
            k = key_kind(at[1], S, a)
            if k == "typed":
                ty = v
            elif k == "generic":
                ge = v
    sets = [e for e in p.events if e.kind == "setattr" and e.recv == S and (e.name == a or e.extra == C(a))]
    if not sets:
        if ex is True:
            return None
        # looked up with a sentinel as the default, and the sentinel came back
        if any(t[0] == "sub" and is_defaults(t[1], res) and vs == U for t, vs in p.facts.eqc.items()):
            return None
        if ty is True:
            return "the struct default for this field type is not applied"
        if ge is True:
            return "the struct default is not applied"
        if ty is False and ge is False:
            return None
        if odd is not None:
            return (UNKNOWN, f"the defaults are searched for {show(odd)}")
        gets = [e for e in p.events if e.kind == "call" and e.name == "get" and is_defaults(e.recv, res)]
        if gets:
            return (UNKNOWN, "defaults are looked up with get()")
        if ex is False:
            return f"the {'typed' if ty is None else 'generic'} struct default is never looked up"
        return "neither the explicit arguments nor the struct defaults are consulted"
    v = sets[-1].args[0]
    if ex is True:
        return "an explicitly given argument is overridden"
    if ex is None:
        if any(t[0] == "attr" and t[1] == S and t[2] == a for t in list(p.facts.eqc) + list(p.facts.nec)):
            return "whether the argument was explicit is guessed from its value"
        return "an argument is overridden without checking whether it was explicit"
    if v[0] == "sub" and is_defaults(v[1], res):
        k = key_kind(v[2], S, a)
        if k == "typed":
            return None
        if k == "generic":
            if ty is False:
                return None
            return "the generic default wins over the one for the field type" if ty is True else \
                "the generic default is used without looking for one for the field type"
        cls = foreign_class(v[2], S, a)
        if cls is not None:
            return f"the default for {show(cls)} is used, which need not be the field's own class"
        return f"the default {show(v[2])} is used" if k or v[2][0] == "c" else (UNKNOWN, f"the default {show(v[2])} is used")
    if v[0] == "c" or v[0] == "attr" and v[1] == S:
        return f"{a} is set to {show(v)}"
    return (UNKNOWN, f"{a} is set to {show(v)}")


def nothing_else(p, res, names):
    S = res.self
    for e in p.events:
        if e.kind != "setattr" or e.recv is None:
            continue
        if e.recv != S:
            continue
        nm = e.name or (e.extra[2] if isinstance(e.extra, tuple) and e.extra and e.extra[0] == "c" else None)
        if nm is None:
            return (UNKNOWN, f"writes the attribute {show(e.extra) if isinstance(e.extra, tuple) else '?'}")
        if nm not in FIXED and nm not in names:
            if nm.startswith("_") and nm not in ("_size", "_default", "_compute_fn", "__explicit_init_args__", "__objclass__"):
                return (UNKNOWN, f"writes {nm}")
            return f"binding writes {nm}"
    return None


def recorded(p, fi):
    if p.kind != "return":
        return False
    kw = fi.node.args.kwarg
    if kw is None:
        return "__new__ takes no keyword arguments to record"
    v = final_attr(p, p.value, "__explicit_init_args__")
    if v is None:
        return "explicit arguments are not recorded"
    k = keyset(v)
    if k is not None and k[0] == "kwd" and k[1] == () and k[2] == ("p", kw.arg):
        return None
    if v[0] == "c" or k is not None and k[0] in ("c", "tup"):
        return f"records {show(v)} as explicit arguments"
    if k is not None and k[0] == "new":
        st = [e for e in p.events if e.recv == k and e.kind in ("append", "setitem", "update")]
        if not st and not any(e.kind == "loop_begin" and mentions(e.recv, ("p", kw.arg)) for e in p.events if e.recv):
            return "records no explicit arguments"
        if any(e.kind == "update" and e.args and keyset(e.args[0]) is not None and keyset(e.args[0])[0] == "kwd" for e in st):
            return None
        ls = [l for l in loops(p) if l.base is not None and mentions(l.base, ("p", kw.arg))]
        if ls and all(l.full for l in ls):
            for l in ls:
                if l.iter and not any(e.kind in ("append", "setitem") for e in l.events()):
                    return "some explicit arguments are not recorded"
            return None
    return (UNKNOWN, f"records {show(v)}")


def options(p, K):
    if p.kind != "return":
        return False
    M = p.value
    M_ = ("attr", K, "Meta")
    v = final_attr(p, M, "argument_defaults")
    has = p.facts.atoms.get(("hasattr", K, C("Meta")))
    hasad = p.facts.atoms.get(("hasattr", M_, C("argument_defaults")))
    first = next((i for i, e in enumerate(p.events) if e.kind == "call" and e.name == "bind_to_container"), None)
    for i, e in enumerate(p.events):
        if first is not None and i > first and (e.kind == "setattr" and e.name == "argument_defaults" and e.recv == M or
                                                e.kind in ("update", "setitem") and e.recv == v):
            return "the defaults are set after fields have been bound"
    if v is None:
        return (UNKNOWN, "argument_defaults not followed")
    src = source(p, v)
    if src == ("attr", M_, "argument_defaults"):
        return None
    if src is not None and src[0] == "res":
        e = call_event(p, src)
        if e is not None and e.name == "getattr" and mentions(e.recv or NONE, M_):
            return None
    own = any(a[0] == "in" and a[1] == C("Meta") for a in p.facts.atoms)
    if src is not None and any(s == ("app", "vars", K) or s == ("attr", K, "__dict__") for s in subterms(src)) or own and has is None:
        return "only a Meta defined in the class itself is used"
    if src is None:
        if has is False or hasad is False:
            return None
        # decided by comparing the looked-up value
        if any(isc(p, t, NONE) is True or tv(p, t) is False for t in [M_, ("attr", M_, "argument_defaults")]):
            return None
        if has is None:
            return "Meta is never looked at"
        return "the defaults given in Meta are not used"
    return (UNKNOWN, f"argument_defaults is {show(v)}")


def source(p, v):
    """What the mapping v was copied from (None: empty)."""
    for _ in range(8):
        if v[0] == "copy":
            v = v[3]
        elif v[0] == "app" and v[1] in ("dict",) and len(v) >= 3:
            v = v[2]
        elif v[0] == "view":
            v = v[2]
        elif v[0] == "new":
            got = []
            for e in p.events:
                if e.recv == v and e.kind == "update":
                    got += list(e.args)
                elif e.res == v and e.kind == "alloc" and e.args:
                    got += list(e.args)
                elif e.recv == v and e.kind == "setitem":
                    l = next((x for x in loops(p) if x.lid in e.loops), None)
                    got.append(l.base if l is not None and l.base is not None else e.args[1])
            got = [g for g in got if g[0] not in ("c",)]
            if not got:
                ls = [l for l in loops(p) if l.base is not None and attr_named(strip_copy(l.base), "argument_defaults")]
                return strip_copy(ls[0].base) if ls else None
            v = got[0]
        else:
            return v
    return v
