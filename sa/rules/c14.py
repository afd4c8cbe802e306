"""C14: every advertised option value is implemented, everything else is rejected when the field is constructed."""
import ast

from .common import *

TECHNIQUE = "exhaustiveness analysis over AST paths: constructor acceptance sets per option, compared with the declared members"

TIDIES = ("lower", "upper", "casefold", "strip", "lstrip", "rstrip", "title", "capitalize", "swapcase", "replace",
          "removeprefix", "removesuffix")
RESOLUTIONS = ("s", "ms", "us", "ns")


def ctor_param(res, name):
    """Term of the constructor argument `name`, named or passed through **kwargs."""
    a = res.fi.node.args
    if name in {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs}:
        return ("p", name)
    if a.kwarg is not None:
        return ("kwget", ("p", a.kwarg.arg), name)
    return None


def enum_of(r, mod, name):
    from ..engine import Engine
    look = r.prog.lookup(mod, name)
    if not look or look[0] != "cls":
        raise AnalysisBroken(f"public enumeration {mod}.{name} not found")
    e = Engine(r.prog)
    ms = e.enum_members(look[1])
    if not ms:
        raise AnalysisBroken(f"{mod}.{name} has no members")
    return look[1], [("enum", look[1], m) for m in ms]


def accepted(res, t):
    """{constant value of t} over the returning paths, plus the paths on which t is not pinned to a constant."""
    vals, loose = {}, []
    for p in res.returns():
        c = p.facts.const_of(t)
        if c is None:
            loose.append(p)
        else:
            vals.setdefault(c, []).append(p)
    return vals, loose


def declared_default(res, name, value):
    """Is `value` what the option is when it is left out (or can that not be told here)?"""
    if value != NONE:
        return False
    a = res.fi.node.args
    for x, d in list(zip(a.kwonlyargs, a.kw_defaults)) + list(zip(reversed(a.posonlyargs + a.args), reversed(a.defaults))):
        if x.arg == name:
            return d is not None and isinstance(d, ast.Constant) and d.value is None
    return name not in {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}


def ctor(r, env, cls):
    return r.run(env.func(cls, "__init__"), cls)


def check(r):
    env = Env(r.prog)
    vli = r.rule("R1 integer encodings", "VariableLengthInteger accepts every member of VarIntEncoding, each with an encoder "
                 "and a decoder of its own, and a constructor that returns has established that the argument is a member.")
    uu = r.rule("R2 UUID formats", "UUID4 accepts every member of UUIDFormat, each has a loading and a dumping path of its "
                "own, and a constructor that returns has established that the argument is a member.")
    res_ = r.rule("R3 resolutions", "Timestamp accepts exactly the documented resolutions, each with its own time unit.")
    end = r.rule("R4 float byte order", "Float accepts exactly 'big' and 'little' (or none given), each with its own format.")
    pad = r.rule("R5 pad byte", "A String constructor that returns has established that the pad byte is None or one byte.")
    cnt = r.rule("R6 array count", "An Array constructor that returns has established that count is None, an integer (not a "
                 "bool), a name or a field.")
    uni = r.rule("R7 union members", "A Union constructor that returns has examined every member and found no field class.")
    dfl = r.rule("R8 default or factory", "No field constructor returns when both default and factory were given.")

    encodings(r, env, vli)
    uuids(r, env, uu)
    resolutions(r, env, res_)
    floats(r, env, end)

    done = set()
    for cls in [env.field("String")] + sorted(r.prog.subclasses.get(env.field("String"), ())):
        fi = env.func(cls, "__init__")
        if (fi.qual, cls) in done:
            continue
        done.add((fi.qual, cls))
        res = r.run(fi, cls)
        r.each(pad, f"{fi.qual} [{short(cls)}]", res, lambda p: padding(p, res), paths=res.returns() if res else None)

    A = env.field("Array")
    res = ctor(r, env, A)
    r.each(cnt, res.entry if res else "Array", res, lambda p: count_ok(p, res, env), paths=res.returns() if res else None)
    if res is not None:
        for kind in ("None", "int", "str", "Field"):
            c = ctor_param(res, "count")
            ok = any(isc(p, c, NONE) if kind == "None" else
                     is_inst(p, c, env.FIELD if kind == "Field" else kind) for p in res.returns())
            r.verdict(cnt, f"{res.entry} accepts {kind}", None if ok else
                      (UNKNOWN, f"no returning path established that count is {kind}"))

    res = ctor(r, env, env.field("Union"))
    r.each(uni, res.entry if res else "Union", res, lambda p: members_ok(p, res, env), paths=res.returns() if res else None)

    for cls in env.field_classes():
        fi = env.func(cls, "__init__")
        if fi.cls.qual != cls:
            continue
        res = r.run(fi, cls)
        r.each(dfl, f"{fi.qual}", res, lambda p: default_or_factory(p, res, env), paths=res.returns() if res else None)


def encodings(r, env, rule):
    V = env.field("VariableLengthInteger")
    _, members = enum_of(r, "binobj.varints", "VarIntEncoding")
    res = ctor(r, env, V)
    if res is None:
        return r.unknown(rule, "VariableLengthInteger", "constructor not analysable")
    t = ctor_param(res, "vli_format")
    vals, loose = accepted(res, t)
    r.verdict(rule, f"{res.entry} rejects others", "a value that was not checked against the encodings is accepted"
              if loose else None, loose[0] if loose else None)
    for c in vals:
        if c not in members:
            r.bad(rule, f"{res.entry} rejects others", f"{show(c)} is accepted but is not an encoding", vals[c][0])
    encs, decs = {}, {}
    for m in members:
        tag = f"{res.entry} {show(m)}"
        if m not in vals:
            r.bad(rule, tag, f"{show(m)} is never accepted")
            continue
        E = {final_attr(p, res.self, "_encode_integer_fn") for p in vals[m]}
        D = {final_attr(p, res.self, "_decode_integer_fn") for p in vals[m]}
        if None in E | D or any(x[0] != "fn" for x in E | D):
            r.unknown(rule, tag, "codec functions not resolved")
            continue
        msg = None
        if len(E) != 1 or len(D) != 1:
            msg = "more than one codec function is used for it"
        else:
            e, d = E.pop(), D.pop()
            if e in encs:
                msg = f"{show(m)} and {show(encs[e])} share the encoder {show(e)}"
            elif d in decs:
                msg = f"{show(m)} and {show(decs[d])} share the decoder {show(d)}"
            encs[e], decs[d] = m, m
        r.verdict(rule, tag, msg)


def uuids(r, env, rule):
    U = env.field("UUID4")
    _, members = enum_of(r, "binobj.fields.stringlike", "UUIDFormat")
    res = ctor(r, env, U)
    if res is None:
        return r.unknown(rule, "UUID4", "constructor not analysable")
    t = ctor_param(res, "stored_as")
    vals, loose = accepted(res, t)
    r.verdict(rule, f"{res.entry} rejects others", "a value that was not checked against the formats is accepted"
              if loose else None, loose[0] if loose else None)
    for c in vals:
        if c not in members and not declared_default(res, "stored_as", c):
            r.bad(rule, f"{res.entry} rejects others", f"{show(c)} is accepted but is not a format", vals[c][0])
    for m in members:
        tag = f"{res.entry} {show(m)}"
        if m not in vals:
            r.bad(rule, tag, f"{show(m)} is never accepted")
            continue
        r.verdict(rule, tag, None if all(final_attr(p, res.self, "stored_as") in (m, t) for p in vals[m])
                  else (UNKNOWN, "stored_as is not recorded as given"))
    for name in ("_do_load", "_do_dump"):
        fi = env.func(U, name)
        res = r.run(fi, U)
        if res is None:
            r.unknown(rule, fi.qual, "not analysable")
            continue
        stored = ("attr", res.self, "stored_as")
        for m in members:
            ps = [p for p in res.returns() if isc(p, stored, m) is not False]
            r.verdict(rule, f"{res.entry} {show(m)}", None if ps else f"no path of {name} handles {show(m)}")


def resolutions(r, env, rule):
    for cls in [env.field("Timestamp")] + sorted(r.prog.subclasses.get(env.field("Timestamp"), ())):
        fi = env.func(cls, "__init__")
        res = r.run(fi, cls)
        if res is None:
            r.unknown(rule, fi.qual, "not analysable")
            continue
        t = ctor_param(res, "resolution")
        vals, loose = accepted(res, t)
        # an argument left out takes the declared default, which is pinned on the path of its own
        r.verdict(rule, f"{res.entry} rejects others", "a resolution that was not checked is accepted" if loose else None,
                  loose[0] if loose else None)
        if NONE in vals and not declared_default(res, "resolution", NONE):
            r.bad(rule, f"{res.entry} rejects others", "None is accepted as the resolution", vals[NONE][0])
        units = {}
        for v in RESOLUTIONS:
            tag = f"{res.entry} {v!r}"
            if C(v) not in vals:
                r.bad(rule, tag, f"the resolution {v!r} is not accepted")
                continue
            us = {final_attr(p, res.self, "_units") for p in vals[C(v)]}
            if None in us or any(u[0] != "c" for u in us):
                r.unknown(rule, tag, "the time unit is not a known constant")
                continue
            u = us.pop()
            msg = None
            if us:
                msg = "more than one time unit is used for it"
            elif u[2] in units:
                msg = f"{v!r} has the same time unit as {units[u[2]]!r}"
            units[u[2]] = v
            r.verdict(rule, tag, msg)


def floats(r, env, rule):
    for cls in [env.field("Float")] + sorted(r.prog.subclasses.get(env.field("Float"), ())):
        fi = env.func(cls, "__init__")
        res = r.run(fi, cls)
        if res is None:
            r.unknown(rule, fi.qual, "not analysable")
            continue
        seen = {}
        for p in res.returns():
            e = final_attr(p, res.self, "endian")
            f = final_attr(p, res.self, "format_string")
            c = p.facts.const_of(e) if e is not None else None
            if c is None or c[2] not in ("big", "little"):
                r.bad(rule, f"{res.entry} rejects others", f"a byte order {show(c) if c else 'that was not checked'} is "
                      "accepted", p)
                continue
            o = call_event(p, e)
            t = ctor_param(res, "endian")
            if o is not None and o.kind == "call" and t is not None and o.name in TIDIES and o.recv is not None and \
                    mentions(o.recv, t) and tv(p, t) is not False:
                r.bad(rule, f"{res.entry} rejects others", f"any byte order that {o.name}() turns into {c[2]!r} is accepted", p)
                continue
            r.ok(rule, f"{res.entry} rejects others")
            seen.setdefault(c[2], set()).add(f)
        for v in ("big", "little"):
            r.verdict(rule, f"{res.entry} {v!r}", None if v in seen else f"the byte order {v!r} is not accepted")
        if len(seen) == 2 and seen["big"] & seen["little"]:
            r.bad(rule, f"{res.entry} 'big'", "both byte orders use the same struct format")


def padding(p, res):
    t = ctor_param(res, "pad_byte")
    if isc(p, t, NONE):
        return None
    if not any(is_inst(p, t, k) for k in ("bytes", "bytearray", "memoryview")):
        c = p.facts.const_of(t)
        if c is not None and c[0] == "c" and isinstance(c[2], (bytes, bytearray)) and len(c[2]) == 1:
            return None
        return "a pad byte that is not a byte string is accepted"
    if fact_lin(p, ("app", "len", t), "==", C(1)) is not True:
        return "a pad byte that is not exactly one byte long is accepted"
    return None


def count_ok(p, res, env):
    t = ctor_param(res, "count")
    if isc(p, t, NONE):
        return None
    if is_inst(p, t, "str") or is_inst(p, t, env.FIELD):
        return None
    if is_inst(p, t, "int"):
        return None if is_inst(p, t, "bool") is False else "a bool is accepted as the count"
    return "a count that is neither an integer, a name nor a field is accepted"


def members_ok(p, res, env):
    ch = ("p", res.fi.node.args.vararg.arg) if res.fi.node.args.vararg else ctor_param(res, "choices")
    if ch is None:
        return (UNKNOWN, "no parameter with the members")
    ls = [l for l in loops(p, lambda b: strip_copy(b) == ch)]
    if not ls:
        if fact_lin(p, ("app", "len", ch), "==", C(0)):
            return None
        return "the members are never examined"
    why = "the members are not examined completely"
    for l in ls:
        if not l.full:
            continue
        if not l.iter:
            return None
        els = l.elem()
        if any(is_inst(p, el, "type") is False or p.facts.atoms.get(("issub", el, env.FIELD)) is False or
               is_inst(p, el, env.FIELD) for el in els):
            return None
        why = "a field class is accepted as a union member"
    return why


def default_or_factory(p, res, env):
    f, d = ctor_param(res, "factory"), ctor_param(res, "default")
    if f is None or d is None:
        return (UNKNOWN, "default/factory are not accepted by this constructor")
    if isc(p, f, NONE) or tv(p, f) is False or isc(p, d, env.UNDEFINED):
        return None
    return "default and factory are both accepted"
