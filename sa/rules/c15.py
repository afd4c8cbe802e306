"""C15: loading and dumping use the same, configured, format parameters."""
from .common import *
from .c14 import ctor_param, enum_of

TECHNIQUE = "sibling-cross-check dataflow: provenance of every format parameter at decode and encode sites vs the constructor"

UNITS = {"s": 1, "ms": 1e3, "us": 1e6, "ns": 1e9}
TEXT_CODECS = ("ascii", "us-ascii", "utf-8", "utf8", "latin-1", "iso-8859-1", "latin1")
VLI_TRAITS = {"COMPACT_INDICES": ("big", True), "VLQ": ("big", False), "LEB128": ("little", True),
              "ULEB128": ("little", False)}
BITS = {"Int8": 8, "Int16": 16, "Int32": 32, "Int64": 64, "UInt8": 8, "UInt16": 16, "UInt32": 32, "UInt64": 64,
        "Float16": 16, "Float32": 32, "Float64": 64, "Timestamp32": 32, "Timestamp64": 64}
FLOATS = {16: "e", 32: "f", 64: "d"}
DECODERS = {"decode": 0, "codecs.decode": 1, "codecs.iterdecode": 1, "codecs.getincrementaldecoder": 0}
ENCODERS = {"encode": 0, "codecs.encode": 1, "codecs.iterencode": 1, "codecs.getincrementalencoder": 0}


def self_attr(t, S):
    return t[2] if t is not None and t[0] == "attr" and t[1] == S else None


def finals(r, env, cls, name):
    """(result, [(path, final value of the attribute)]) over the returning constructor paths of cls."""
    res = r.run(env.func(cls, "__init__"), cls)
    if res is None:
        return None, []
    return res, [(p, final_attr(p, res.self, name)) for p in res.returns()]


def conv_args(e, kinds):
    """(order, signed) of an int conversion call."""
    if e.name == "int.from_bytes":
        o, s = arg(e, "byteorder", 1), e.kw.get("signed")
    else:
        o, s = arg(e, "byteorder", 1), e.kw.get("signed")
    return o if o is not None else C("big"), s if s is not None else FALSE


def int_sigs(res, name):
    """{(order term, signed term)} with one path as witness."""
    out = {}
    for p in res.all:
        for e in p.events:
            if e.kind == "call" and e.name == name:
                out.setdefault(conv_args(e, name), (p, e))
    return out


def hard(t):
    """Is t a value whose origin the analysis knows completely?"""
    return t is not None and not any(s[0] in ("res", "unk", "phi", "elem", "app") for s in subterms(t))


def native(t):
    return t == ("ext", "sys.byteorder")


def check(r):
    env = Env(r.prog)
    ints = r.rule("R1 integers", "The byte order and signedness given to every integer conversion of a field are read from the "
                  "same attributes when loading and dumping, and those attributes hold the constructor's arguments (the "
                  "native byte order if none was given).")
    wid = r.rule("R2 named types", "The types with a width in their name are constructed with that width, and the unsigned "
                 "ones as unsigned.")
    flt = r.rule("R3 floats", "Float packs and unpacks with the same attribute, which holds the byte-order mark of the "
                 "configured byte order followed by the configured format character.")
    txt = r.rule("R4 text", "Strings are encoded and decoded strictly with the same attribute, which holds the configured encoding.")
    uid = r.rule("R5 UUID layouts", "For every storage format the loader parses the layout the dumper writes, the layout is the "
                 "documented one and its size the declared one.")
    tim = r.rule("R6 time units", "Timestamps are divided when loading by the same unit they are multiplied with when dumping, "
                 "which is the configured resolution's, and are zone-aware exactly when configured so.")
    vli = r.rule("R7 variable-length codecs", "The encoder and decoder a variable-length integer uses are those of the configured "
                 "encoding, with the encoding's documented byte order and signedness.")

    for cls in env.field_classes():
        if cls == env.FIELD:
            continue
        ld, dp = env.func(cls, "_do_load"), env.func(cls, "_do_dump")
        owner = short(cls)
        L_, D_ = r.run(ld, cls), r.run(dp, cls)
        if L_ is None or D_ is None:
            r.unknown(ints, owner, "not analysable")
            continue
        a, b = int_sigs(L_, "int.from_bytes"), int_sigs(D_, "to_bytes")
        if a or b:
            integer(r, env, ints, cls, L_, D_, a, b)
    named(r, env, wid)
    F = env.field("Float")
    for cls in [F] + sorted(r.prog.subclasses.get(F, ())):
        floats(r, env, flt, cls)
    S = env.field("String")
    for cls in [S] + sorted(r.prog.subclasses.get(S, ())):
        text(r, env, txt, cls)
    uuids(r, env, uid)
    T = env.field("Timestamp")
    for cls in [T] + sorted(r.prog.subclasses.get(T, ())):
        times(r, env, tim, cls)
    varints(r, env, vli)


# ------------------------------------------------------------------ integers
def integer(r, env, rule, cls, L_, D_, a, b):
    tag = short(cls)
    if not a or not b:
        r.unknown(rule, f"{tag} conversions", "no integer conversion found on the loading or on the dumping side")
        return
    attrs = {"order": set(), "signed": set()}
    for side, sigs, res in (("loading", a, L_), ("dumping", b, D_)):
        for (o, s), (p, e) in sigs.items():
            if not native(o):
                n = self_attr(o, res.self)
                if n is None:
                    r.add(rule, f"{tag} {side} byte order", VIOL if hard(o) else UNKNOWN,
                          f"the byte order is {show(o)}, not the configured one", p, e)
                else:
                    attrs["order"].add(n)
                    r.ok(rule, f"{tag} {side} byte order")
            n = self_attr(s, res.self)
            if n is None:
                r.add(rule, f"{tag} {side} signedness", VIOL if hard(s) else UNKNOWN,
                      f"the signedness is {show(s)}, not the configured one", p, e)
            else:
                attrs["signed"].add(n)
                r.ok(rule, f"{tag} {side} signedness")
        for p in res.all:
            for e in p.events:
                if e.kind == "call" and e.name in ("int.from_bytes", "to_bytes"):
                    o, s = conv_args(e, e.name)
                    if native(o):
                        # native order only when nothing is configured
                        r.verdict(rule, f"{tag} {side} native order", None if any(
                            tv(p, ("attr", res.self, n)) is False or isc(p, ("attr", res.self, n), NONE)
                            for n in ("endian",) + tuple(attrs["order"]))
                            else "the machine's byte order is used although one is configured", p, e)
    for what, names in attrs.items():
        if len(names) > 1:
            r.bad(rule, f"{tag} same {what}", f"loading and dumping read different attributes: {', '.join(sorted(names))}")
        elif names:
            r.ok(rule, f"{tag} same {what}")
    vl = env.field("VariableLengthInteger")
    if cls == vl or r.prog.is_subclass(cls, vl):
        return
    for n in attrs["order"]:
        res, fs = finals(r, env, cls, n)
        r.each(rule, f"{tag}.{n} configured", res, lambda p: order_value(p, res, n), paths=res.returns() if res else None)
    for n in attrs["signed"]:
        res, fs = finals(r, env, cls, n)
        if cls.split(".")[-1].startswith("U"):
            continue
        r.each(rule, f"{tag}.{n} configured", res, lambda p: attr_is(p, res, n, "signed"),
               paths=res.returns() if res else None)


def order_value(p, res, n):
    v = final_attr(p, res.self, n)
    t = ctor_param(res, "endian")
    if v is None:
        return f"{n} is not set"
    if same(p, v, t):
        return None
    if native(v) or native(resolve(p, v)):
        return None if tv(p, t) is False or isc(p, t, NONE) else "the byte order given is replaced by the machine's"
    m = f"{n} is set to {show(v)} instead of the byte order given"
    return m if hard(v) else (UNKNOWN, m)


def attr_is(p, res, n, param):
    v, t = final_attr(p, res.self, n), ctor_param(res, param)
    if v is None:
        return f"{n} is not set"
    if t is not None and same(p, v, t):
        return None
    if v[0] == "app" and v[1] == "bool" and v[2] == t:
        return None
    if tv(p, v) is not None and tv(p, v) == tv(p, t):
        return None
    m = f"{n} is set to {show(v)} instead of the {param} given"
    return m if hard(v) else (UNKNOWN, m)


def named(r, env, rule):
    for name, bits in BITS.items():
        cls = env.field(name)
        res, fs = finals(r, env, cls, "_size")
        if res is None:
            r.unknown(rule, name, "constructor not analysable")
            continue
        for p, v in fs:
            c = resolve(p, v) if v is not None else None
            if c is not None and c[0] == "app" and c[1] == "struct.calcsize":
                f = c[2]
                ok = f[0] == "c" and str(f[2]).lstrip("<>=!@") == FLOATS[bits]
                r.verdict(rule, f"{name} width", None if ok else f"the float format is {show(f)}", p)
                continue
            if c is None or c[0] != "c":
                r.unknown(rule, f"{name} width", f"size is {show(c) if c else None}")
                continue
            r.verdict(rule, f"{name} width", None if c[2] == bits // 8 else f"a {bits}-bit type takes {c[2]} bytes", p)
    for name in ("UInt8", "UInt16", "UInt32", "UInt64", "UnsignedInteger"):
        cls = env.field(name)
        res, fs = finals(r, env, cls, "signed")
        r.each(rule, f"{name} unsigned", res, lambda p: None if tv(p, final_attr(p, res.self, "signed")) is False
               else "an unsigned type is constructed as signed", paths=res.returns() if res else None)
    for name in ("Int8", "Int16", "Int32", "Int64"):
        cls = env.field(name)
        base = r.prog.find_method(env.field("Integer"), "__init__")
        d = base.default("signed")
        r.verdict(rule, f"{name} signed", None if d is not None and getattr(d, "value", None) is True
                  else (UNKNOWN, "default signedness not found") if d is None else "integers are unsigned by default")


# ------------------------------------------------------------------ floats
def floats(r, env, rule, cls):
    tag = short(cls)
    found = {"load": set(), "dump": set()}
    for side, m, names in (("load", "_do_load", ("struct.unpack", "struct.unpack_from", "struct.iter_unpack")),
                           ("dump", "_do_dump", ("struct.pack", "struct.pack_into"))):
        fi = env.func(cls, m)
        res = r.run(fi, cls)
        if res is None:
            return r.unknown(rule, f"{tag} {m}", "not analysable")
        for p in res.all:
            for e in p.events:
                if e.kind == "call" and e.name in names:
                    f = arg(e, "format", 0)
                    n = self_attr(f, res.self)
                    found[side].add(n or f)
                    if n is None:
                        r.add(rule, f"{tag} {m}", VIOL if f is not None and f[0] == "c" else UNKNOWN,
                              f"the format is {show(f)}, not the configured one", p, e)
                    else:
                        r.ok(rule, f"{tag} {m}")
    if not found["load"] or not found["dump"]:
        return r.unknown(rule, f"{tag} formats", "no struct call found")
    r.verdict(rule, f"{tag} same format", None if found["load"] == found["dump"]
              else "loading and dumping use different formats")
    for n in found["load"] | found["dump"]:
        if not isinstance(n, str):
            continue
        res, fs = finals(r, env, cls, n)
        r.each(rule, f"{tag}.{n} configured", res, lambda p: float_format(p, res, n, tag),
               paths=res.returns() if res else None)


VIOL = "violated"


def float_format(p, res, n, tag):
    v = final_attr(p, res.self, n)
    e = final_attr(p, res.self, "endian")
    if v is None:
        return f"{n} is not set"
    order = resolve(p, e) if e is not None else None
    if order is None or order[0] != "c":
        return (UNKNOWN, "byte order not known on this path")
    fmt = ctor_param(res, "format_string")
    bits = BITS.get(tag)
    want = FLOATS[bits] if bits else None
    pre = {"big": (">", "!"), "little": ("<",)}.get(order[2], ())
    if v[0] == "c":
        s = str(v[2])
        if s[:1] not in pre:
            return f"{order[2]}-endian floats use the format {s!r}"
        if want and s[1:] != want:
            return f"the format character is {s[1:]!r}"
        return None
    if v[0] == "op" and v[1] == "+":
        if v[2][0] != "c":
            return (UNKNOWN, f"format is {show(v)}")
        if v[2][2] not in pre:
            return f"{order[2]}-endian floats use the format {show(v)}"
        f = resolve(p, v[3])
        if f == fmt or f[0] == "kwget" or (f[0] == "c" and f[2] == want):
            return endian_given(p, res, e)
        return f"the format character is {show(f)}"
    return (UNKNOWN, f"format is {show(v)}")


def endian_given(p, res, e):
    t = ctor_param(res, "endian")
    if same(p, e, t) or tv(p, t) is False or isc(p, t, NONE):
        return None
    if native(e):
        return "the byte order given is replaced by the machine's"
    return (UNKNOWN, f"byte order is {show(e)}")


# ------------------------------------------------------------------ text
def codec_sites(res, table):
    out = []
    for p in res.all:
        for e in p.events:
            if e.kind == "call" and e.name in table:
                i = table[e.name]
                enc = arg(e, "encoding", i)
                err = arg(e, "errors", i + 1)
                if e.name.startswith("codecs.getincremental"):
                    err = None
                out.append((p, e, enc, err))
    return out


def text(r, env, rule, cls):
    tag = short(cls)
    attrs = set()
    for m, table in (("_do_load", DECODERS), ("_do_dump", ENCODERS)):
        fi = env.func(cls, m)
        res = r.run(fi, cls)
        if res is None:
            return r.unknown(rule, f"{tag} {m}", "not analysable")
        sites = codec_sites(res, table)
        if not sites:
            r.unknown(rule, f"{tag} {m}", "no text conversion found")
            continue
        for p, e, enc, err in sites:
            n = self_attr(enc, res.self)
            if n is None:
                st = VIOL if enc is None or enc[0] == "c" else UNKNOWN
                r.add(rule, f"{tag} {m} encoding", st, f"the encoding is {show(enc) if enc else 'the default'}, not the "
                      "configured one", p, e)
            else:
                attrs.add(n)
                r.ok(rule, f"{tag} {m} encoding")
            if err is not None:
                r.add(rule, f"{tag} {m} strict", VIOL if err[0] == "c" and err[2] != "strict" else
                      "proved" if err[0] == "c" else UNKNOWN, f"errors are handled with {show(err)}", p, e)
            else:
                r.ok(rule, f"{tag} {m} strict")
    if len(attrs) > 1:
        r.bad(rule, f"{tag} same encoding", f"different attributes: {', '.join(sorted(attrs))}")
    for n in attrs:
        res, fs = finals(r, env, cls, n)
        r.each(rule, f"{tag}.{n} configured", res, lambda p: attr_is(p, res, n, "encoding"),
               paths=res.returns() if res else None)


# ------------------------------------------------------------------ UUIDs
def uuid_load_kind(p):
    for e in p.events:
        if e.kind in ("call", "construct") and e.name in ("uuid.UUID", "UUID"):
            if "bytes" in e.kw:
                return "bytes"
            if "bytes_le" in e.kw:
                return "bytes_le"
            if "hex" in e.kw or e.args:
                return "text"
            if "int" in e.kw:
                v = e.kw["int"]
                ev = call_event(p, v)
                if ev is not None and ev.name == "int.from_bytes" and arg(ev, "byteorder", 1) == C("big"):
                    return "bytes"
    return None


def uuid_dump_kind(p, data, stream):
    ws = [e for e in p.events if e.kind == "call" and e.name == "write" and e.recv == stream and e.args]
    if len(ws) != 1:
        return None
    t = strip_copy(ws[0].args[0])
    if t[0] == "app" and t[1] == "bytes" and len(t) == 3:
        t = t[2]
    if t == ("attr", data, "bytes"):
        return "bytes"
    if t == ("attr", data, "bytes_le"):
        return "bytes_le"
    e = call_event(p, t)
    if e is not None and e.name in ("encode",) and e.recv is not None:
        enc = arg(e, "encoding", 0)
        if enc is not None and (enc[0] != "c" or str(enc[2]).lower() not in TEXT_CODECS):
            return None
        s = e.recv
        if s == ("attr", data, "hex"):
            return "hex"
        if s[0] == "app" and s[1] in ("str", "format", "fstr") and s[2] == data:
            return "canonical"
        if s[0] == "res":
            e2 = call_event(p, s)
            if e2 is not None and e2.name == "hex" and not e2.args and e2.recv in (("attr", data, "bytes"), ("attr", data, "bytes_le")):
                return "hex" if e2.recv[2] == "bytes" else "hex of the mixed-endian layout"
            if e2 is not None and e2.name in ("str", "__str__") and (e2.recv == data or data in e2.args):
                return "canonical"
    return None


def uuids(r, env, rule):
    U = env.field("UUID4")
    _, members = enum_of(r, "binobj.fields.stringlike", "UUIDFormat")
    ld, dp = r.run(env.func(U, "_do_load"), U), r.run(env.func(U, "_do_dump"), U)
    ct = r.run(env.func(U, "__init__"), U)
    if ld is None or dp is None or ct is None:
        return r.unknown(rule, "UUID4", "not analysable")
    want = {"BINARY_VARIANT_1": ("bytes", "bytes", 16), "BINARY_VARIANT_2": ("bytes_le", "bytes_le", 16),
            "CANONICAL_STRING": ("text", "canonical", 36), "HEX_STRING": ("text", "hex", 32)}
    kinds = {}
    for m in members:
        w = want.get(m[2])
        a = [(p, uuid_load_kind(p)) for p in ld.returns() if isc(p, ("attr", ld.self, "stored_as"), m) is not False]
        b = [(p, uuid_dump_kind(p, dp.p(2), dp.p(1))) for p in dp.returns()
             if isc(p, ("attr", dp.self, "stored_as"), m) is not False]
        for (ps, side, i) in ((a, "load", 0), (b, "dump", 1)):
            tag = f"UUID4 {m[2]} {side}"
            if not ps:
                r.bad(rule, tag, f"no path {side}s it")
            for p, k in ps:
                if k is None or w is None:
                    r.unknown(rule, tag, "layout not recognised", p)
                else:
                    r.verdict(rule, tag, None if k == w[i] else f"{m[2]} {side}s the {k} layout", p)
        kb = {k for _, k in b}
        for k in kb:
            if k is not None and k in kinds and kinds[k] != m:
                r.bad(rule, f"UUID4 {m[2]} own layout", f"{m[2]} and {kinds[k][2]} are written alike")
            kinds[k] = m
        t = ctor_param(ct, "stored_as")
        for p in ct.returns():
            if isc(p, t, m) is not True:
                continue
            s = final_attr(p, ct.self, "_size")
            c = resolve(p, s) if s is not None else None
            if w is None or c is None or c[0] != "c":
                r.unknown(rule, f"UUID4 {m[2]} size", f"size is {show(c) if c else None}")
            else:
                r.verdict(rule, f"UUID4 {m[2]} size", None if c[2] == w[2] else f"{m[2]} takes {c[2]} bytes", p)


# ------------------------------------------------------------------ timestamps
def unit_use(t, op, S):
    """Attribute of self (or constant) t is scaled with."""
    if t[0] == "app" and t[1] in ("int", "float", "round") and len(t) >= 3:
        return unit_use(t[2], op, S)
    if t[0] == "op" and t[1] in ("*", "/", "//"):
        for x in (t[3], t[2]) if t[1] == "*" else (t[3],):
            n = self_attr(x, S)
            if n is not None:
                return (t[1], n)
        return (t[1], t[3])
    return None


def times(r, env, rule, cls):
    tag = short(cls)
    ld, dp = r.run(env.func(cls, "_do_load"), cls), r.run(env.func(cls, "_do_dump"), cls)
    if ld is None or dp is None:
        return r.unknown(rule, tag, "not analysable")
    used = set()
    for p in ld.returns():
        es = [e for e in p.events if e.kind == "call" and short(e.name) in ("fromtimestamp", "utcfromtimestamp")]
        if len(es) != 1:
            r.unknown(rule, f"{tag} loading", "no single fromtimestamp() call", p)
            continue
        e = es[0]
        v = arg(e, "timestamp", 0)
        u = unit_use(v, "/", ld.self) if v is not None else None
        if u is None or u[0] == "*" or not isinstance(u[1], str):
            r.add(rule, f"{tag} loading unit", VIOL if v is not None and v[0] in ("res", "op") and (u is None or u[0] == "*" or
                  u[1][0] == "c") else UNKNOWN, f"the instant is {show(v) if v else None}", p, e)
        elif u[0] == "//":
            r.bad(rule, f"{tag} loading unit", "the loaded instant is truncated to whole seconds", p, e)
        else:
            used.add(u[1])
            r.ok(rule, f"{tag} loading unit")
        tz = arg(e, "tz", 1)
        aware = tv(p, ("attr", ld.self, "tz_aware"))
        if aware is None:
            r.unknown(rule, f"{tag} zone", "tz_aware is not decided on this path", p)
        elif aware:
            r.verdict(rule, f"{tag} zone", None if tz is not None and tz != NONE else
                      "a zone-aware timestamp is loaded without a zone", p, e)
            if tz is not None and tz[0] == "ext" and not tz[1].endswith("utc"):
                r.bad(rule, f"{tag} zone", f"timestamps are loaded in {tz[1]}", p, e)
        else:
            r.verdict(rule, f"{tag} zone", None if (tz is None or tz == NONE) and short(e.name) == "fromtimestamp" else
                      "a naive timestamp is not loaded in local time", p, e)
    data = dp.p(2)
    for p in dp.returns():
        es = [e for e in p.events if e.kind == "call" and e.name == "to_bytes"]
        if len(es) != 1:
            r.unknown(rule, f"{tag} dumping", "no single integer conversion", p)
            continue
        v = es[0].recv
        u = unit_use(v, "*", dp.self)
        src = any(e.kind == "call" and e.name == "timestamp" and e.recv == data and mentions(v, e.res) for e in p.events)
        stamps = [e for e in p.events if e.kind == "call" and e.name == "timestamp" and mentions(v, e.res)]
        moved = stamps and call_event(p, stamps[0].recv) if stamps and stamps[0].recv is not None else None
        if not src and moved and moved.kind == "call" and moved.name == "replace" and moved.recv == data and \
                moved.kw.get("tzinfo", NONE) != NONE and tv(p, ("attr", dp.self, "tz_aware")) is not True:
            r.bad(rule, f"{tag} zone", "a naive timestamp is not dumped as local time", p, moved)
        elif not src and moved and moved.kind == "call" and moved.name == "replace" and moved.recv == data and \
                set(moved.kw) - {"tzinfo", "fold"}:
            r.bad(rule, f"{tag} dumping unit", f"part of the value is replaced ({', '.join(sorted(moved.kw))})", p, moved)
        elif not src:
            r.unknown(rule, f"{tag} dumping unit", f"the instant is {show(v)}", p)
        elif u is None or u[0] != "*" or not isinstance(u[1], str):
            r.add(rule, f"{tag} dumping unit", VIOL if u is None or u[0] != "*" or u[1][0] == "c" else UNKNOWN,
                  f"the value written is {show(v)}", p, es[0])
        else:
            used.add(u[1])
            r.ok(rule, f"{tag} dumping unit")
    if len(used) > 1:
        r.bad(rule, f"{tag} same unit", f"different attributes: {', '.join(sorted(used))}")
    for n in used:
        res, fs = finals(r, env, cls, n)
        if res is None:
            r.unknown(rule, f"{tag}.{n}", "not analysable")
            continue
        t = ctor_param(res, "resolution")
        for p, v in fs:
            k = p.facts.const_of(t)
            if k is None or v is None or v[0] != "c":
                r.unknown(rule, f"{tag}.{n} configured", "the unit is not a constant per resolution", p)
            elif k[2] in UNITS:
                r.verdict(rule, f"{tag}.{n} configured", None if v[2] == UNITS[k[2]] else
                          f"the unit of {k[2]!r} is {v[2]!r}", p)
    res, fs = finals(r, env, cls, "tz_aware")
    r.each(rule, f"{tag}.tz_aware configured", res, lambda p: attr_is(p, res, "tz_aware", "tz_aware"),
           paths=res.returns() if res else None)


# ------------------------------------------------------------------ variable-length integers
def varints(r, env, rule):
    V = env.field("VariableLengthInteger")
    qual, members = enum_of(r, "binobj.varints", "VarIntEncoding")
    res = r.run(env.func(V, "__init__"), V)
    if res is None:
        return r.unknown(rule, "VariableLengthInteger", "not analysable")
    ld, dp = r.run(env.func(V, "_do_load"), V), r.run(env.func(V, "_do_dump"), V)
    used = {}
    for side, x, ok in (("load", ld, "decode"), ("dump", dp, "encode")):
        if x is None:
            return r.unknown(rule, f"VariableLengthInteger {side}", "not analysable")
        names = set()
        for p in x.returns():
            got = None
            for e in p.events:
                if e.kind == "call" and (e.recv == x.self and e.name not in ("get_expected_size",) or
                                         e.name == "()" and self_attr(e.recv, x.self)):
                    n = e.name if e.recv == x.self else self_attr(e.recv, x.self)
                    if side == "load" and p.value == e.res or side == "dump" and x.p(2) in e.args:
                        got = n
            if got is None:
                r.unknown(rule, f"VariableLengthInteger {side}", "no codec call recognised", p)
            else:
                names.add(got)
                r.ok(rule, f"VariableLengthInteger {side}")
        used[side] = names
    if len(used["load"]) != 1 or len(used["dump"]) != 1:
        return r.unknown(rule, "VariableLengthInteger codecs", "not a single codec attribute per direction")
    da, ea = used["load"].pop(), used["dump"].pop()
    t = ctor_param(res, "vli_format")
    cls = r.prog.classes[qual]
    for p in res.returns():
        m = p.facts.const_of(t)
        if m is None:
            r.unknown(rule, "VariableLengthInteger constructor", "encoding not decided on a path", p)
            continue
        E, D = final_attr(p, res.self, ea), final_attr(p, res.self, da)
        tag = f"VariableLengthInteger {show(m)}"
        if not E or not D or E[0] != "fn" or D[0] != "fn":
            r.unknown(rule, tag, "codec functions not resolved", p)
            continue
        se, sd = suffix(E[1], "encode_integer_"), suffix(D[1], "decode_integer_")
        if se is None or sd is None:
            wrong = "encode" in short(D[1]) or "decode" in short(E[1])
            r.add(rule, tag, VIOL if wrong else UNKNOWN, f"codecs {short(E[1])}/{short(D[1])}", p)
        elif se != sd:
            r.bad(rule, tag, f"values are encoded as {se} but decoded as {sd}", p)
        else:
            key = se.replace("_", "")
            nm = m[2].lower().replace("_", "")
            r.verdict(rule, tag, None if nm == key or nm.startswith(key) and key != "vl" else
                      f"{m[2]} uses the {se} codec", p)
        o, s = final_attr(p, res.self, "endian"), final_attr(p, res.self, "signed")
        tr = VLI_TRAITS.get(m[2])
        if tr and o is not None and s is not None and o[0] == "c" and s[0] == "c":
            r.verdict(rule, tag + " traits", None if (o[2], bool(s[2])) == tr else
                      f"{m[2]} is described as {o[2]}-endian, signed={s[2]}", p)
        else:
            r.unknown(rule, tag + " traits", "not constants")


def suffix(q, pre):
    n = short(q)
    return n[len(pre):] if n.startswith(pre) else None
