"""C05: a sized field writes exactly its size, in one piece, or raises."""
from .common import *


def expected(p, S, fields):
    """Terms that denote the field's declared size on this path."""
    out = []
    for nm in ("_size", "size"):
        if is_inst(p, ("attr", S, nm), "int") is True:
            out.append(("attr", S, nm))
    for e in p.events:
        if e.kind == "call" and e.name == "get_expected_size" and e.recv == S:
            out.append(e.res)
    return out


def check(r):
    env = Env(r.prog)
    one = r.rule("R1 one write", "On every path of Field.to_stream that dumps a value, the dumper gets a fresh buffer "
                 "(never the stream), the stream is written to exactly once, after the size was checked, and the bytes "
                 "written are the buffer's complete content, extended only by what _add_padding appends.")
    size = r.rule("R2 exact size", "When the field declares a size, the length of what is written is provably equal to "
                  "it; otherwise an error is raised before anything is written.")
    exp = r.rule("R3 declared size", "get_expected_size returns the constant size, or the value of the referenced "
                 "field, or the size of the value itself, and raises otherwise.")
    pad = r.rule("R4 padding", "_add_padding either raises ValueSizeError or appends pad bytes to the unchanged data, "
                 "and only strings with a configured pad byte do so.")
    inner = r.rule("R5 dumpers", "Bytes and String dump exactly the expected number of bytes: the encoded value, "
                   "extended only by pad bytes, and anything of another length raises.")
    for cq in env.field_classes():
        fi = env.func(cq, "to_stream")
        res = r.run(fi, cq)
        tag = f"{fi.qual} [{short(cq)}]"
        unit = ()
        if res:
            unit = (("attr", res.self, "pad_byte"),)

        def p1(p):
            S, stream = res.self, res.p(1)
            nv = ("attr", S, "null_value")
            main = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.name == "_do_dump" and
                    e.recv == S and arg(e, "data", 1) != nv]
            ws = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.recv == stream and
                  e.name not in ("tell", "seek", "flush")]
            for i, e in enumerate(p.events):
                if e.kind in ("call", "construct") and e.recv != stream and passes(e, stream):
                    return f"hands the output stream to {e.name} before the size check"
            if p.kind == "raise":
                return "raises after having written to the stream" if ws and e_after(p, ws[0][0]) else None
            if not main:
                return False
            if len(main) != 1:
                return "dumps the value more than once"
            buf = arg(main[0][1], "stream", 0)
            if buf is None or buf[0] != "new":
                return f"the dumper writes to {show(buf)}"
            if len(ws) != 1:
                return f"the stream is written to {len(ws)} times"
            w = ws[0][1]
            if w.name != "write" or len(w.args) != 1:
                return f"uses stream.{w.name}"
            base, extra = split_pad(w.args[0], unit)
            if buffer_source(p, base) != buf:
                return f"writes {show(w.args[0])}, not the complete dumped value"
            if any(i > main[0][0] and e.kind == "call" and e.recv == buf and e.name in (
                    "write", "truncate", "seek") for i, e in enumerate(p.events)):
                return "the dumped value is edited before it is written"
            ge = call_event(p, base)
            if ge is not None and p.events.index(ge) < main[0][0]:
                return "the buffer is read before the value was dumped into it"
            if extra and isc(p, unit[0], NONE) is not False:
                return "padding is appended without a configured pad byte"
            return None
        r.each(one, tag, res, p1, need=2)

        def p2(p):
            S, stream = res.self, res.p(1)
            nv = ("attr", S, "null_value")
            if p.kind != "return":
                return False
            w = stream_events(p, stream, ("write",))
            if not any(e.kind == "call" and e.name == "_do_dump" and e.recv == S and
                       arg(e, "data", 1) != nv for e in p.events) and \
                    (not w or any(c == NONE for c in p.facts.eqc.values())):
                return False
            if not w:
                return "returns without writing"
            n = len_term(w[0].args[0], unit)
            if isc(p, ("attr", S, "_size"), NONE) is True:
                return None
            xs = expected(p, S, res.p(4))
            if not xs:
                return "the declared size is not consulted"
            if any(fact_lin(p, n, "==", x) is True for x in xs):
                return None
            return f"len of the bytes written ({show(n)}) is not shown to equal the declared size {show(xs[0])}"
        r.each(size, tag, res, p2, need=2)

        fi = env.func(cq, "get_expected_size")
        res = r.run(fi, cq)
        tag = f"{fi.qual} [{short(cq)}]"

        def p3(p):
            S, vals = res.self, res.p(1)
            if p.kind != "return":
                return False
            sz = ("attr", S, "_size")
            if is_inst(p, sz, "int") is True:
                return None if same(p, p.value, sz) else f"a constant size is reported as {show(p.value)}"
            if isc(p, sz, NONE) is True:
                return None
            if p.value[0] == "sub" and p.value[1] == vals:
                k = p.value[2]
                if k == sz or k == ("attr", sz, "name") or k == ("attr", ("attr", S, "size"), "name"):
                    if is_inst(p, p.value, "int") is not True:
                        return "the value of the referenced field is not checked to be an integer"
                    return None
            return f"the declared size is reported as {show(p.value)}"
        r.each(exp, tag, res, p3, need=2)

        fi = r.prog.find_method(cq, "_add_padding")
        if fi is not None:
            res = r.run(fi, cq)

            def p4(p):
                if p.kind == "raise":
                    if p.value[0] == "exc" and p.value[2] in r.prog.classes and not env.exc_is(
                            p.value[2], env.err("ValueSizeError")):
                        return f"a value of the wrong size raises {p.value[2]}"
                    return None
                base, extra = split_pad(p.value, (("attr", res.self, "pad_byte"),))
                if base != res.p(1):
                    return f"returns {show(p.value)}"
                if not extra:
                    return "returns data of the wrong size"
                if isc(p, ("attr", res.self, "pad_byte"), NONE) is not False:
                    return "pads without a configured pad byte"
                return None
            r.each(pad, f"{fi.qual} [{short(cq)}]", res, p4)

    for name in ("Bytes", "String"):
        cq = env.field(name)
        fi = env.func(cq, "_do_dump")
        res = r.run(fi, cq)
        unit = (("attr", res.self, "pad_byte"),) if res else ()

        def p5(p):
            S, stream, data = res.self, res.p(1), res.p(2)
            ws = stream_events(p, stream, ("write", "writelines"))
            if p.kind == "raise":
                return "raises after writing" if ws else False
            if len(ws) != 1 or ws[0].name != "write":
                return f"writes {len(ws)} times"
            W = ws[0].args[0]
            base, extra = split_pad(W, unit)
            if name == "Bytes":
                if base != data or extra:
                    return f"writes {show(W)} instead of the value"
            else:
                e = call_event(p, base)
                if e is None or e.name != "encode" or e.recv != data:
                    return f"writes {show(W)} instead of the encoded value"
                if extra and isc(p, unit[0], NONE) is not False:
                    return "pads without a configured pad byte"
            xs = expected(p, S, res.p(4))
            if not any(fact_lin(p, len_term(W, unit), "==", x) is True for x in xs):
                return f"the length of {show(W)} is not shown to equal the expected size"
            return None
        r.each(inner, fi.qual, res, p5)
    whole_number(r, env)


def whole_number(r, env):
    """The integer itself is converted, so that one that doesn't fit is an error."""
    rule = r.rule("R6 whole number", "A fixed-width integer is converted to bytes as it is, in as many bytes as the field's size, "
                  "so a number that does not fit raises instead of being cut to fit.")
    for cq in env.field_classes():
        if short(cq) not in ("Integer", "UnsignedInteger"):
            continue
        fi = env.func(cq, "_do_dump")
        res = r.run(fi, cq)
        if res is None:
            r.unknown(rule, fi.qual, "not analysable")
            continue
        data, S = res.param("data"), res.self

        def pred(p):
            if p.kind != "return":
                return False
            cs = [e for e in p.events if e.kind == "call" and e.name == "to_bytes" and e.recv is not None]
            if len(cs) != 1:
                return (UNKNOWN, "conversion not recognised")
            e = cs[0]
            if e.recv != data:
                if mentions(e.recv, data) and e.recv[0] in ("op", "app"):
                    return f"{show(e.recv)} is dumped instead of the number itself"
                return (UNKNOWN, f"dumps {show(e.recv)}")
            return None
        r.each(rule, f"{fi.qual} [{short(cq)}]", res, pred, need=1)


def e_after(p, i):
    return True


def split_pad(t, unit):
    """(base, [pads]) of base + pad*k + ..."""
    pads = []
    while t[0] == "op" and t[1] == "+":
        x = t[3]
        if x[0] == "op" and x[1] == "*" and (x[2] in unit or x[3] in unit):
            pads.append(x)
            t = t[2]
        else:
            break
    return t, pads
