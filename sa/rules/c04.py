"""C04: None is accepted, recognised and written only as the declared null value."""
from .c01 import absent
from .common import *


def check(r):
    env = Env(r.prog)
    dump = r.rule("R1 dump", "Field.to_stream hands None to no dumper; when the value is None it raises "
                  "UnserializableValueError without writing if there is no null value, and otherwise writes exactly the "
                  "null representation: the null bytes, the dump of the null value, or zeros of the field's size for "
                  "DEFAULT/None.")
    load = r.rule("R2 load", "Field.from_stream performs null detection exactly when a null value is declared: it "
                  "compares as many bytes as the null representation has with that representation, consumes exactly "
                  "them on equality and returns None, and otherwise loads from where it started.")
    val = r.rule("R3 value", "A loaded value equal to the declared null value is returned as None.")
    det = r.rule("R4 undetermined", "CannotDetermineNullError is raised only for the DEFAULT marker, and then always.")
    for cq in env.field_classes():
        fi = env.func(cq, "to_stream")
        res = r.run(fi, cq)
        tag = f"{fi.qual} [{short(cq)}]"

        def pd(p):
            S, stream = res.self, res.p(1)
            nv = ("attr", S, "null_value")
            dumps = [e for e in p.events if e.kind == "call" and e.name == "_do_dump" and e.recv == S]
            main = [e for e in dumps if arg(e, "data", 1) != nv]
            for e in main:
                if isc(p, arg(e, "data", 1), NONE) is not False:
                    return "None can reach _do_dump"
            ws = stream_events(p, stream, ("write", "writelines"))
            if main:
                return None if not any(null_repr_kind(p, w.args[0], S, env) == "zeros" for w in ws) else \
                    "writes a null marker besides a value"
            undef = isc(p, nv, env.UNDEFINED)
            if undef is True:
                if ws:
                    return "writes something for None although the field has no null value"
                if p.kind == "return":
                    return "accepts None although the field has no null value"
                if p.value[0] == "exc" and p.value[2] == env.err("UnserializableValueError"):
                    return None
                if p.value[0] == "exc" and p.value[2] in r.prog.classes:
                    return f"raises {p.value[2]} for None without a null value"
                return None
            if p.kind == "return":
                if len(ws) != 1:
                    return f"writes {len(ws)} times for None"
                if undef is not False:
                    return "writes a null marker without checking that a null value is declared"
                return marker(p, ws[0].args[0], S)
            if ws:
                return "raises after writing"
            return False

        def marker(p, W, S):
            nv = ("attr", S, "null_value")
            k = null_repr_kind(p, W, S, env)
            if k is None:
                return f"the null marker is {show(W)}"
            special = isc(p, nv, env.DEFAULT) is True or isc(p, nv, NONE) is True
            plain = isc(p, nv, env.DEFAULT) is False and isc(p, nv, NONE) is False
            if k == "zeros":
                return None if special else "zeros are used for a null value that is not DEFAULT or None"
            if k == "dumped":
                if not plain:
                    return "DEFAULT/None is handed to _do_dump as if it were a value"
                if is_inst(p, nv, "bytes") is True:
                    return "a null value given as bytes is dumped instead of written"
            return None
        r.each(dump, tag, res, pd, need=3)

        fi = env.func(cq, "from_stream")
        res = r.run(fi, cq)
        tag = f"{fi.qual} [{short(cq)}]"

        def pl(p):
            S, stream = res.self, res.p(1)
            nv = ("attr", S, "null_value")
            if absent(p, S):
                return False
            reads = [(i, e) for i, e in enumerate(p.events) if e.kind == "call" and e.recv == stream
                     and e.name not in ("tell", "seek", "seekable")]
            pos = Pos(p, stream, neutral=("present",))
            dl = [i for i, e in enumerate(p.events) if e.kind == "call" and e.name == "_do_load" and e.recv == S]
            undef = isc(p, nv, env.UNDEFINED)
            before = [x for x in reads if not dl or x[0] < dl[0]]
            if before and undef is not False:
                return "looks for a null marker although the field has no null value"
            for i, e in before:
                if e.name != "read" or len(e.args) != 1:
                    return f"null detection uses {e.name}"
            if dl:
                if pos.at[dl[0]] != (("start",), C(0)):
                    return "bytes are consumed before the value is loaded"
                if len(dl) > 1:
                    return "loads more than once"
                if undef is False:
                    matched = None
                    for i, e in before:
                        for W in compared_with(p, e.res):
                            matched = (e, W)
                    if matched is None:
                        # allowed only when the representation could not be determined
                        if not any(e.kind == "except" for e in p.events[:dl[0]]):
                            return "a nullable field is loaded without looking for the null marker"
                        if isc(p, nv, env.DEFAULT) is not False:
                            return "an undeterminable DEFAULT null marker is ignored"
                    else:
                        e, W = matched
                        if eq_fact(p, e.res, W) is not False:
                            return "loads a value although the null marker matched"
                        m = marker(p, W, S) or counted(p, e, W)
                        if m:
                            return m
                return None
            if p.kind != "return":
                return False
            if p.value != NONE:
                return "returns a value that was not loaded"
            for i, e in before:
                for W in compared_with(p, e.res):
                    if eq_fact(p, e.res, W) is True:
                        m = marker(p, W, S) or counted(p, e, W)
                        if m:
                            return m
                        n = ("app", "len", W)
                        ends = [(("start",), n), (("start",), len_term(W))]
                        after = pos.at[i + 1] if i + 1 in pos.at else pos.end
                        if pos.end in ends or pos.end == after:
                            return None
                        return "a matched null marker is not consumed exactly"
            return "returns None without a matching null marker"
        r.each(load, tag, res, pl, need=4)

        def pv(p):
            S = res.self
            nv = ("attr", S, "null_value")
            dl = [e for e in p.events if e.kind == "call" and e.name == "_do_load" and e.recv == S]
            if not dl or p.kind != "return":
                return False
            v = dl[0].res
            undef = isc(p, nv, env.UNDEFINED)
            same_ = eq_fact(p, v, nv)
            if p.value == NONE or isc(p, p.value, NONE) is True:
                if undef is not False or same_ is not True:
                    if isc(p, v, NONE) is True:
                        return None
                    return "a loaded value is turned into None although it is not the null value"
                return None
            if undef is False and same_ is not False:
                return "a loaded value equal to the null value is not returned as None"
            if p.value != v:
                return f"returns {show(p.value)} instead of the loaded value"
            return None
        r.each(val, tag, res, pv, need=2)

        def pu(p):
            S = res.self
            nv = ("attr", S, "null_value")
            if p.kind == "raise" and p.value[0] == "exc" and p.value[2] == env.err("CannotDetermineNullError"):
                return None if isc(p, nv, env.DEFAULT) is True else \
                    "raised for a null value that is not the DEFAULT marker"
            if p.kind == "raise" and p.value[0] == "exc" and p.value[2] == env.err("UnserializableValueError") and \
                    any(x.kind == "newexc" and x.res == p.value for x in p.events):
                return "an undeterminable null marker surfaces as UnserializableValueError"
            return False
        r.each(det, tag, res, pu)


def compared_with(p, t):
    """Terms the path compared t with."""
    out = []
    for a in p.facts.atoms:
        if a[0] == "eq":
            if a[1] == t:
                out.append(a[2])
            elif a[2] == t:
                out.append(a[1])
    for x, c in p.facts.eqc.items():
        if x == t:
            out.append(c)
    for x, cs in p.facts.nec.items():
        if x == t:
            out.extend(c for c in cs if c != NONE)
    return out


def counted(p, read, W):
    n = read.args[0]
    if n == ("app", "len", W) or n == len_term(W):
        return None
    if n[0] == "c" or fact_lin(p, n, "==", len_term(W)) is not True:
        return f"compares {show(n)} bytes with a null marker of {show(len_term(W))}"
    return None
