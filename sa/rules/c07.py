"""C07: exact loading never ignores trailing bytes."""
import ast

from .common import *


def check(r):
    env = Env(r.prog)
    ret = r.rule("R1 no leftovers", "from_bytes() returns only when exact is known to be false, or the position reached by "
                 "the load is known to be at (or past) the end of the input.")
    rais = r.rule("R2 only on leftovers", "ExtraneousDataError is raised only when exact is true and at least one byte is "
                  "known to be left.")
    val = r.rule("R3 result", "The value returned is the one loaded from the beginning of the given bytes.")
    dflt = r.rule("R4 default", "exact is on unless turned off.")
    extra = env.err("ExtraneousDataError")
    ents = [(env.func(env.STRUCT, "from_bytes"), env.STRUCT)]
    ents += [(env.func(cq, "from_bytes"), cq) for cq in env.field_classes()]
    for cq in sorted(r.prog.subclasses.get(env.STRUCT, ())):
        ents.append((env.func(cq, "from_bytes"), cq))
    for fi, cq in ents:
        res = r.run(fi, cq)
        tag = f"{fi.qual} [{short(cq)}]"
        d = fi.default("exact")
        r.verdict(dflt, tag, None if isinstance(d, ast.Constant) and d.value is True else "exact is not True by default")
        if res is None:
            r.unknown(ret, tag)
            continue
        ex, data = res.param("exact"), res.param("data")

        def load_of(p):
            for i, e in enumerate(p.events):
                if e.kind == "call" and e.name == "from_stream":
                    s = arg(e, "stream", 0)
                    for b in p.events[:i]:
                        if b.kind == "alloc" and b.res == s and b.args and strip_bytes(b.args[0]) == data:
                            return i, e, s
            return None

        def part_of(p):
            """The load reads from a buffer over a part of the input only."""
            for e in p.events:
                if e.kind == "call" and e.name == "from_stream":
                    s = arg(e, "stream", 0)
                    return any(b.kind == "alloc" and b.res == s and b.args and strip_bytes(b.args[0])[0] == "sub" and
                               strip_bytes(b.args[0])[2][0] == "slice" and strip_bytes(strip_bytes(b.args[0])[1]) == data
                               for b in p.events)
            return False

        def leftovers(p):
            """(known <= 0, known >= 1) for the number of bytes left after the load."""
            ld = load_of(p)
            if ld is None:
                if part_of(p):
                    return False, False
                raise Undecided("no load from a buffer over the input found")
            i, e, s = ld
            pos = Pos(p, s)
            after = pos.at[i + 1] if i + 1 in pos.at else pos.end
            at_end, more = False, False
            here = [x.res for j, x in enumerate(p.events) if x.kind == "call" and x.recv == s and x.name == "tell"
                    and pos.at[j] == after]
            ends = [x.res for j, x in enumerate(p.events) if x.kind == "call" and x.recv == s and
                    (x.name == "tell" and pos.at[j] == (("eof",), C(0)) or
                     x.name == "seek" and pos.tells.get(x.res) == (("eof",), C(0)))]
            ends += [("app", "len", data)]
            ends += [("app", "len", x.res) for x in p.events if x.kind == "call" and x.recv == s and
                     x.name in ("getvalue", "getbuffer")]
            for h in here:
                for en in ends:
                    left = lin_add(en, h, -1)
                    if fact_lin(p, left, "<=", C(0)) is True:
                        at_end = True
                    if fact_lin(p, left, ">=", C(1)) is True:
                        more = True
                bufs = [data] + [x.res for x in p.events if x.kind == "call" and x.recv == s and
                                 x.name in ("getvalue", "getbuffer")]
                for b in bufs:
                    t = ("sub", b, ("slice", (h, NONE, NONE)))
                    v = nonempty(p, t)
                    at_end |= v is False
                    more |= v is True
            for j, x in enumerate(p.events):
                if x.kind == "call" and x.recv == s and x.name in ("read", "read1") and pos.at[j] == after and j > i:
                    if not x.args or (is_num_const(x.args[0]) and x.args[0][2] != 0) or x.args[0] == NONE:
                        v = nonempty(p, x.res)
                        at_end |= v is False
                        more |= v is True
            return at_end, more

        def unequal(p):
            ld = load_of(p)
            if ld is None:
                return False
            s = ld[2]
            tells = {x.res for x in p.events if x.kind == "call" and x.recv == s and x.name == "tell"}
            return any(fact_lin(p, lin_add(("app", "len", data), h, -1), "!=", C(0)) is True or
                       p.facts.nec.get(h) and ("app", "len", data) in p.facts.nec[h] or
                       any(a[0] in ("==", "eq") and set(a[1:]) == {h, ("app", "len", data)} and not v
                           for a, v in p.facts.atoms.items()) for h in tells)

        def pr(p):
            if p.kind != "return":
                return False
            if tv(p, ex) is False:
                return None
            if leftovers(p)[0]:
                return None
            return "returns a value with exact on although bytes may be left over"
        r.each(ret, tag, res, pr, need=2)

        def px(p):
            if p.kind != "raise" or p.value[0] != "exc" or p.value[2] != extra:
                return False
            if not any(x.kind == "newexc" and x.res == p.value for x in p.events):
                return False
            if tv(p, ex) is not True:
                return "ExtraneousDataError with exact off"
            if leftovers(p)[1]:
                return None
            if unequal(p):
                # a load does not go past the end of a buffer, so being elsewhere than at the end is being before it
                return (UNKNOWN, "the position is only known not to be the end")
            return "ExtraneousDataError although nothing may be left over"
        r.each(rais, tag, res, px, need=1)

        def pv(p):
            if p.kind != "return":
                return False
            ld = load_of(p)
            if ld is None:
                if part_of(p):
                    return "loads from a part of the given bytes only"
                return (UNKNOWN, "no load from a buffer over the input found")
            if len(calls_of(p, "from_stream")) != 1:
                return "loads more than once"
            i, e, s = ld
            if e.recv != res.self:
                return f"loads through {show(e.recv)}"
            pos = Pos(p, s)
            if pos.at[i] != (("start",), C(0)):
                return "does not load from the beginning of the data"
            return None if p.value == e.res else f"returns {show(p.value)} instead of the loaded value"
        r.each(val, tag, res, pv, need=2)


def strip_bytes(t):
    while True:
        if t[0] == "app" and t[1] in ("bytes", "bytearray", "memoryview") and len(t) == 3:
            t = t[2]
        elif t[0] == "copy":
            t = t[3]
        elif t[0] == "sub" and t[2][0] == "slice" and t[2][1][0] in (NONE, C(0)) and all(x == NONE for x in t[2][1][1:]):
            t = t[1]
        else:
            return t


def nonempty(p, t):
    v = tv(p, t)
    if v is not None:
        return v
    if fact_lin(p, ("app", "len", t), ">=", C(1)) is True:
        return True
    if fact_lin(p, ("app", "len", t), "<=", C(0)) is True:
        return False
    e = eq_fact(p, t, C(b""))
    return None if e is None else not e
