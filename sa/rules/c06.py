"""C06: truncated input is always detected."""
from .common import *


def entries(r, env):
    seen = set()
    for cq in env.field_classes():
        for name in ("_do_load", "from_stream", "should_halt"):
            fi = r.prog.find_method(cq, name)
            if fi is None or fi.node is None:
                continue
            yield fi, cq
    for q, fi in sorted(r.prog.funcs.items()):
        if q.startswith("binobj.varints.") or q == "binobj.helpers.read_int":
            if fi.cls is None and any(x in ("stream",) for x in fi.params()):
                yield fi, None


def check(r):
    env = Env(r.prog)
    exact = r.rule("R1 exact reads", "On every path that uses the bytes of a stream read to build a result, the requested "
                   "count is known to be non-negative and the read is known to have returned that many bytes; reads whose "
                   "bytes are only compared are look-aheads.")
    short_ = r.rule("R2 short read", "Every path on which a read that is used came up short ends in UnexpectedEOFError.")
    size = r.rule("R3 whole size", "A fixed- or referenced-size field reads exactly once, exactly its expected size, when "
                  "it loads a value.")
    stringz = r.rule("R4 end of data", "A null-terminated string without a size limit that runs out of data raises "
                     "UnexpectedEOFError; with a limit it does so unless the limit was reached, and then raises "
                     "DeserializationError.")
    gen = r.rule("R5 byte iterator", "iter_bytes() yields only non-empty reads.")
    lost = r.rule("R6 not swallowed", "No handler ends normally after a field or struct it loads ran out of data, except in "
                  "a partial load that named no last field.")
    eof, deser = env.err("UnexpectedEOFError"), env.err("DeserializationError")
    r.verdict(short_, eof, None if env.exc_is(eof, deser) else "UnexpectedEOFError is not a DeserializationError")
    n_sites = set()
    fixed = {}
    for fi, cq in entries(r, env):
        res = r.run(fi, cq)
        tag = res.entry if res else fi.qual
        if cq not in fixed and cq:
            fixed[cq] = const_sizes(r, cq)

        def known_nonneg(p, n, S):
            if fact_lin(p, n, ">=", C(0)) is True:
                return True
            if S is not None and n in (("attr", S, "_size"), ("attr", S, "size")):
                cs = fixed.get(cq)
                return bool(cs) and min(cs) >= 0 or cq is not None and fixed_size(r, cq) and not cs
            return False

        def reads(p):
            for i, e in enumerate(p.events):
                if e.kind == "call" and e.name in READ_OPS and e.recv is not None and e.recv[0] != "new" \
                        and e.res is not None:
                    yield i, e

        def pr(p):
            hit = False
            S = res.self if cq else None
            for i, e in reads(p):
                n_sites.add(e.where())
                if e.name != "read" or len(e.args) > 1:
                    if used_beyond_compare(p, e.res, i):
                        return (UNKNOWN, f"{e.name}() is not modelled")
                    continue
                if p.kind == "raise":
                    continue
                if not used_beyond_compare(p, e.res, i):
                    continue
                hit = True
                if not e.args or e.args[0] == C(-1) or e.args[0] == NONE:
                    return "reads to the end of the stream instead of a requested size"
                n = e.args[0]
                if not known_nonneg(p, n, S):
                    return f"read({show(n)}): a negative size is not rejected and would read the rest of the stream"
                if fact_lin(p, ("app", "len", e.res), ">=", n) is not True:
                    if not (n == C(1) and eq_fact(p, e.res, C(b"")) is False):
                        return f"a value is built from read({show(n)}) without checking that it returned that many bytes"
            return None if hit else False
        if res is None:
            r.unknown(exact, tag, "not analysable")
            continue
        r.each(exact, tag, res, pr, need=0)

        def ps(p):
            for i, e in reads(p):
                if e.name != "read" or len(e.args) != 1:
                    continue
                n = e.args[0]
                sh = fact_lin(p, ("app", "len", e.res), "<", n)
                if sh is not True and not (n == C(1) and (eq_fact(p, e.res, C(b"")) is True or tv(p, e.res) is False)):
                    continue
                if put_back(p, i) and not used_beyond_compare(p, e.res, i):
                    continue
                if p.kind == "return":
                    return "returns after a short read"
                if p.value[0] == "exc" and p.value[2] == eof:
                    return None
                if not any(x.kind == "newexc" for x in p.events[i + 1:]):
                    continue
                return f"a short read is reported as {p.value[2] if p.value[0] == 'exc' else show(p.value)}"
            return False
        r.each(short_, tag, res, ps, need=0)

        if cq and fi.name == "_do_load":
            def pz(p):
                if p.kind != "return":
                    return False
                rs = [e for _, e in reads(p)]
                if any(x.kind == "call" and passes(x, res.p(1)) for x in p.events):
                    return False           # the stream is handed on: not a fixed-size read
                if not rs:
                    return False
                if any(e.loops for e in rs):
                    return (UNKNOWN, "reads inside a loop")
                if len(rs) != 1:
                    return f"reads {len(rs)} times"
                n = rs[0].args[0] if rs[0].args else NONE
                if own_size_term(p, n, res.self):
                    return None
                if is_num_const(n) and fixed.get(cq) == {int(n[2])}:
                    return None
                return f"reads {show(n)} bytes instead of the field's size"
            if cq != env.FIELD and not any(c == env.field("VariableLengthInteger") for c in r.prog.classes[cq].mro):
                r.each(size, tag, res, pz, need=0)

    cq = env.field("StringZ")
    res = r.run(env.func(cq, "_do_load"), cq)

    def pz(p):
        if p.kind != "raise" or p.value[0] != "exc":
            return False
        ls = [l for l in loops(p) if l.full]
        news = [x for x in p.events if x.kind == "newexc" and x.res == p.value]
        if not ls or not news or not any(x.kind == "raise" and x.args and x.args[0] == p.value for x in p.events):
            return False
        if any(x.kind == "except" for x in p.events):
            return False
        S = res.self
        unlimited = isc(p, ("attr", S, "_size"), NONE)
        if p.value[2] == eof:
            return None
        if unlimited is True:
            return f"running out of data raises {short(p.value[2])}"
        if not (p.value[2] in r.prog.classes and env.exc_is(p.value[2], deser)):
            return f"running out of data raises {p.value[2]}, which is not a DeserializationError"
        g = [e.res for e in p.events if e.kind == "call" and e.name == "get_expected_size"]
        tells = [e.res for e in p.events if e.kind == "call" and e.name == "tell"]
        if g and len(tells) >= 2:
            d = lin_add(tells[-1], tells[0], -1)
            if fact_lin(p, d, ">=", g[0]) is True:
                return None
            if fact_lin(p, d, "<", g[0]) is True:
                return "the data ended before the size limit but UnexpectedEOFError isn't raised"
        return (UNKNOWN, "cannot tell whether the size limit was reached")
    r.each(stringz, res.entry if res else cq, res, pz, need=2)
    if res is not None:
        has = {True: 0, False: 0}
        for p in res.raises():
            if p.value[0] == "exc" and p.value[2] == eof:
                u = isc(p, ("attr", res.self, "_size"), NONE)
                if u is not None:
                    has[u] += 1
        r.verdict(stringz, res.entry + " limited", None if has[False] else
                  "a string with a size limit never reports an unexpected end of data")

    check_handlers(r, env, lost, eof)
    fi = env.modfunc("binobj.helpers", "iter_bytes")
    res = r.run(fi)
    r.each(gen, fi.qual, res, lambda p: yields_nonempty(p), paths=res.all if res else None, need=2)
    r.verdict(exact, "read sites", None if len(n_sites) >= 4 else (UNKNOWN, f"only {len(n_sites)} read sites found"))


def check_handlers(r, env, rule, eof):
    import ast
    from .c13 import origin_event, partial_loader, raised_later
    n = 0
    for q, fi in sorted(r.prog.funcs.items()):
        if not any(isinstance(x, ast.Try) and x.handlers for x in ast.walk(fi.node)):
            continue
        res = r.run(fi, fi.cls.qual if fi.cls else None, fork_all=True)
        if res is None:
            r.unknown(rule, q, "not analysable")
            continue
        n += 1
        for p in res.all:
            if p.kind == "raise":
                continue
            for i, e in enumerate(p.events):
                if e.kind != "except" or e.fn != q:
                    continue
                oe = origin_event(p, e)
                if oe is None or oe.name not in ("from_stream", "_do_load", "from_bytes", "_decode_integer_fn"):
                    continue
                names = e.extra or ("BaseException",)
                if not any(env.exc_is(eof, c) for c in names) or raised_later(p, i):
                    continue
                if not partial_loader(q, env):
                    r.bad(rule, q, f"an unexpected end of data while loading ({oe.name}) is ignored", p, e)
                elif res.param("last_field") in res.params:
                    v = isc(p, res.param("last_field"), NONE)
                    r.verdict(rule, q + " handler", None if v is True else
                              "the data ends before the named last field, but no error is raised" if v is False else
                              (UNKNOWN, "cannot tell whether a last field was named"), p, e)
        r.ok(rule, q)
    if not n:
        r.unknown(rule, "handlers", "no handler found")


def yields_nonempty(p):
    ys = [e for e in p.events if e.kind == "yield"]
    if not ys:
        return False
    for y in ys:
        v = y.args[0]
        if v[0] == "res":
            if fact_lin(p, ("app", "len", v), ">=", C(1)) is not True and eq_fact(p, v, C(b"")) is not False \
                    and tv(p, v) is not True:
                return "an empty read (end of the stream) is yielded as if it were a byte"
    return None


def put_back(p, i):
    """Is the stream returned, after read number i, to where it was before (the data were only peeked at)?"""
    e = p.events[i]
    for x in p.events[i + 1:]:
        if x.kind == "call" and x.recv == e.recv:
            if x.name == "seek" and len(x.args) == 1:
                o = call_event(p, x.args[0])
                if o is None or o.name != "tell" or o.recv != e.recv:
                    return False
                j = p.events.index(o)
                return j < i and not any(y.kind == "call" and y.recv == e.recv and y.name in ("read", "seek", "readinto")
                                         for y in p.events[j + 1:i])
            if x.name not in ("tell",):
                return False
    return False
