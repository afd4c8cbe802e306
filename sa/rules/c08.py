"""C08: look-ahead never moves the stream."""
from .common import *


def check(r):
    env = Env(r.prog)
    look = r.rule("R1 position restored", "On every exit of a look-only operation (return or exception, any call on the way "
                  "may raise) the stream is known to be at the position it had on entry.")
    part = r.rule("R2 partial load", "When partial_load() stops at a field that ran out of data, the stream is put back to "
                  "where that field started.")
    peek = r.rule("R3 peeked bytes", "peek_bytes() returns exactly the bytes read at the entry position, and reads only as "
                  "many as asked.")
    st = lambda res: res.param("stream")

    def restored(res, cond=lambda p: True):
        def f(p):
            if not cond(p):
                return False
            evs = stream_events(p, st(res))
            if not evs and not any(passes(e, st(res)) for e in p.events if e.kind == "call"):
                return False
            if p.kind == "raise":
                _, o = exc_origin(p.value)
                if o is not None:
                    oe = call_event(p, o)
                    if oe is not None and oe.recv == st(res) and oe.name in ("seek", "tell"):
                        return False         # the stream itself cannot be repositioned
            pos = Pos(p, st(res))
            if pos.restored():
                return None
            return f"leaves the stream moved on {'an exception' if p.kind == 'raise' else 'return'}"
        return f

    fi = env.modfunc("binobj.helpers", "peek_bytes")
    res = r.run(fi, None, fork_all=True)
    r.each(look, fi.qual, res, restored(res), need=2)

    def pp(p):
        if p.kind != "return":
            return False
        rd = [e for e in stream_events(p, st(res), READ_OPS)]
        if len(rd) != 1 or rd[0].name != "read":
            return (UNKNOWN, "not a single read")
        if not rd[0].args or rd[0].args[0] != res.param("count"):
            return f"reads {show(rd[0].args[0]) if rd[0].args else 'everything'} instead of count"
        pos = Pos(p, st(res))
        if pos.at[p.events.index(rd[0])] != (("start",), C(0)):
            return "does not read at the current position"
        return None if p.value == rd[0].res else f"returns {show(p.value)}"
    r.each(peek, fi.qual, res, pp, need=1)

    A = env.field("Array")
    for cq in [A] + sorted(r.prog.subclasses.get(A, ())):
        fi = env.func(cq, "should_halt")
        res = r.run(fi, None, fork_all=True)
        r.each(look, f"{fi.qual} [{short(cq)}]", res, restored(res), need=2)

    for cq in [env.STRUCT] + sorted(r.prog.subclasses.get(env.STRUCT, ())):
        fi = env.func(cq, "get_field")
        res = r.run(fi, cq, fork_all=True)
        r.each(look, f"{fi.qual} [{short(cq)}]", res, restored(res), need=4)

        fi = env.func(cq, "partial_load")
        res = r.run(fi, cq, fork_all=True)
        tag = f"{fi.qual} [{short(cq)}]"

        def pe(p):
            if p.kind != "return":
                return False
            pos = None
            for i, e in enumerate(p.events):
                if e.kind != "except" or not e.args:
                    continue
                _, o = exc_origin(e.args[0])
                fe = call_event(p, o) if o is not None else None
                if fe is None or fe.name not in ("from_stream", "_do_load"):
                    continue
                pos = pos or Pos(p, st(res))
                j = p.events.index(fe)
                if pos.end == pos.at[j]:
                    continue
                return "the stream is not put back to the start of the field that could not be read"
            return None if pos else False
        r.each(part, tag, res, pe, need=1)
