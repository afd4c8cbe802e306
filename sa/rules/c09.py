"""C09: the caller's context reaches every callback and nested element unchanged."""
from .common import *

CALLBACKS = {"present": 1, "halt_check": 3, "load_decider": 2, "dump_decider": 2, "should_halt": 3}
# vocabulary callees and the position of their context argument (self not counted)
POSITIONS = {"from_stream": 1, "to_stream": None, "from_bytes": 1, "to_bytes": None, "_do_load": 1, "_do_dump": 2,
             "compute_value_for_dump": 1, "validate_contents": 0, "to_dict": 1, "partial_load": 2, "partial_dump": 2,
             "get_field": 2}


def entry_points(r, param):
    env = Env(r.prog)
    for q, fi in sorted(r.prog.funcs.items()):
        if param not in fi.all_params():
            continue
        cq = getattr(fi.cls, "qual", fi.cls) if fi.cls is not None else None
        if cq is None:
            yield fi, None
            continue
        for c in [cq] + sorted(r.prog.subclasses.get(cq, ())):
            if r.prog.find_method(c, fi.name) is fi:
                yield fi, c


def check(r):
    env = Env(r.prog)
    lib = r.rule("R1 library calls", "In every function that takes a context, every call to a library operation that takes a "
                 "context hands over that very object (rendering a null marker excepted).")
    cb = r.rule("R2 callbacks", "Every presence predicate, halt check and union decider called there receives that very "
                "object in its context position.")
    count = {}
    for fi, cq in entry_points(r, "context"):
        res = r.run(fi, cq)
        if res is None:
            r.unknown(lib, f"{fi.qual} [{short(cq) if cq else ''}]", "not analysable")
            continue
        ctx = ("p", "context")
        for p in res.all:
            for e in p.events:
                if e.kind != "call":
                    continue
                if e.name in CALLBACKS and e.recv is not None:
                    i = CALLBACKS[e.name]
                    got = arg(e, "context", i)
                    tag = f"{res.entry} -> {e.name}"
                    count[e.name] = count.get(e.name, 0) + 1
                    r.verdict(cb, tag, ok_ctx(p, got, ctx), p, e)
                elif e.name in POSITIONS and e.recv is not None:
                    if null_marker(p, e):
                        continue
                    pos = POSITIONS[e.name]
                    owner = e.extra if isinstance(e.extra, str) else ""
                    if not owner and e.name in ("to_bytes", "to_stream"):
                        # the receiver's class is unknown: int.to_bytes(), or one of the two signatures
                        if e.name == "to_bytes":
                            continue
                        cand = [arg(e, "context", i) for i in (1, 2)]
                        count[e.name] = count.get(e.name, 0) + 1
                        best = next((c for c in cand if c is not None and ok_ctx(p, c, ctx) is None), cand[0])
                        r.verdict(lib, f"{res.entry} -> {e.name}", ok_ctx(p, best, ctx), p, e)
                        continue
                    if pos is None:
                        stct = ".structures." in owner
                        pos = {"to_stream": 1 if stct else 2, "to_bytes": 0 if stct else 1}[e.name]
                    got = arg(e, "context", pos)
                    count[e.name] = count.get(e.name, 0) + 1
                    r.verdict(lib, f"{res.entry} -> {e.name}", ok_ctx(p, got, ctx), p, e)
                elif isinstance(e.extra, str) and e.extra in r.prog.funcs and "context" in r.prog.funcs[e.extra].all_params():
                    f2 = r.prog.funcs[e.extra]
                    ps = [x for x in f2.params() if x not in ("self", "cls")]
                    if "context" in ps:
                        got = arg(e, "context", ps.index("context"))
                        r.verdict(lib, f"{res.entry} -> {e.name}", ok_ctx(p, got, ctx), p, e)
    for n in ("present", "halt_check", "load_decider", "dump_decider"):
        r.verdict(cb, f"calls of {n}", None if count.get(n) else (UNKNOWN, "no call found"))
    for n in ("from_stream", "to_stream", "_do_load", "_do_dump", "compute_value_for_dump", "validate_contents"):
        r.verdict(lib, f"calls of {n}", None if count.get(n) else (UNKNOWN, "no call found"))


def ok_ctx(p, got, ctx):
    if got is None or got == NONE and ctx != NONE:
        if isc(p, ctx, NONE) is True:
            return None
        return "the context is not handed on"
    if same(p, got, ctx):
        return None
    return f"receives {show(got)} instead of the context"


def null_marker(p, e):
    """Rendering the null value into a private buffer."""
    if e.name != "_do_dump":
        return False
    s, d = arg(e, "stream", 0), arg(e, "data", 1)
    return s is not None and s[0] == "new" and d == ("attr", e.recv, "null_value")
