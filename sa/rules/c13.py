"""C13: failures surface as the documented library errors, never silently."""
import ast

from .common import *

TECHNIQUE = "exception-flow analysis: may-raise sets of conversions, handler exits, and error annotation on every path"

CONVERSIONS = {"struct.pack", "struct.unpack", "struct.pack_into", "struct.unpack_from", "int.from_bytes", "to_bytes",
               "encode", "decode", "uuid.UUID", "codecs.iterdecode", "codecs.iterencode", "datetime.datetime.fromtimestamp", "timestamp"}
BARE = ("struct.error", "UnicodeError", "UnicodeEncodeError", "UnicodeDecodeError", "ValueError", "OverflowError",
        "OSError", "ArithmeticError", "LookupError", "KeyError", "IndexError", "ZeroDivisionError")
HARMLESS = ("KeyError", "IndexError", "LookupError", "AttributeError", "StopIteration", "TypeError")
DELEGATES = ("from_stream", "to_stream", "from_bytes", "to_bytes", "_do_load", "_do_dump", "validate_contents", "()",
             "get_field", "partial_load", "partial_dump", "present", "read", "compute_value_for_dump", "get_expected_size",
             "halt_check", "load_decider", "dump_decider", "_compute_fn", "to_dict")


def safe_conversion(p, e):
    """A conversion that cannot fail for any value of the right type."""
    if e is None:
        return False
    if e.name == "uuid.UUID" or e.name == "UUID":
        return not e.args and set(e.kw) <= {"bytes", "bytes_le", "int", "version"} and bool(e.kw)
    if e.name == "encode":
        r = e.recv
        if r is None:
            return False
        if r[0] == "c":
            return True
        return r[0] == "app" and r[1] == "str" or r[0] == "attr" and r[2] in ("hex", "urn")
    return False


def check(r):
    env = Env(r.prog)
    conv = r.rule("R1 conversions", "Every exception a conversion (struct, int, text codec, UUID, datetime, integer codec) in a "
                  "built-in field's loading or dumping code may raise is turned into a DeserializationError (loading) or "
                  "SerializationError (dumping) before it leaves the field.")
    fld = r.rule("R2 carries the field", "A DeserializationError leaving a field's loading code leaves Field.from_stream() with "
                 "that field recorded in it.")
    swal = r.rule("R3 nothing swallowed", "A handler that does not end in a raise catches only the documented conditions: end "
                  "of data in a partial load, undeterminable sizes or null markers, values that cannot be computed while "
                  "collecting a best-effort dictionary (anything broader there is reported with a warning).")
    strict = r.rule("R5 strict", "Text codecs in a field's loading and dumping code run with strict error handling, so that a "
                    "value that cannot be converted is an error and not replaced.")
    vint = r.rule("R4 integer codecs", "Every exception an integer codec function may raise is one its field converts.")
    DE, SE = env.err("DeserializationError"), env.err("SerializationError")

    done = set()
    for cq in env.field_classes():
        for name, fam in (("_do_load", DE), ("_do_dump", SE)):
            fi = r.prog.find_method(cq, name)
            key = (fi.qual, cq)
            if key in done or cq == env.FIELD:
                continue
            done.add(key)
            res = r.run(fi, cq, conv_raises=True)
            tag = f"{res.entry if res else fi.qual}"
            r.each(conv, tag, res, lambda p: converted(p, fam, env), paths=res.paths if res else None, need=1)
            for p in res.all if res else ():
                for e in p.events:
                    if e.kind == "call":
                        m = lenient(e, res.self)
                        if m is not False:
                            r.verdict(strict, f"{tag} {e.name}", m, p, e)

    for cq in env.field_classes():
        fi = env.func(cq, "from_stream")
        if fi.cls.qual != cq:
            continue
        res = r.run(fi, cq, fork_all=True)
        r.each(fld, res.entry if res else fi.qual, res, lambda p: carries(p, res, env), need=1)
        if res is None:
            continue
        r.verdict(fld, (res.entry if res else fi.qual) + " catches", None if res and any(
            e.kind == "except" and origin_name(p, e) == "_do_load" for p in res.paths for e in p.events)
            else "an error raised while the field is loading is not annotated")
        caught = {c for p in res.paths for e in p.events if e.kind == "except" and origin_name(p, e) == "_do_load" and
                  origin_event(p, e).recv == res.self for c in e.extra or ()}
        if caught and all(c in r.prog.classes for c in caught) and not any(env.exc_is(DE, c) for c in caught):
            bare = next((p for p in res.paths if p.kind == "raise" and origin_is_load(p, res.self)), None)
            if bare is not None:
                r.bad(fld, (res.entry if res else fi.qual) + " every kind", "only " + ", ".join(sorted(short(c) for c in caught)) +
                      " is annotated: another DeserializationError leaves without the field", bare)

    handlers(r, env, swal)
    codecs(r, env, vint, SE, DE)


CODECS = {"encode": 1, "decode": 1, "iterencode": 2, "iterdecode": 2, "codecs.encode": 2, "codecs.decode": 2,
          "codecs.iterencode": 2, "codecs.iterdecode": 2, "codecs.getincrementaldecoder": 9}


def lenient(e, S):
    """A text codec call whose error handling is not strict."""
    if e.name not in CODECS or e.recv == S:
        return False
    a = e.kw.get("errors")
    if a is None and len(e.args) > CODECS[e.name]:
        a = e.args[CODECS[e.name]]
    if a is None:
        return None
    if a[0] == "c":
        return None if a[2] in ("strict", None) else f"{e.name} replaces or drops what it cannot convert ({a[2]!r})"
    return (UNKNOWN, f"error handling {show(a)}")


def origin_event(p, e):
    return call_event(p, exc_origin(e.args[0])[1]) if e.args and exc_origin(e.args[0])[1] is not None else None


def origin_name(p, e):
    oe = origin_event(p, e)
    return oe.name if oe is not None else None


def converted(p, fam, env):
    """Exceptions leaving the function because of a conversion."""
    if p.kind != "raise" or p.value[0] != "exc":
        return None
    name, o = exc_origin(p.value)
    oe = call_event(p, o) if o is not None else None
    if oe is not None:
        if oe.name in CONVERSIONS or any(env.exc_is(name, b) for b in BARE) and name != "AnyExc":
            if safe_conversion(p, oe):
                return None
            return f"{name} from {oe.name} leaves the field unconverted"
        return None
    # a raise of its own: was it the answer to a failed conversion?
    fails = [e for e in p.events if e.kind == "except" and origin_event(p, e) is not None and
             origin_event(p, e).name in CONVERSIONS]
    if fails:
        if env.exc_is(name, fam):
            return None
        return f"a failed {origin_event(p, fails[-1]).name} is reported as {name.split('.')[-1]}"
    return None


def origin_is_load(p, S):
    """The exception leaving is one thrown by the field's own loading hook, and no handler has seen it."""
    name, o = exc_origin(p.value)
    e = call_event(p, o) if o is not None else None
    return name == "AnyExc" and e is not None and e.name == "_do_load" and e.recv == S and not any(
        x.kind == "except" and origin_event(p, x) is e for x in p.events)


def carries(p, res, env):
    if p.kind != "raise" or p.value[0] != "exc":
        return False
    S = res.self
    exs = [(i, e) for i, e in enumerate(p.events) if e.kind == "except" and origin_name(p, e) == "_do_load" and
           origin_event(p, e).recv == S]
    name, o = exc_origin(p.value)
    if not exs:
        return False
    i, e = exs[-1]
    caught = e.extra or ()
    DE = env.err("DeserializationError")
    if not any(env.exc_is(DE, c) or env.exc_is(c, DE) for c in caught):
        return False
    if not any(env.exc_is(DE, c) for c in caught):
        return (UNKNOWN, "only some deserialization errors are annotated")
    exc = e.args[0]
    sets = [x for x in p.events[i:] if x.kind == "setattr" and x.name == "field"]
    if o is not None or p.value == exc:
        for x in sets:
            if x.recv == exc or x.recv is not None and x.recv[0] == "exc" and x.recv[1] == exc[1]:
                return None if x.args and x.args[0] == S else f"the error's field is set to {show(x.args[0])}"
        return "the error leaves without the field being recorded"
    for x in p.events[i:]:
        if x.kind == "newexc" and x.res == p.value:
            f = x.kw.get("field")
            return None if f == S else "the new error does not carry the field"
    return None


# ------------------------------------------------------------------ handlers
def handlers(r, env, swal):
    ok_small = tuple(env.err(n) for n in ("UndefinedSizeError", "MissingRequiredValueError", "UnserializableValueError",
                                         "UnexpectedEOFError", "SerializationError"))
    n = 0
    for q, fi in sorted(r.prog.funcs.items()):
        own = [x for x in ast.walk(fi.node) if isinstance(x, ast.Try)]
        if not own and not any(isinstance(x, ast.With) for x in ast.walk(fi.node)):
            continue
        for t in own:
            for x in (y for s in t.finalbody for y in ast.walk(s)):
                if isinstance(x, ast.Return):
                    r.bad(swal, f"{q} finally", "a return in a finally block discards the exception",
                          where=f"{fi.file}:{x.lineno}" if hasattr(fi, "file") else None)
        for w in (x for x in ast.walk(fi.node) if isinstance(x, ast.With)):
            for it in w.items:
                c = it.context_expr
                if isinstance(c, ast.Call) and (getattr(c.func, "attr", None) == "suppress" or
                                                getattr(c.func, "id", None) == "suppress"):
                    names = {ast.unparse(a).split(".")[-1] for a in c.args}
                    bad = names - {short(k) for k in ok_small} - set(HARMLESS)
                    r.verdict(swal, f"{q} suppress", f"{', '.join(sorted(bad))} is suppressed" if bad else None)
        if not any(t.handlers for t in own):
            continue
        n += 1
        res = r.run(fi, fi.cls.qual if fi.cls else None, fork_all=True, conv_raises=True)
        if res is None:
            r.unknown(swal, q, "not analysable")
            continue
        for p in res.all:
            if p.kind == "raise":
                continue
            for i, e in enumerate(p.events):
                if e.kind != "except" or e.fn != q:
                    continue
                r.verdict(swal, f"{q} handler", swallowed(p, i, e, env, res), p, e)
        r.ok(swal, f"{q} analysed")
    if not n:
        r.unknown(swal, "handlers", "no handler found")


def partial_loader(fn, env):
    """Code of a struct other than its complete load: the only place where running out of data may be normal."""
    fi = env.prog.funcs.get(fn)
    if fi is None:
        return False
    if fi.cls is not None:
        return env.prog.is_subclass(fi.cls.qual, env.STRUCT) and fi.name not in ("from_stream", "from_bytes")
    return fn.startswith("binobj.structures.")


def raised_later(p, i):
    return any(x.kind in ("raise", "reraise") for x in p.events[i + 1:])


def swallowed(p, i, e, env, res):
    if raised_later(p, i):
        return None                       # converted into another error that was handled in turn
    names = e.extra or ("BaseException",)
    exc_name = exc_origin(e.args[0])[0] if e.args else None
    oe = origin_event(p, e)
    warned = any(x.kind == "warn" for x in p.events[i:])
    for nm in names:
        if nm in (env.err("UndefinedSizeError"), env.err("MissingRequiredValueError")):
            continue
        if nm == env.err("UnexpectedEOFError"):
            if oe is not None and oe.name in ("from_stream", "_do_load", "from_bytes") and partial_loader(e.fn, env):
                continue
            return "an unexpected end of data is ignored"
        if nm == env.err("UnserializableValueError"):
            if oe is not None and oe.name in ("from_stream", "to_stream", "to_bytes", "from_bytes"):
                return "a value that cannot be serialized is ignored"
            continue
        if nm == env.err("SerializationError"):
            if oe is not None and oe.name in ("compute_value_for_dump", "get_expected_size"):
                continue
            return "a serialization error is ignored"
        if nm == env.err("Error"):
            if warned or oe is not None and oe.name == "get_expected_size" and p.value != NONE and any(
                    x.kind == "call" and x.name in DELEGATES for x in p.events[i + 1:]):
                continue                  # another way of finding the size is tried
            return "any library error is ignored"
        if nm in HARMLESS:
            if oe is None or oe.name not in DELEGATES:
                continue
            return f"{nm} from {oe.name} is ignored"
        if nm == "EOFError" and oe is None:
            continue
        if nm in ("BaseException", "Exception") or nm is None:
            return "every exception is ignored here"
        return f"{short(nm)} is caught and ignored"
    return None


# ------------------------------------------------------------------ variable-length integers
def codec_table(r):
    """[(key, encode function, decode function)] of INTEGER_ENCODING_MAP."""
    mod = r.prog.modules.get("binobj.varints") if hasattr(r.prog, "modules") else None
    out = []
    look = r.prog.lookup("binobj.varints", "INTEGER_ENCODING_MAP")
    if look is None:
        raise AnalysisBroken("binobj.varints.INTEGER_ENCODING_MAP not found")
    node = None
    for st in mod.tree.body:
        tgt = None
        if isinstance(st, ast.AnnAssign):
            tgt, val = st.target, st.value
        elif isinstance(st, ast.Assign) and len(st.targets) == 1:
            tgt, val = st.targets[0], st.value
        if isinstance(tgt, ast.Name) and tgt.id == "INTEGER_ENCODING_MAP":
            node = val
    return node


def codecs(r, env, vint, SE, DE):
    V = env.field("VariableLengthInteger")
    enc, dec = set(), set()
    for q, fi in r.prog.funcs.items():
        if q.startswith("binobj.varints.") and fi.cls is None and "<locals>" not in q:
            if fi.name.startswith("encode_integer"):
                enc.add(q)
            elif fi.name.startswith("decode_integer"):
                dec.add(q)
    if len(enc) < 4 or len(dec) < 4:
        r.unknown(vint, "codec functions", f"{len(enc)} encoders, {len(dec)} decoders found")
    raised = set()
    for q in sorted(enc):
        res = r.run(q)
        if res is None:
            r.unknown(vint, q, "not analysable")
            continue
        for p in res.raises():
            n, o = exc_origin(p.value)
            if o is None:
                raised.add(n)
        r.ok(vint, q)
    fi = env.func(V, "_do_dump")
    res = r.run(fi, V, fork_all=True)
    if res is not None:
        caught = set()
        for p in res.paths:
            for e in p.events:
                if e.kind == "except" and origin_event(p, e) is not None and is_codec_call(origin_event(p, e), "_encode_integer_fn"):
                    if p.kind == "raise" and p.value[0] == "exc" and env.exc_is(exc_origin(p.value)[0], SE):
                        caught |= set(e.extra or ())
        for n in sorted(raised | {"OverflowError"}):
            r.verdict(vint, f"{fi.qual} converts {short(n)}", None if env.exc_is(n, SE) or any(env.exc_is(n, c) for c in caught)
                      else f"{short(n)} raised by an encoder leaves the field unconverted")
    for q in sorted(dec):
        res = r.run(q, None, conv_raises=True)
        r.each(vint, q, res, lambda p: None if p.kind != "raise" or exc_origin(p.value)[1] is not None and
               exc_origin(p.value)[0] == "AnyExc" or env.exc_is(exc_origin(p.value)[0], DE)
               else f"a decoder raises {short(exc_origin(p.value)[0])}")


def is_codec_call(e, name):
    return e.name == name or e.name == "()" and e.recv is not None and e.recv[0] == "attr" and e.recv[2] == name
