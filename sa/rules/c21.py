"""C21: loading, dumping and inspecting leave no hidden state behind."""
import ast

from .common import *

TECHNIQUE = "effect analysis: every write made by an operation is traced to the object it changes, which must be created by that operation"

WRITES = ("setattr", "delattr", "setitem", "delitem", "update", "append", "extend", "mutcall", "setslice", "setglobal", "setdefault")
MUTATING = ("append", "add", "pop", "update", "setdefault", "clear", "extend", "insert", "remove", "popitem", "sort", "reverse",
            "discard", "appendleft", "popleft", "__setitem__", "__setattr__", "__delitem__", "__delattr__", "__set__",
            "__delete__", "move_to_end", "rotate", "intersection_update", "difference_update")
BUFFER = ("write", "truncate", "seek", "read", "readinto", "writelines", "send", "__next__")
DEFINING = ("__init__", "__new__", "bind_to_container", "__set_name__", "__set__", "__delete__", "computes", "__init_subclass__",
            "__class_getitem__", "__post_init__", "__setattr__", "__delattr__", "__setitem__", "__delitem__")
CACHES = ("cached_property", "lru_cache", "cache", "singledispatchmethod", "cachedmethod")
VALUES = ("compute_value_for_dump", "get_field", "__getitem__", "__getattribute__", "to_dict_value")
FRESH = ("from_stream", "from_bytes", "to_bytes", "to_dict", "partial_load", "make_field_instance", "_do_load", "getvalue",
         "deepcopy")


def owner(p, t, S, depth=0):
    """Whose object is t: 'local', 'self', 'param', 'global', 'value' or None (not known)."""
    if t is None or depth > 14:
        return None
    k = t[0]
    if k in ("new", "exc", "slice", "fstr", "c", "lin", "op", "tup", "lam", "partial", "gen", "genx", "bound", "idx", "kwd"):
        return "local"
    if k == "copy":
        return "local"
    if k == "p":
        return "self" if t == S else "param"
    if t == S:
        return "self"
    if k in ("globv", "glob", "ext", "cls", "fn", "mod", "enum"):
        return "global"
    if k == "view":
        return owner(p, t[2], S, depth + 1)
    if k == "attr":
        b = t[1]
        if b[0] == "copy":
            return "local" if "deep" in str(b[2]) else owner(p, ("attr", b[3], t[2]), S, depth + 1)
        if b[0] == "new" or b[0] == "exc":
            return "local"
        o = owner(p, b, S, depth + 1)
        return "value" if o == "value" else o
    if k in ("sub", "elem", "key"):
        c = t[1]
        if c[0] == "copy":
            return "local" if "deep" in str(c[2]) else owner(p, (k, c[3]) + t[2:], S, depth + 1)
        o = owner(p, c, S, depth + 1)
        if o == "local":
            if c[0] == "new":
                vs = [e.args[-1] for e in p.events if e.recv == c and e.kind in ("append", "setitem") and e.args]
                os_ = {owner(p, v, S, depth + 1) for v in vs}
                if os_ == {"local"}:
                    return "local"
            return None
        return o
    if k == "app":
        if t[1] in ("vars", "type", "super", "iter", "reversed", "next", "getattr") and len(t) >= 3:
            return "global" if t[1] == "type" else owner(p, t[2], S, depth + 1)
        if t[1] in ("dict", "list", "set", "tuple", "sorted", "bytes", "bytearray", "str", "len", "int", "frozenset"):
            return "local"
        return None
    if k == "res":
        e = call_event(p, t)
        if e is None:
            return None
        if e.kind == "construct":
            return "local"
        if e.name in FRESH:
            return "local"
        if e.name in VALUES:
            return "value"
        if e.name in ("get", "pop", "setdefault", "__getitem__", "getattr", "popitem") and e.recv is not None:
            return owner(p, e.recv, S, depth + 1)
        if e.name in ("io.BytesIO", "BytesIO", "bytearray", "dict", "list", "set", "super"):
            return "local"
        if e.name == "()" and e.recv is not None and e.recv[0] in ("cls", "p") or e.name == "()" and e.recv is not None and \
                e.recv[0] == "attr" and e.recv[2] == "struct_class":
            return "local"          # an instance just created
        return None
    return None


def check(r):
    env = Env(r.prog)
    fld = r.rule("R1 fields", "No method of a field that takes part in loading, dumping, sizing or computing a value writes to "
                 "anything but objects it created itself.")
    st = r.rule("R2 structs", "No struct method other than construction and item assignment or deletion writes to anything but "
                "objects it created itself; in particular neither to the struct's values nor to an argument.")
    fn = r.rule("R3 helpers", "No module-level function of the package used by these operations changes its arguments or a "
                "module's state.")
    cache = r.rule("R4 no caches", "No such method memoizes its results.")
    gen = r.rule("R5 no iterators", "No field keeps a one-shot iterator among its configuration.")
    todo = set()
    for cq in env.field_classes():
        for name in methods(r.prog, cq):
            if name in DEFINING:
                continue
            todo.add((r.prog.find_method(cq, name), cq, fld))
        fi = env.func(cq, "__init__")
        res = r.run(fi, cq)
        r.each(gen, f"{fi.qual} [{short(cq)}]", res, lambda p: iterators(p, res.self))
    structs = [env.STRUCT, env.META] + sorted(r.prog.subclasses.get(env.STRUCT, ()))
    for cq in structs + proxies(r.prog, env):
        for name in methods(r.prog, cq):
            if name in DEFINING or cq == env.META and name not in ("get_size",):
                continue
            todo.add((r.prog.find_method(cq, name), cq, st))
    for q, f in sorted(r.prog.funcs.items()):
        if f.cls is None and f.name in ("recursive_to_dicts", "is_struct") or f.cls is None and \
                f.module.name in ("binobj.varints", "binobj.helpers") and "." not in q[len(f.module.name) + 1:]:
            todo.add((f, None, fn))
    for q, c in sorted(r.prog.classes.items()):
        if not r.prog.is_subclass(q, env.FIELD) and not r.prog.is_subclass(q, env.STRUCT):
            for name in ("__call__", "__get__"):
                if name in c.methods:
                    todo.add((c.methods[name], q, fn))
    seen_funcs = set()
    order = sorted(todo, key=lambda x: (inlined(x[0], x[2] == fn), x[0].qual, x[1] or ""))
    defined = None
    for fi, cq, rule in order:
        if abstract(fi):
            continue
        if inlined(fi, rule == fn):
            # its writes are judged where it is called, with the caller's objects
            if fi.qual in seen_funcs:
                continue
            if defined is None:
                defined = defining(r, env)
            if fi.qual in defined:
                continue
        res = r.run(fi, cq) if cq else r.run(fi)
        tag = fi.qual + (f" [{short(cq)}]" if cq else "")
        r.each(rule, tag, res, lambda p: writes(p, res.self if cq else None, inlined(fi, rule == fn)), paths=res.all if res else None, need=0)
        if res is not None:
            r.ok(rule, tag)
            seen_funcs |= res.engine.functions_seen
    for q in sorted(seen_funcs):
        f = r.prog.funcs.get(q)
        if f is None:
            continue
        bad = None
        for d in getattr(f.node, "decorator_list", ()):
            n = d.func if isinstance(d, ast.Call) else d
            nm = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else ""
            if nm in CACHES:
                bad = nm
        if bad is None:
            r.ok(cache, q)
        elif f.cls is not None or bad == "cached_property":
            r.bad(cache, q, f"results are kept by @{bad}", where=f"{f.module.relpath}:{f.node.lineno}")
        else:
            r.unknown(cache, q, f"results are kept by @{bad}")


def methods(prog, cq):
    out = set()
    for k in prog.classes[cq].mro:
        ci = prog.classes.get(k)
        if ci is not None:
            out |= set(ci.methods)
    return sorted(out)


def proxies(prog, env):
    return [q for q, c in sorted(prog.classes.items()) if c.name.endswith("MappingProxy")] if hasattr(
        next(iter(prog.classes.values())), "name") else [q for q in sorted(prog.classes) if q.endswith("MappingProxy")]


def abstract(fi):
    body = [n for n in fi.node.body if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant))]
    return not body or any("overload" in ast.dump(d) for d in fi.node.decorator_list)


def defining(r, env):
    """Functions reached only while classes and fields are being defined."""
    out = set()
    for cq in env.field_classes() + [env.STRUCT]:
        for name in DEFINING:
            fi = r.prog.find_method(cq, name)
            if fi is not None:
                res = r.run(fi, cq)
                if res is not None:
                    out |= res.engine.functions_seen
    return out


KNOWN = ("recursive_to_dicts", "is_struct", "iter_bytes", "read_int", "peek_bytes", "write_int", "can_peek")


def inlined(fi, module_level):
    """A helper whose arguments are followed from its callers."""
    from ..engine import VOCAB
    n = fi.name
    if n in VOCAB or n.startswith("__") and n.endswith("__"):
        return False
    if module_level:
        return not (n in KNOWN or n.startswith(("encode_integer_", "decode_integer_")))
    if not n.startswith("_"):
        return False
    a = fi.node.args
    return not any(isinstance(d, (ast.Dict, ast.List, ast.Set, ast.Call)) for d in list(a.defaults) + list(a.kw_defaults))


def writes(p, S, helper=False):
    for e in p.events:
        tgt = None
        what = e.kind
        if e.kind in WRITES:
            if e.kind == "setglobal":
                return f"changes the module variable {e.name}"
            tgt = e.recv
        elif e.kind == "call" and e.name in MUTATING and e.recv is not None:
            tgt, what = e.recv, e.name
            if tgt[0] in ("ext", "cls", "mod") and e.args:
                tgt = e.args[0]
        elif e.kind == "call" and e.name in BUFFER and e.recv is not None:
            if owner(p, e.recv, S) not in ("self", "global"):
                continue
            tgt, what = e.recv, e.name
        elif e.kind == "call" and e.name in ("next", "builtins.next") and e.args:
            if owner(p, e.args[0], S) not in ("self", "global"):
                continue
            tgt, what = e.args[0], "next"
        elif e.kind == "call" and str(e.name).endswith(("__setattr__", "__delattr__")) and e.args:
            tgt, what = e.args[0], e.name
        if tgt is None:
            continue
        o = owner(p, tgt, S)
        if o == "local" or o == "param" and helper:
            continue
        nm = f".{e.name}" if e.kind in ("setattr", "delattr") and e.name else ""
        if o is None:
            # an exception being annotated
            if any(x.kind in ("except", "newexc") and (x.res == tgt or tgt in x.args) for x in p.events):
                continue
            return (UNKNOWN, f"{what} on {show(tgt)}{nm}")
        return f"{what} on {show(tgt)}{nm}, which outlives the operation"
    return False


def iterators(p, S):
    if p.kind != "return":
        return False
    for key, v in p.state.heap.items():
        if len(key) == 2 and key[0] == S and v is not None:
            if v[0] in ("gen", "genx") or v[0] == "app" and v[1] in ("iter", "map", "filter", "zip", "reversed", "enumerate"):
                return f"{key[1]} is a one-shot iterator"
    return None
