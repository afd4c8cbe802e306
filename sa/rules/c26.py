"""C26: null-terminated strings end at the first terminator and always carry one."""
from .common import *

TECHNIQUE = "path-sensitive dataflow: loop-carried accumulation, provenance of the decoded characters, and interval facts at every one-byte read"

NUL = C("\0")
STR_METHODS = ("strip", "rstrip", "lstrip", "partition", "rpartition", "split", "rsplit", "replace", "lower", "upper", "title",
               "casefold", "capitalize", "swapcase", "removesuffix", "removeprefix", "translate", "expandtabs", "splitlines",
               "normalize", "ljust", "rjust", "center", "zfill")


def altered(p, t, src, depth=0):
    """t is what a string method made of src."""
    if depth > 5:
        return False
    for s in subterms(t):
        if s[0] == "res":
            e = call_event(p, s)
            if e is None:
                continue
            if e.name in STR_METHODS and (e.recv is not None and src(e.recv) or any(src(a) for a in e.args)):
                return True
            if any(altered(p, a, src, depth + 1) for a in ([e.recv] if e.recv else []) + list(e.args)):
                return True
        if s[0] == "app" and s[1] in STR_METHODS and any(src(x) for x in s[2:] if isinstance(x, tuple)):
            return True
        if s[0] == "slice" and src(s[1]):
            return True
    return False


def check(r):
    env = Env(r.prog)
    dump = r.rule("R1 one terminator", "What a null-terminated string writes is its text followed by exactly one NUL, encoded "
                  "together in the field's own encoding.")
    src = r.rule("R2 byte by byte", "The text is decoded incrementally in the field's own encoding from single bytes of the stream, "
                 "limited by the field's size when and only when it has one, and the stream is not read in any other way.")
    stop = r.rule("R3 first terminator", "Loading returns at the first decoded NUL, only then, and returns exactly the characters "
                  "before it.")
    miss = r.rule("R4 no terminator", "Running out of bytes without a terminator raises.")
    gen = r.rule("R5 single bytes", "The byte iterator reads one byte at a time, yields exactly what it read, never reads when the "
                 "limit is used up and stops earlier only at the end of the data.")
    base = env.field("StringZ")
    for cq in [base] + sorted(r.prog.subclasses.get(base, ())):
        f = env.func(cq, "_do_dump")
        res = r.run(f, cq)
        r.each(dump, f"{f.qual} [{short(cq)}]", res, lambda p: dumps(p, res), need=1)
        f2 = env.func(cq, "_do_load")
        res2 = r.run(f2, cq)
        tag = f"{f2.qual} [{short(cq)}]"
        gens = set()
        r.each(src, tag, res2, lambda p: sourced(p, res2, gens), paths=res2.all if res2 else None, need=2)
        r.each(stop, tag, res2, lambda p: stops(p, res2), paths=res2.all if res2 else None, need=2)
        r.each(miss, tag, res2, lambda p: misses(p, res2), need=1)
    # the byte iterator is public
    q = env.modfunc("binobj.helpers", "iter_bytes")
    res3 = r.run(q)
    r.each(gen, q.qual, res3, lambda p: single(p, res3), paths=res3.all if res3 else None, need=3)


# ------------------------------------------------------------------ dumping
def text_plus_nul(p, t, data):
    """None / problem / (UNKNOWN, ..) for a string term that should be data + NUL."""
    if t == data:
        return "the terminator is missing"
    parts = pieces(t)
    if parts is None:
        return UNKNOWN, f"encodes {show(t)}"
    if parts == [data, NUL]:
        return None
    if any(x[0] == "c" and isinstance(x[2], str) and x[2] == "" for x in parts):
        parts = [x for x in parts if x != C("")]
        if parts == [data, NUL]:
            return None
    if parts and parts[0] == data and all(x[0] == "c" for x in parts[1:]):
        return f"{show(t)} is encoded instead of the text and one NUL"
    if parts and parts[-1] == NUL and len(parts) == 2:
        if mentions(parts[0], data) or altered(p, parts[0], lambda x: x == data):
            return f"{show(parts[0])} is written instead of the text itself"
    if NUL not in parts:
        return "the terminator is missing"
    return UNKNOWN, f"encodes {show(t)}"


def pieces(t):
    if t[0] == "op" and t[1] == "+":
        a, b = pieces(t[2]), pieces(t[3])
        return None if a is None or b is None else a + b
    if t[0] == "fstr":
        out = []
        for x in t[1]:
            y = pieces(x)
            if y is None:
                return None
            out += y
        return out
    if t[0] == "app" and t[1] == "format" and len(t) == 3:
        return [t[2]]
    if t[0] == "app" and t[1] == "str" and len(t) == 3:
        return [t[2]]
    if t[0] == "lin":
        return None
    return [t]


def dumps(p, res):
    if p.kind != "return":
        return False
    S, data = res.self, res.p(2)
    ws = [e for e in p.events if e.kind == "call" and e.recv == res.p(1) and e.name == "write"]
    if len(ws) != 1 or ws[0].loops:
        if not ws:
            return "nothing is written"
        return UNKNOWN, "writes several pieces"
    W = ws[0].args[0]
    e = call_event(p, W)
    if e is not None and e.name == "encode" and e.recv is not None:
        enc = arg(e, "encoding", 0)
        if enc != ("attr", S, "encoding"):
            return f"encoded as {show(enc) if enc else 'the default encoding'}, not in the field's encoding"
        return text_plus_nul(p, e.recv, data)
    if W[0] == "op" and W[1] == "+":
        a, b = call_event(p, W[2]), call_event(p, W[3])
        if W[3][0] == "c" and a is not None and a.name == "encode":
            if isinstance(W[3][2], bytes):
                return f"the terminator is always {W[3][2]!r}, whatever the encoding"
        if a is not None and b is not None and a.name == b.name == "encode" and b.recv == NUL:
            return "the terminator is encoded on its own: encodings with a byte order mark write a second one"
    if W[0] == "op" and W[1] == "%" or W[0] == "app" and W[1] in ("bytes", "bytearray"):
        return UNKNOWN, f"writes {show(W)}"
    return UNKNOWN, f"writes {show(W)}"


# ------------------------------------------------------------------ loading
def decoder(p, res):
    """(loop, source event) of the loop over the decoded characters."""
    for l in loops(p):
        b = strip_copy(l.base)
        e = call_event(p, b) if b is not None else None
        if e is not None and (b[-1] == "codecs.iterdecode" or e.name in ("iterdecode", "codecs.iterdecode")):
            return l, e
    return None, None


def sourced(p, res, gens):
    S, stream = res.self, res.p(1)
    reads = [e for e in p.events if e.kind == "call" and e.recv == stream and e.name not in ("tell", "seekable", "readable")]
    l, e = decoder(p, res)
    if e is None:
        return (UNKNOWN, "no incremental decoding of single bytes found") if p.kind == "return" or reads else False
    if reads:
        return f"the stream is also used directly ({reads[0].name})"
    it = e.args[0] if e.args else None
    enc = arg(e, "encoding", 1)
    if enc != ("attr", S, "encoding"):
        return f"decoded as {show(enc) if enc else '?'}, not in the field's encoding"
    if it is None or it[0] != "gen":
        return UNKNOWN, f"decodes {show(it) if it else '?'}"
    g = res.engine.gens.get(it[1])
    if g is None:
        return UNKNOWN, "unknown generator"
    fi, args, kw, _ = g
    if fi.qual != "binobj.helpers.iter_bytes" and fi.name != "iter_bytes":
        return UNKNOWN, f"decodes what {fi.qual} yields"
    a = dict(zip(fi.params(), args))
    a.update(kw)
    ps = fi.params()
    if a.get(ps[0]) != stream:
        return f"bytes are taken from {show(a.get(ps[0])) if a.get(ps[0]) else '?'}"
    lim = a.get(ps[1], NONE) if len(ps) > 1 else NONE
    unsized = isc(p, ("attr", S, "_size"), NONE)
    if unsized is None:
        unsized = isc(p, ("attr", S, "size"), NONE)
    ge = call_event(p, lim)
    if ge is not None and ge.name == "get_expected_size" and ge.recv == S:
        fv = arg(ge, "field_values", 0)
        if fv != res.p(3):
            return "the size limit isn't resolved with the values loaded so far"
        if unsized is True:
            return "a string without a size is limited"
        if unsized is None:
            return "the limit is computed without checking that a size was declared"
        return None
    if lim == NONE or isc(p, lim, NONE) is True:
        if unsized is True:
            return None
        return "a string with a declared size is read without a limit"
    if lim in (("attr", S, "_size"), ("attr", S, "size")):
        return "the size limit isn't resolved through the loaded values"
    if unsized is True:
        return f"a string without a size is limited to {show(lim)}"
    if lim[0] == "lin":
        if any(mentions(lim, x.res) for x in p.events if x.kind == "call" and x.res is not None and x.recv == S
               and x.name == "get_expected_size"):
            return f"the limit is {show(lim)} instead of the field's size"
    return UNKNOWN, f"limited by {show(lim)}"


def content(p, v, l, els, depth=0):
    """What the returned value consists of: 'buffer' (everything accumulated), or a problem."""
    e = call_event(p, v)
    if e is not None and e.name == "getvalue":
        return ("buf", e.recv)
    if e is not None and e.name == "join" and e.recv == C(""):
        return ("buf", e.args[0])
    if v[0] == "app" and v[1] == "join" and len(v) == 4 and v[2] == C(""):
        return ("buf", v[3])
    if v[0] == "app" and v[1] == "str" and len(v) == 3:
        return content(p, v[2], l, els, depth + 1)
    if v[0] == "phi":
        return ("phi", v)
    return None


def added(p, l, buf):
    """Terms added to the buffer during the current iteration."""
    out = []
    for x in l.events():
        if x.recv == buf and (x.kind == "call" and x.name in ("write", "append") or x.kind in ("append", "extend")):
            out.append(x.args[0] if x.args else None)
    return out


def stops(p, res):
    l, e = decoder(p, res)
    if l is None:
        return False
    els = l.elem()
    el = next(iter(els))
    isnul = None
    for t in els:
        v = eq_fact(p, t, NUL)
        isnul = v if v is not None else isnul
    if p.kind == "loopback":
        if current_loop(p).lid != l.lid:
            return False
        if isnul is True:
            return "reading goes on after a terminator"
        ph = [k for k, v in l.info.get("posts", {}).items()]
        acc = [x for x in l.events() if x.kind in ("append", "extend") or x.kind == "call" and x.name in ("write", "append")]
        got = [x.args[0] for x in acc if x.args]
        if isnul is None:
            if tv(p, el) is False and not got:
                return None                # nothing decoded
            return UNKNOWN, "goes on without comparing the character with NUL"
        if got:
            if len(got) == 1 and got[0] in els:
                return None
            return f"{', '.join(show(g) for g in got)} is kept instead of the decoded character"
        for k, post in l.info.get("posts", {}).items():
            if post[0] == "op" and post[1] == "+" and post[2] == ("phi", l.lid, k):
                return None if post[3] in els else f"{show(post[3])} is kept instead of the decoded character"
        return "a decoded character is dropped"
    if p.kind != "return":
        return False
    if l.how == "exhausted":
        return "returns although no terminator was found"
    if isnul is False:
        return "stops at a character that isn't a terminator"
    if isnul is None:
        return UNKNOWN, "returns without comparing the character with NUL"
    c = content(p, p.value, l, els)
    if c is None:
        if altered(p, p.value, lambda x: content(p, x, l, els) is not None):
            return f"{show(p.value)} is returned instead of the characters before the terminator"
        return UNKNOWN, f"returns {show(p.value)}"
    if c[0] == "buf":
        # nothing but the characters before may have been put into the buffer
        if added(p, l, c[1]):
            return "the terminator is part of the returned text"
        for x in p.events:
            if x.recv == c[1] and l.lid not in x.loops and (x.kind in ("append", "extend") or x.kind == "call" and
                                                            x.name in ("write", "append", "truncate", "seek")):
                return "something other than the decoded characters is put into the text"
        a = call_event(p, c[1]) or next((x for x in p.events if x.res == c[1]), None)
        if a is not None and any(t != C("") for t in list(a.args)):
            return UNKNOWN, "the text doesn't start out empty"
        return None
    k = c[1][2]
    init = l.info.get("inits", {}).get(k)
    if init is not None and init != C(""):
        return f"the text starts out as {show(init)}"
    return None


def misses(p, res):
    l, e = decoder(p, res)
    if l is None or l.how != "exhausted":
        return False
    return None if p.kind == "raise" else "returns although no terminator was found"


# ------------------------------------------------------------------ the iterator
class Counter:
    """A loop-carried number that tells how many bytes were read: (term - start) * step."""

    def __init__(self, key, start, step):
        self.key, self.start, self.step = key, start, step

    def read(self, t):
        d = lin_add(t, self.start, -1)
        return d if self.step == 1 else lin_scale(d, -1)


def counters(res, M):
    """Counters by loop node; steps from the loop-back paths on which something was read."""
    out = {}
    for lb in res.lbs:
        l = current_loop(lb)
        for k, i in (l.info.get("inits") or {}).items():
            ph, post = ("phi", l.lid, k), (l.info.get("posts") or {}).get(k)
            if post is None or not (is_num_const(i) or mentions(i, M)):
                continue
            if isc(lb, ph, NONE) is True:
                continue
            d = lin_add(post, ph, -1)
            out.setdefault(id(l.node), {}).setdefault(k, []).append((i, d))
        if l.mode == "count" or l.base is not None and "count" in str(l.base[:2]):
            out.setdefault(id(l.node), {})
    got = {}
    for node, ks in out.items():
        for k, lst in ks.items():
            i = lst[0][0]
            if all(is_num_const(d) and d[2] == lst[0][1][2] for _, d in lst) and lst[0][1][2]:
                got.setdefault(node, []).append(Counter(k, i, 1 if lst[0][1][2] > 0 else -1))
    return got


def single(p, res):
    stream = res.params[0]
    M = res.params[1] if len(res.params) > 1 else None
    l = next((x for x in loops(p)), None)
    if l is None:
        return (UNKNOWN, "no loop") if p.kind == "return" else False
    if p.kind not in ("return", "loopback"):
        return False
    ks = counters(res, M).get(id(l.node), [])
    base = l.base
    ranged = base is not None and (base[0] == "range" or base[0] == "app" and base[1] == "range")
    probs = []
    for c in ks or [None]:
        v = walk(p, stream, M, l, c, ranged)
        if v is None:
            return None
        probs.append(v)
    hard = [v for v in probs if isinstance(v, str)]
    return hard[0] if len(hard) == len(probs) else next(v for v in probs if not isinstance(v, str))


def walk(p, stream, M, l, c, ranged):
    unlimited = isc(p, M, NONE) is True
    began = False
    start = C(0)
    if l.iter:
        ph = ("phi", l.lid, c.key) if c is not None else None
        if c is not None and isc(p, ph, NONE) is True and c.start == M:
            unlimited = True
        if c is not None:
            start = c.read(ph)
        elif not unlimited:
            idx = [("count", l.lid)]
            start = None
    k = 0
    pending = None
    last = None
    counted = ()
    for e in p.events:
        if e.kind == "call" and e.recv == stream and e.name not in ("tell", "seekable", "readable"):
            if e.name != "read":
                return f"uses {e.name}() to get a byte"
            n = e.args[0] if e.args else NONE
            if n != C(1):
                return f"reads {show(n)} bytes at a time" if is_num_const(n) or n == NONE or n == M else \
                    (UNKNOWN, f"reads {show(n)}")
            if pending is not None:
                return "a byte is read and dropped"
            if not unlimited and not ranged:
                if start is None:
                    return (UNKNOWN, "cannot follow how the limit is counted") if mentions_any(e, M) else \
                        "bytes are read without counting them against the limit"
                f = e.facts if e.facts is not None else p.facts
                if f.decide_lin(lin_add(start, C(k)), "<", M) is not True:
                    return "a byte is read although the limit may be used up"
            full = nonempty_read(p, e.res)
            last = e.res
            if full is False:
                continue
            k += 1
            pending = e.res
        elif e.kind == "yield":
            y = e.args[0]
            if pending is None:
                return "yields more than the bytes read"
            if y != pending:
                return (UNKNOWN, f"yields {show(y)}") if y[0] in ("unk", "res") else f"yields {show(y)} instead of the byte read"
            pending = None
    if pending is not None:
        if p.kind == "return" and nonempty_read(p, pending) is None:
            return "stops at a byte that is not the end of the data"
        return "a byte is read and dropped"
    if p.kind == "loopback":
        if last is not None and nonempty_read(p, last) is False:
            return UNKNOWN, "reads on after the end of the data"
        if not unlimited and not ranged and c is not None:
            post = (l.info.get("posts") or {}).get(c.key)
            if post is None or lin_add(c.read(post), start, -1) != C(k):
                return "the bytes read are counted wrong"
        return None
    if last is not None and nonempty_read(p, last) is False:
        return None
    if ranged:
        return None
    if unlimited:
        return "stops although there is no limit and data is left" if last is not None else \
            "stops without reading although there is no limit"
    if start is None:
        return UNKNOWN, "cannot follow how the limit is counted"
    n = lin_add(start, C(k))
    if fact_lin(p, n, ">=", M) is True:
        return None
    if fact_lin(p, n, "<", M) is True:
        return "stops although the limit isn't used up"
    return UNKNOWN, "cannot tell whether the limit is used up"


def mentions_any(e, M):
    f = e.facts
    return f is not None and any(len(key) > 1 and any(mentions(t, M) for t, _ in key) for key in f.ivl)


def nonempty_read(p, R):
    if fact_lin(p, ("app", "len", R), ">=", C(1)) is True or tv(p, R) is True or eq_fact(p, R, C(b"")) is False:
        return True
    if fact_lin(p, ("app", "len", R), "==", C(0)) is True or tv(p, R) is False or eq_fact(p, R, C(b"")) is True:
        return False
    return None
