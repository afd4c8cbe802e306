"""C24: variable-length integers are self-delimiting."""
from fractions import Fraction
from math import ceil, floor

from .common import *
from .c14 import ctor_param

TECHNIQUE = "known-bits and bit-slice dataflow over the codec loops, with exact arithmetic on encoded lengths by residue classes modulo 7"

# format: (byte order, signed, payload bits of the first byte)
SPEC = {"COMPACT_INDICES": ("big", True, 6), "LEB128": ("little", True, 7), "ULEB128": ("little", False, 7),
        "VLQ": ("big", False, 7)}


def check(r):
    env = Env(r.prog)
    bits = r.rule("R1 bytes", "In every encoder each byte stored carries exactly the next seven bits of the number (the "
                  "first byte of the sign-bit format six and the sign), all bytes but the last have their top bit set and "
                  "the last has it clear.")
    size = r.rule("R2 length", "The number of bytes is exactly what the number's bit length (plus a sign bit) needs.")
    order = r.rule("R3 byte order", "The bytes are produced and consumed in the byte order of the format.")
    dec = r.rule("R4 decoding", "Decoders read one byte at a time, continue exactly while its top bit is set, take seven bits "
                 "from every byte (six from the first in the sign-bit format) and consume nothing else.")
    neg = r.rule("R5 negatives", "Unsigned encoders raise ValueError exactly for negative numbers.")
    mx = r.rule("R6 max_bytes", "The encoding is written whole and only when it is no longer than max_bytes, otherwise "
                "ValueSizeError is raised; the decoder's result is returned as it is.")
    V = env.field("VariableLengthInteger")
    fi = env.func(V, "__init__")
    res = r.run(fi, V)
    table = {}
    if res is None:
        for x in (bits, dec, neg):
            r.unknown(x, fi.qual, "not analysable")
    else:
        t = ctor_param(res, "vli_format")
        for p in res.returns():
            m = p.facts.const_of(t)
            if m is None or m[0] != "enum":
                continue
            E, D = final_attr(p, res.self, "_encode_integer_fn"), final_attr(p, res.self, "_decode_integer_fn")
            if E and D and E[0] == "fn" and D[0] == "fn":
                table[m[2]] = (E[1], D[1])
    for name, spec in sorted(SPEC.items()):
        if name not in table:
            r.unknown(bits, name, "codec functions not resolved")
            r.unknown(dec, name, "codec functions not resolved")
            continue
        enc, d = table[name]
        fe = r.prog.need_func(enc)
        rese = r.run(fe)
        tag = f"{name} {enc}"
        r.each(bits, tag, rese, lambda p: encoded(p, rese, spec)["bits"])
        r.each(size, tag, rese, lambda p: encoded(p, rese, spec).get("size", False))
        r.each(order, tag, rese, lambda p: encoded(p, rese, spec).get("order", False))
        if rese is not None:
            r.each(bits, tag + " loop", rese, lambda p: loop_store(p, rese, spec), paths=rese.lbs, need=0)
        r.each(neg, tag, rese, lambda p: negatives(p, rese, spec), need=1)
        fd = r.prog.need_func(d)
        resd = r.run(fd)
        tag = f"{name} {d}"
        r.each(dec, tag, resd, lambda p: decoded(p, resd, spec, order=False), paths=resd.all if resd else None, need=2)
        r.each(order, tag, resd, lambda p: decoded(p, resd, spec, order=True), paths=resd.all if resd else None, need=2)
    for cq in [V] + sorted(r.prog.subclasses.get(V, ())):
        fi = env.func(cq, "_do_dump")
        res2 = r.run(fi, cq, fork_all=True)
        r.each(mx, f"{fi.qual} [{short(cq)}]", res2, lambda p: bounded(p, res2, env), need=3)
        fi = env.func(cq, "_do_load")
        res3 = r.run(fi, cq)
        r.each(mx, f"{fi.qual} [{short(cq)}]", res3, lambda p: plain(p, res3))
        fi = env.func(cq, "__init__")
        res4 = r.run(fi, cq)
        r.each(mx, f"{fi.qual} [{short(cq)}]", res4, lambda p: False if p.kind != "return" else None if final_attr(
            p, res4.self, "max_bytes") == ctor_param(res4, "max_bytes") else "the given max_bytes is not the one enforced")


# ------------------------------------------------------------------ bit slices
class Odd(Exception):
    pass


def pow2(n):
    return n.bit_length() - 1 if isinstance(n, int) and n > 0 and n & (n - 1) == 0 else None


def slices(t):
    """([(source, mask, shift term)], constant) such that t is the union of (source & mask) << shift and the constant."""
    if is_num_const(t):
        return [], int(t[2])
    if t[0] == "op":
        op, a = t[1], t[2]
        b = t[3] if len(t) > 3 else None
        if op == "|" or op == "+" or op == "^":
            p1, c1 = slices(a)
            p2, c2 = slices(b)
            return p1 + p2, c1 | c2
        if op == "&":
            for x, m in ((a, b), (b, a)):
                if is_num_const(m):
                    ps, c = slices(x)
                    out = []
                    for s, k, sh in ps:
                        if not is_num_const(sh):
                            raise Odd(show(t))
                        mm = int(m[2]) >> sh[2]
                        out.append((s, mm if k is None else k & mm, sh))
                    return out, c & int(m[2])
            return [(t, None, C(0))], 0
        if op == "%" and is_num_const(b) and pow2(b[2]) is not None:
            return slices(("op", "&", C(b[2] - 1), a))
        if op == "<<":
            ps, c = slices(a)
            if c and not is_num_const(b):
                raise Odd(show(t))
            return [(s, k, lin_add(sh, b)) for s, k, sh in ps], c << b[2] if c else 0
        if op == "*":
            for x, m in ((a, b), (b, a)):
                if is_num_const(m) and pow2(m[2]) is not None:
                    return slices(("op", "<<", x, C(pow2(m[2]))))
        if op == "//" and is_num_const(b) and pow2(b[2]) is not None:
            return slices(("op", ">>", a, C(pow2(b[2]))))
    if t[0] == "lin":
        ps, c = [], t[2]
        if c < 0:
            return [(t, None, C(0))], 0
        for s, k in t[1]:
            n = pow2(k)
            if n is None:
                return [(t, None, C(0))], 0
            q, cc = slices(s)
            if cc:
                raise Odd(show(t))
            ps += [(x, m, lin_add(sh, C(n))) for x, m, sh in q]
        return ps, c
    return [(t, None, C(0))], 0


def bit(t, i):
    """Value of bit i of t, if it is the same for every number."""
    try:
        ps, c = slices(t)
    except Odd:
        return None
    if c >> i & 1:
        return 1
    for s, m, sh in ps:
        if m is None or not is_num_const(sh) or (m << sh[2]) >> i & 1:
            return None
    return 0


def payload(t):
    """(source, mask, constant) of a byte built from one slice."""
    ps, c = slices(t)
    ps = [x for x in ps if x[1] != 0]
    if not ps:
        return None, 0, c
    if len(ps) > 1:
        raise Odd(show(t))
    s, m, sh = ps[0]
    if sh != C(0):
        raise Odd(show(t)) if not is_num_const(sh) else Odd("shifted")
    return s, m, c


# ------------------------------------------------------------------ exact arithmetic modulo 7
def residues(t, nbits, r):
    """Evaluate t as a*q + b where the bit length is 7q + r; None when it is not linear."""
    if t == nbits:
        return Fraction(7), Fraction(r)
    if is_num_const(t):
        return Fraction(0), Fraction(int(t[2]))
    if t[0] == "c" and isinstance(t[2], float) and t[2] == int(t[2]):
        return Fraction(0), Fraction(int(t[2]))
    if t[0] == "lin":
        a, b = Fraction(0), Fraction(t[2])
        for x, k in t[1]:
            v = residues(x, nbits, r)
            if v is None:
                return None
            a, b = a + k * v[0], b + k * v[1]
        return a, b
    if t[0] == "op" and len(t) > 3:
        x, y = residues(t[2], nbits, r), residues(t[3], nbits, r)
        if x is None or y is None:
            return None
        if t[1] == "+":
            return x[0] + y[0], x[1] + y[1]
        if t[1] == "-":
            return x[0] - y[0], x[1] - y[1]
        if t[1] == "*" and (x[0] == 0 or y[0] == 0):
            return x[0] * y[1] + x[1] * y[0], x[1] * y[1]
        if t[1] == "/" and y[0] == 0 and y[1]:
            return x[0] / y[1], x[1] / y[1]
        if t[1] == "//" and y[0] == 0 and y[1]:
            a, b = x[0] / y[1], x[1] / y[1]
            return (a, Fraction(floor(b))) if a.denominator == 1 else None
        if t[1] == "%" and y[0] == 0 and y[1]:
            a = x[0] / y[1]
            return (Fraction(0), x[1] - y[1] * floor(x[1] / y[1])) if a.denominator == 1 else None
    if t[0] == "app" and t[1] in ("ceil", "floor", "int") and len(t) == 3:
        v = residues(t[2], nbits, r)
        if v is None or v[0].denominator != 1:
            return None
        if t[1] == "int" and v[1].denominator != 1:
            return None
        return v[0], Fraction(ceil(v[1]) if t[1] == "ceil" else floor(v[1]))
    if t[0] == "app" and t[1] in ("max", "min") and len(t) == 4:
        x, y = residues(t[2], nbits, r), residues(t[3], nbits, r)
        if x is None or y is None or x[0] != y[0]:
            # a growing term against a constant: decided at q = 0 when monotone
            if x is not None and y is not None and t[1] == "max":
                g, k = (x, y) if x[0] > y[0] else (y, x)
                if k[0] == 0 and g[1] >= k[1]:
                    return g
            return None
        return x[0], max(x[1], y[1]) if t[1] == "max" else min(x[1], y[1])
    return None


def feasible_residue(p, nbits, r):
    """Do the path's facts about terms that depend only on the residue allow it?"""
    for k, v in p.facts.ivl.items():
        if len(k) != 1 or k[0][1] != 1:
            continue
        e = residues(k[0][0], nbits, r)
        if e is None or e[0] != 0:
            continue
        lo, hi, exc = v
        if not lo <= e[1] <= hi or exc and int(e[1]) in exc:
            return False
    for a, v in p.facts.atoms.items():
        if a[0] == "truth":
            e = residues(a[1], nbits, r)
            if e is not None and e[0] == 0 and bool(e[1]) != v:
                return False
    return True


def magnitude(p, x, value, signed):
    """Is x the magnitude of the number on this path?"""
    if x == ("app", "abs", value):
        return True
    if x == value:
        return fact_lin(p, value, ">=", C(0)) is True
    if x == lin_scale(value, -1):
        return fact_lin(p, value, "<=", C(0)) is True
    return False


def at(t, nbits, k):
    """The formula t for a bit length of k, as an exact number; None when it is not a formula of the bit length alone."""
    if t == nbits:
        return Fraction(k)
    if t[0] == "c" and isinstance(t[2], (int, float)):
        return Fraction(t[2])
    if t[0] == "lin":
        out = Fraction(t[2])
        for x, c in t[1]:
            v = at(x, nbits, k)
            if v is None:
                return None
            out += c * v
        return out
    if t[0] in ("op", "app"):
        xs = [at(x, nbits, k) for x in t[2:]]
        if any(x is None for x in xs):
            return None
        if t[0] == "op" and len(xs) == 2:
            x, y = xs
            if t[1] in ("/", "//", "%") and not y:
                return None
            return {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y,
                    "//": lambda: Fraction(floor(x / y)), "%": lambda: x - y * floor(x / y)}.get(t[1], lambda: None)()
        if t[0] == "app" and t[1] in ("max", "min") and xs:
            return max(xs) if t[1] == "max" else min(xs)
        if t[0] == "app" and len(xs) == 1 and t[1] in ("ceil", "floor", "int", "abs"):
            x = xs[0]
            return {"ceil": lambda: Fraction(ceil(x)), "floor": lambda: Fraction(floor(x)), "int": lambda: Fraction(int(x)),
                    "abs": lambda: abs(x)}[t[1]]()
    return None


def tabulated(p, n, nb, spec):
    """A piecewise linear formula, worked out for every bit length well past its last breakpoint."""
    order, signed, first = spec
    if any(is_num_const(x) and abs(x[2]) > 64 for x in subterms(n)):
        return (UNKNOWN, f"length {show(n)} not modelled")
    for k in range(1, 300):
        if p.facts.decide_lin(nb, "==", C(k)) is False or not feasible_residue(p, nb, k % 7):
            continue
        got = at(n, nb, k)
        if got is None:
            return (UNKNOWN, f"length {show(n)} not modelled")
        want = ceil(Fraction(k + 1, 7)) if signed and first == 7 else max(1, 1 + ceil(Fraction(k - 6, 7))) if first == 6 else \
            ceil(Fraction(k, 7))
        if got != want:
            return f"a number of {k} bits is given {got} bytes instead of {want}"
    return None


def right_size(p, n, value, spec):
    """None, a message or an undecided verdict for the number of bytes n."""
    bl = {x for x in subterms(n) if x[0] == "app" and x[1] == "bit_length"}
    if len(bl) != 1:
        return (UNKNOWN, f"length {show(n)} not modelled")
    nb = bl.pop()
    x = nb[2]
    if x != value and x != lin_scale(value, -1) and x != ("app", "abs", value):
        return (UNKNOWN, f"length {show(n)} not modelled")
    order, signed, first = spec
    for r_ in range(7):
        if not feasible_residue(p, nb, r_):
            continue
        got = residues(n, nb, r_)
        if got is None:
            return tabulated(p, n, nb, spec)
        if signed and first == 7:
            want = Fraction(1), Fraction(ceil(Fraction(r_ + 1, 7)))
        elif first == 6:
            want = Fraction(1), Fraction(1 + ceil(Fraction(r_ - 6, 7)))
        else:
            want = Fraction(1), Fraction(ceil(Fraction(r_, 7)))
        if got != want:
            return f"a number of 7q+{r_} bits is given {got[0]}q+{got[1]} bytes instead of {want[0]}q+{want[1]}"
    return None


# ------------------------------------------------------------------ encoders
def buffer_of(v):
    v = strip_copy(v)
    while v is not None and v[0] == "app" and v[1] in ("bytes", "bytearray") and len(v) == 3:
        v = v[2]
    return v


def chain(p, l, V, value):
    """How the loop consumes the number: (init, ok) of the loop-carried source V."""
    if V is None or V[0] != "phi" or V[1] != l.lid:
        return None
    init, post = (l.info.get("inits") or {}).get(V[2]), (l.info.get("posts") or {}).get(V[2])
    return init, post


def shifts7(post, phi):
    try:
        ps, c = slices(post)
    except Odd:
        return None
    if post in (("op", ">>", phi, C(7)), ("op", "//", phi, C(128))):
        return True
    if post[0] == "op" and post[1] in (">>", "//") and post[2] == phi or post == phi:
        return False
    return None


def start_ok(p, init, value, spec, n):
    """Does the loop start from the number (its magnitude in the sign-bit format)?"""
    order, signed, first = spec
    if first == 6:
        return True if magnitude(p, init, value, True) else False if init in (value, lin_scale(value, -1)) else None
    if init == value:
        return True
    if signed and init is not None and init[0] == "op" and init[1] == "&" and n is not None:
        for x, m in ((init[2], init[3]), (init[3], init[2])):
            if x == value:
                for y in subterms(m):
                    if y[0] == "op" and y[1] == "<<" and y[2] == C(1) and m == lin_add(y, C(-1)):
                        bl = [z for z in subterms(n) if z[0] == "app" and z[1] == "bit_length"]
                        if not bl:
                            return None
                        for r_ in range(7):
                            if not feasible_residue(p, bl[0], r_):
                                continue
                            a, b = residues(y[3], bl[0], r_), residues(n, bl[0], r_)
                            if a is None or b is None:
                                return None
                            if a[0] < 7 * b[0] or a[1] < 7 * b[1]:
                                return False
                        return True
    if init == lin_scale(value, -1):
        return False
    return None


def encoded(p, res, spec):
    order, signed, first = spec
    value = res.params[0]
    if p.kind != "return":
        return {"bits": False, "size": False, "order": False}
    v = p.value
    if v[0] == "c":
        b = v[2]
        if not isinstance(b, bytes):
            return {"bits": f"{show(v)} is returned"}
        if fact_lin(p, value, "==", C(0)) is not True:
            return {"bits": f"the constant {show(v)} is returned for numbers other than zero"}
        return {"bits": None if b == b"\0" else f"zero is encoded as {show(v)}"}
    buf = buffer_of(v)
    if buf is None or buf[0] != "new":
        return {"bits": (UNKNOWN, f"{show(v)} is returned")}
    al = next((e for e in p.events if e.kind == "alloc" and e.res == buf), None)
    sets = [(i, e) for i, e in enumerate(p.events) if e.kind == "setitem" and e.recv == buf]
    apps = [(i, e) for i, e in enumerate(p.events) if e.kind == "append" and e.recv == buf]
    others = [e for e in p.events if e.recv == buf and e.kind in ("extend", "update", "mutcall", "setslice", "delitem")]
    if others or apps and sets or al is None:
        return {"bits": (UNKNOWN, "how the bytes are assembled is not modelled")}
    if apps:
        return appended(p, res, spec, buf, apps, value)
    if not al.args:
        return {"bits": (UNKNOWN, "how the bytes are assembled is not modelled")}
    n = al.args[0]
    if not any(x[0] == "app" and x[1] == "bit_length" for x in subterms(n)):
        return {"bits": (UNKNOWN, f"length {show(n)} not modelled")}
    out = {"size": right_size(p, n, value, spec)}
    # the loop over the positions
    ls = [l for l in loops(p) if l.base is not None and positions(l.base, n) is not None]
    if len(ls) != 1:
        return dict(out, bits=(UNKNOWN, "positions not followed"))
    l = ls[0]
    direction, lo, hi = positions(l.base, n)
    if l.how != "exhausted":
        return dict(out, bits="not every byte is filled")
    got = "little" if direction > 0 else "big"
    out["order"] = None if got == order else f"bytes are produced in {got}-endian order"
    inloop = [e for i, e in sets if l.lid in e.loops]
    after = [e for i, e in sets if l.lid not in e.loops and i > l.begin]
    before = [e for i, e in sets if l.lid not in e.loops and i < l.begin]
    if before:
        return dict(out, bits=(UNKNOWN, "a byte is stored before the loop"))
    covered = {"lo": lo, "hi": hi}
    rest = None          # term holding what is left of the number
    if l.iter:
        if len(inloop) != 1:
            return dict(out, bits=(UNKNOWN, "several bytes are stored per step") if inloop else "a byte is not stored")
        e = inloop[0]
        if e.args[0] not in l.elem():
            return dict(out, bits=(UNKNOWN, f"position {show(e.args[0])} not followed"))
        try:
            s, m, c = payload(e.args[1])
        except Odd as x:
            return dict(out, bits=(UNKNOWN, f"{show(e.args[1])} not modelled"))
        ch = chain(p, l, s, value)
        if ch is None:
            return dict(out, bits=(UNKNOWN, f"{show(e.args[1])} is not a slice of what is left of the number"))
        init, post = ch
        if m != 0x7f:
            return dict(out, bits=f"a byte carries the bits {m if m is None else hex(m)} instead of 0x7f")
        if c & ~0x80:
            return dict(out, bits=f"a byte has the constant bits {hex(c)}")
        if c != 0x80:
            return dict(out, bits="a byte that is not the last has its top bit clear")
        sh = shifts7(post, s) if post is not None else None
        if sh is not True:
            return dict(out, bits="the number is not advanced by seven bits per byte" if sh is False else
                        (UNKNOWN, f"step {show(post) if post else None} not modelled"))
        so = start_ok(p, init, value, spec, n)
        if so is not True:
            return dict(out, bits=f"encoding starts from {show(init)}" if so is False else (UNKNOWN, f"start {show(init)}"))
        rest = ("op", ">>", s, C(7))
    clear = None
    for e in after:
        i, t = e.args[0], e.args[1]
        if i in (C(-1), lin_add(n, C(-1))):
            if t == ("op", "&", C(0x7f), ("sub", buf, i)) or t == ("op", "&", ("sub", buf, i), C(0x7f)):
                clear = e
                continue
            if t[0] == "op" and t[1] == "&" and ("sub", buf, i) in t[2:]:
                return dict(out, bits=f"the last byte is masked with {show([x for x in t[2:] if x != ('sub', buf, i)][0])}")
            return dict(out, bits=(UNKNOWN, f"the last byte becomes {show(t)}"))
        if is_num_const(i) and t[0] == "op" and t[1] == "&" and ("sub", buf, i) in t[2:] and bit(t, 7) == 0:
            return dict(out, bits=f"the top bit of the byte at {show(i)} is cleared, which need not be the last")
        if i == C(0) and lo == 1:
            if clear is not None:
                return dict(out, bits="the last byte's top bit is set again for one-byte numbers")
            m = first_byte(p, t, rest, value, spec)
            if m is not None:
                return dict(out, bits=m)
            covered["lo"] = 0
            continue
        return dict(out, bits=(UNKNOWN, f"position {show(i)} not followed"))
    if covered["lo"] != 0 or covered["hi"] is not True:
        return dict(out, bits="not every byte is filled")
    if first == 6 and lo != 1:
        return dict(out, bits=(UNKNOWN, "first byte not followed"))
    if clear is None:
        return dict(out, bits="the last byte keeps its top bit set")
    return dict(out, bits=None)


def first_byte(p, t, rest, value, spec):
    order, signed, first = spec
    try:
        s, m, c = payload(t)
    except Odd:
        return (UNKNOWN, f"{show(t)} not modelled")
    if rest is not None:
        ok = s == rest or s is not None and s[0] == "op" and s[1] == "//" and s[2] == rest[2] and s[3] == C(128)
        if not ok:
            return (UNKNOWN, f"first byte from {show(s) if s else None}") if s is None or s[0] != "phi" else \
                "the first byte repeats bits already stored"
    elif not magnitude(p, s, value, True):
        return (UNKNOWN, f"first byte from {show(s) if s else None}") if s not in (value, lin_scale(value, -1)) else \
            "the first byte of a negative number is not taken from its magnitude"
    if m != (1 << first) - 1:
        return f"the first byte carries the bits {m if m is None else hex(m)} instead of {hex((1 << first) - 1)}"
    if not c & 0x80:
        return "the first byte of a longer number has its top bit clear"
    if first == 6:
        isneg = fact_lin(p, value, "<", C(0))
        if isneg is None:
            return (UNKNOWN, "sign not followed")
        if bool(c & 0x40) != isneg:
            return "the sign bit does not tell negative numbers"
    if c & ~(0xC0 if first == 6 else 0x80):
        return f"the first byte has the constant bits {hex(c)}"
    return None


def positions(base, n):
    """(direction, first index covered, covers the last one) of a loop over byte positions 0..n-1."""
    b = strip_copy(base)
    if b is None:
        return None
    d = 1
    while b[0] == "app" and b[1] == "reversed" and len(b) == 3:
        b, d = strip_copy(b[2]), -d
    if b[0] == "view" or b[0] != "app" or b[1] != "range":
        return None
    a = list(b[2:])
    if len(a) == 1:
        a = [C(0), a[0]]
    st = a[2] if len(a) > 2 else C(1)
    if st == C(1) and a[0] in (C(0), C(1)):
        return d, a[0][2], a[1] == n
    if st == C(-1) and a[1] in (C(-1), C(0)):
        return -d, a[1][2] + 1, lin_add(a[0], C(1)) == n
    return None


def appended(p, res, spec, buf, apps, value):
    order, signed, first = spec
    out = {}
    outside = [(i, e) for i, e in apps if not e.loops]
    inside = [(i, e) for i, e in apps if e.loops]
    if len(outside) > 1 or len(inside) > 1:
        return {"bits": (UNKNOWN, "how the bytes are assembled is not modelled")}
    if outside:
        return last_outside(p, res, spec, outside[0], inside, value)
    ls = [l for l in loops(p) if l.mode is None or l.base is None]
    if not inside:
        if fact_lin(p, value, "==", C(0)) is True:
            return {"bits": "zero is encoded as no byte at all"}
        return {"bits": (UNKNOWN, "no byte is stored")}
    e = inside[0][1]
    l = L(e.loops[-1], p)
    m = one_append(p, l, e, value, spec)
    if m is not None:
        return {"bits": m}
    out["order"] = None if order == "little" else "bytes are produced in little-endian order"
    top = bit(e.args[-1], 7)
    if top is None:
        return dict(out, bits=(UNKNOWN, f"top bit of {show(e.args[-1])} not followed"))
    s = payload(e.args[-1])[0]
    left = remaining(p, s)
    if fact_lin(p, s, ">=", C(1)) is True or all(
            remaining(lb, s) == "more" for lb in res.lbs if lb.value == ("loop", l.lid)):
        out["size"] = None
    else:
        out["size"] = (UNKNOWN, "trailing bytes not followed")
    if left is None:
        return dict(out, bits=(UNKNOWN, "end of the number not followed"))
    if left == "impossible":
        return dict(out, bits=False)
    if left == "more":
        return dict(out, bits="encoding stops before the whole number is stored")
    if top == 1:
        return dict(out, bits="the last byte has its top bit set")
    return dict(out, bits=None)


def last_outside(p, res, spec, outside, inside, value):
    """All bytes but the last are stored by a loop, the last one after it."""
    i, e = outside
    t = e.args[-1]
    rest = value
    out = {"order": None if spec[0] == "little" else "bytes are produced in little-endian order", "size": None}
    ls = [l for l in loops(p) if l.begin is not None and l.begin < i]
    if inside:
        if inside[0][0] > i:
            return {"bits": (UNKNOWN, "how the bytes are assembled is not modelled")}
        x = inside[0][1]
        l = L(x.loops[-1], p)
        m = one_append(p, l, x, value, spec)
        if m is not None:
            return {"bits": m}
        s = payload(x.args[-1])[0]
        top = bit(x.args[-1], 7)
        if top != 1:
            return {"bits": "a byte that is not the last has its top bit clear" if top == 0 else (UNKNOWN, "top bit not followed")}
        rest = ("op", ">>", s, C(7))
        if fact_lin(p, s, ">=", C(128)) is not True and fact_lin(p, s, "<=", C(127)) is not False:
            out["size"] = (UNKNOWN, "trailing bytes not followed")
    elif len(ls) != 1:
        return {"bits": (UNKNOWN, "how the bytes are assembled is not modelled")}
    try:
        s, m, c = payload(t)
    except Odd:
        return {"bits": (UNKNOWN, f"{show(t)} not modelled")}
    if s != rest:
        return dict(out, bits=(UNKNOWN, f"last byte {show(t)} not followed"))
    if c:
        return dict(out, bits="the last byte has its top bit set" if c == 0x80 else f"the last byte has the constant bits {hex(c)}")
    small = fact_lin(p, s, "<=", C(127))
    if small is None:
        hi = p.facts.ivl.get(((s, 1),), (0, INF, None))[1]
        return dict(out, bits="the last byte need not hold the whole rest of the number" if 127 < hi < INF else
                    (UNKNOWN, "rest of the number not followed"))
    if small is False:
        return dict(out, bits="encoding stops before the whole number is stored")
    return dict(out, bits=None if m is None or m & 0x7f == 0x7f else f"the last byte carries the bits {hex(m)}")


def remaining(p, s):
    """What is left of the number after its low seven bits were stored: 'none', 'more', 'impossible' or None."""
    big, small = fact_lin(p, s, ">=", C(128)), fact_lin(p, s, "<=", C(127))
    if big is False:
        small = True
    if small is False:
        big = True
    sh = ("op", ">>", s, C(7))
    z, nz = None, None
    for t in (sh, ("op", "//", s, C(128))):
        d = fact_lin(p, t, "<=", C(0))
        e = fact_lin(p, t, "==", C(0))
        tr = tv(p, t)
        if d is True or e is True or tr is False:
            z = True
        if d is False or e is False or tr is True:
            nz = True
    nonneg = fact_lin(p, s, ">=", C(0)) is True
    if not nonneg and s[0] == "phi" and s[1] in p.loopinfo:
        # halving a number repeatedly keeps it from becoming negative
        init = (p.loopinfo[s[1]].get("inits") or {}).get(s[2])
        nonneg = init is not None and fact_lin(p, init, ">=", C(0)) is True
    if big is True and z or small is True and nonneg and nz or z and nz and nonneg:
        return "impossible"
    if big is True or nz:
        return "more"
    if small is True and nonneg or z and nonneg:
        return "none"
    return None


def one_append(p, l, e, value, spec):
    try:
        s, m, c = payload(e.args[-1])
    except Odd:
        return (UNKNOWN, f"{show(e.args[-1])} not modelled")
    ch = chain(p, l, s, value)
    if ch is None:
        return (UNKNOWN, f"{show(e.args[-1])} is not a slice of what is left of the number")
    init, post = ch
    if m != 0x7f:
        return f"a byte carries the bits {m if m is None else hex(m)} instead of 0x7f"
    if c & ~0x80:
        return f"a byte has the constant bits {hex(c)}"
    if post is not None:
        sh = shifts7(post, s)
        if sh is not True:
            return "the number is not advanced by seven bits per byte" if sh is False else (UNKNOWN, f"step {show(post)}")
    if init != value:
        return (UNKNOWN, f"start {show(init)}")
    if spec[1]:
        return (UNKNOWN, "signed numbers not modelled here")
    return None


def loop_store(p, res, spec):
    """Loop-back paths of encoders that append: a byte followed by another has its top bit set."""
    value = res.params[0]
    l = current_loop(p)
    apps = [e for e in l.events() if e.kind == "append"]
    sets = [e for e in l.events() if e.kind == "setitem"]
    if sets:
        return encoded_step(p, l, sets, spec)
    if not apps:
        return (UNKNOWN, "no byte is stored")
    if len(apps) > 1:
        return (UNKNOWN, "several bytes are stored per step")
    m = one_append(p, l, apps[0], value, spec)
    if m is not None:
        return m
    top = bit(apps[0].args[-1], 7)
    s = payload(apps[0].args[-1])[0]
    left = remaining(p, s)
    if top == 0 and left is None and 127 < p.facts.ivl.get(((s, 1),), (0, INF, None))[1] < INF:
        return "a byte that need not be the last has its top bit clear"
    if top is None or left is None:
        return (UNKNOWN, "continuation not followed")
    if left == "more" and top == 0:
        return "a byte that is not the last has its top bit clear"
    return None


def encoded_step(p, l, sets, spec):
    for e in sets:
        b = bit(e.args[1], 7)
        if b == 0:
            return (UNKNOWN, "continuation set elsewhere")
    return None


def negatives(p, res, spec):
    value = res.params[0]
    isneg = fact_lin(p, value, "<", C(0))
    if p.kind == "raise":
        if p.value[0] != "exc" or not any(e.kind == "newexc" and e.res == p.value for e in p.events):
            return False
        if p.value[2] not in ("ValueError", "OverflowError"):
            return f"{short(p.value[2])} is raised by an encoder" if isneg is True else (UNKNOWN, p.value[2])
        if spec[1]:
            return "a signed format rejects some numbers"
        return None if isneg is True else "a number that is not negative is rejected" if isneg is False else \
            "numbers are rejected without establishing that they are negative"
    if p.kind != "return":
        return False
    if spec[1]:
        return None
    return None if isneg is False else "a negative number is encoded in an unsigned format"


# ------------------------------------------------------------------ decoders
def byte_terms(p, stream):
    """[(read event, index, term for the byte's number)]"""
    out = []
    for i, e in enumerate(p.events):
        if e.kind == "call" and e.recv == stream and e.name in ("read", "read1", "readinto", "readline", "readall"):
            terms = {("sub", e.res, C(0)), ("app", "ord", e.res)}
            for x in p.events:
                if x.kind == "call" and x.name == "int.from_bytes" and x.args and x.args[0] == e.res:
                    terms.add(x.res)
            out.append((i, e, terms))
    return out


def masked(p, B, m):
    """Is B & m zero (False), non-zero (True) or unknown on this path?"""
    for t in (("op", "&", C(m), B), ("op", "&", B, C(m))):
        d = tv(p, t)
        if d is not None:
            return d
        e = eq_fact(p, t, C(0))
        if e is not None:
            return not e
        e = eq_fact(p, t, C(m))
        if e is not None:
            return e
    if m == 0x80:
        for op, k, val in ((">=", 128, True), ("<", 128, False)):
            if fact_lin(p, B, op, C(k)) is True:
                return val
    return None


def decoded(p, res, spec, order):
    endian, signed, first = spec
    stream = res.params[0]
    if p.kind == "raise":
        return False
    if p.kind not in ("return", "loopback"):
        return False
    rd = byte_terms(p, stream)
    ls = [current_loop(p)] if p.kind == "loopback" else [l for l in loops(p) if any(e in l.events() for _, e, _ in rd)]
    if not ls:
        return (UNKNOWN, "no loop over the bytes") if not order else False
    l = ls[-1]
    here = [x for x in rd if x[1] in l.events()]
    stray = [x for x in rd if x[1] not in l.events()]
    if not order:
        moves = [e for e in p.events if e.kind == "call" and e.recv == stream and e.name in ("seek", "truncate", "write")]
        if moves:
            return (UNKNOWN, f"the stream is moved by {moves[0].name}")
        if stray:
            pos = [x for x in stray if x[0] > (l.end or 10 ** 9)]
            return "more is read after the last byte" if pos else (UNKNOWN, "a byte is read before the loop")
        if len(here) != 1:
            return "more than one read per byte" if here else (UNKNOWN, "no byte is read")
        e = here[0][1]
        if len(e.args) != 1 or e.args[0] != C(1):
            return f"{show(e.args[0]) if e.args else 'all'} bytes are read at a time" if not e.args or e.args[0][0] == "c" else \
                (UNKNOWN, f"{show(e.args[0])} bytes are read")
    if len(here) != 1:
        return False
    Bs = here[0][2]
    top = None
    for B in Bs:
        top = masked(p, B, 0x80) if top is None else top
    if not order:
        if p.kind == "loopback":
            if top is not True:
                return "decoding goes on after a byte whose top bit is clear" if top is False else \
                    "decoding goes on without looking at the top bit" if not any(mentions(a, B) for a in p.facts.atoms for B in Bs) \
                    and not any(mentions(x, B) for k in p.facts.ivl for x, _ in k for B in Bs) else unknown_top(p, Bs)
        else:
            if top is not False:
                return "decoding stops at a byte whose top bit is set" if top is True else unknown_top(p, Bs)
    # accumulation
    if p.kind == "loopback":
        posts, inits = l.info.get("posts") or {}, l.info.get("inits") or {}
        accs = {k: v for k, v in posts.items() if v is not None and any(mentions(v, B) for B in Bs)
                and v[0] not in ("enum",)}
        accs = {k: v for k, v in accs.items() if not is_sign(v)}
        if not accs:
            return (UNKNOWN, "accumulation not followed")
        for k, v in accs.items():
            m = step(p, l, k, v, Bs, spec, order)
            if m is not None:
                return m
        return None
    v = p.value
    return final(p, l, v, Bs, spec, order)


def unknown_top(p, Bs):
    for a in list(p.facts.atoms) + [("ivl", x) for k in p.facts.ivl for x, _ in k]:
        for s in subterms(a):
            if s[0] == "op" and s[1] == "&" and any(B in s[2:] for B in Bs):
                k = [x for x in s[2:] if is_num_const(x)]
                if k and k[0][2] not in (0x80, 0x40):
                    return f"the end of the number is decided by the bits {hex(k[0][2])}"
    return (UNKNOWN, "how the end is recognised is not followed")


def is_sign(v):
    return v[0] == "c" or v[0] == "app" and v[1] in ("bool",)


def acc_parts(v, Bs):
    """((byte mask, byte shift), [(other source, mask, shift)]) of an accumulated number."""
    ps, c = slices(v)
    if c:
        raise Odd(show(v))
    by = [(m, sh) for s, m, sh in ps if s in Bs]
    ot = [(s, m, sh) for s, m, sh in ps if s not in Bs]
    if len(by) != 1:
        raise Odd(show(v))
    return by[0], ot


def first_known(p, l):
    """Is this the first byte?  Decided by a loop-carried variable still at its initial value."""
    inits = l.info.get("inits") or {}
    best = None
    for k, init in inits.items():
        phi = ("phi", l.lid, k)
        if init == NONE or init in (TRUE, FALSE):
            d = isc(p, phi, init)
            if d is None and init in (TRUE, FALSE):
                t = tv(p, phi)
                d = None if t is None else t == init[2]
            if d is not None:
                best = d
    return best


def step(p, l, key, v, Bs, spec, order):
    endian, signed, first = spec
    try:
        (m, sh), ot = acc_parts(v, Bs)
    except Odd as x:
        return (UNKNOWN, f"accumulation {x} not modelled") if not order else False
    inits = l.info.get("inits") or {}
    phi = ("phi", l.lid, key)
    isfirst = first_known(p, l) if first == 6 else None
    want = 0x7f
    if first == 6:
        if isfirst is None:
            return (UNKNOWN, "first byte not followed") if not order else False
        want = 0x3f if isfirst else 0x7f
    if not order and m != want:
        return f"the bits {m if m is None else hex(m)} of a byte are used instead of {hex(want)}"
    if first == 6 and isfirst:
        if not order:
            return None if not ot and sh == C(0) or ot == [(phi, None, C(7))] and inits.get(phi[2]) == C(0) else \
                (UNKNOWN, "first byte not followed")
        return False
    if len(ot) != 1 or ot[0][0] != phi or ot[0][1] is not None:
        if not ot:
            return "the bits of earlier bytes are lost" if not order else False
        return (UNKNOWN, f"accumulation {show(v)} not modelled") if not order else False
    osh = ot[0][2]
    if inits.get(phi[2]) != C(0) and not order and first != 6:
        return (UNKNOWN, f"accumulation starts from {show(inits.get(phi[2])) if inits.get(phi[2]) else None}")
    if sh == C(0):
        if osh != C(7):
            return f"earlier bits are moved by {show(osh)} instead of 7" if is_num_const(osh) else (UNKNOWN, show(osh)) \
                if not order else False
        if order:
            return None if endian == "big" else "bytes are consumed in big-endian order"
        return None
    if osh == C(0) and sh[0] == "phi" and sh[1] == l.lid:
        init, post = inits.get(sh[2]), (l.info.get("posts") or {}).get(sh[2])
        if p.kind == "loopback" or post is not None:
            if post != lin_add(sh, C(7)):
                return f"a byte's bits are placed {show(lin_add(post, sh, -1))} further on instead of 7" if post is not None and \
                    is_num_const(lin_add(post, sh, -1)) else (UNKNOWN, "shift not followed")
        if init != C(0):
            return f"the first byte's bits are placed at {show(init)}" if init is not None and is_num_const(init) else \
                (UNKNOWN, "shift not followed")
        if order:
            return None if endian == "little" else "bytes are consumed in little-endian order"
        return None
    return (UNKNOWN, f"accumulation {show(v)} not modelled") if not order else False


def final(p, l, v, Bs, spec, order):
    endian, signed, first = spec
    # peel the sign treatment
    sign = None
    core = v
    if signed:
        if first == 6:
            if core[0] == "op" and core[1] == "*":
                a, b = core[2], core[3]
                core = a if any(mentions(a, B) for B in Bs) else b
                sign = b if core == a else a
            elif core[0] == "lin" and len(core[1]) == 1 and core[2] == 0 and core[1][0][1] == -1:
                core, sign = core[1][0][0], C(-1)
            else:
                sign = C(1)
            if not order:
                m = sign_ok(p, l, sign, Bs)
                if m is not None:
                    return m
        else:
            ns = [x for x in subterms(v) if x[0] == "op" and x[1] == "<<" and x[2] == C(1)]
            if v[0] == "c":
                if not any(a[0] in ("eq",) for a in p.facts.atoms) and v != C(0):
                    return f"{show(v)} is returned"
                accs = [mk_lin(dict(k), 0) for k, iv in p.facts.ivl.items() if iv[0] == iv[1] == 0 and any(
                    mentions(x, B) for x, _ in k for B in Bs) and k[0][0] not in [("op", "&", C(0x80), B) for B in Bs]]
                if not accs:
                    return (UNKNOWN, f"{show(v)} is returned") if not order else False
                core = accs[0]
            elif ns:
                N = ns[0]
                core = lin_add(v, N)
                if not order:
                    m = twos(p, l, core, N[3], Bs, True)
                    if m is not None:
                        return m
            elif not order:
                m = twos(p, l, core, None, Bs, False)
                if m is not None:
                    return m
    try:
        (m, sh), ot = acc_parts(core, Bs)
    except Odd as x:
        return (UNKNOWN, f"result {x} not modelled") if not order else False
    phis = [s for s, _, _ in ot if s[0] == "phi" and s[1] == l.lid]
    if ot and not phis:
        return (UNKNOWN, f"result {show(core)} not modelled") if not order else False
    key = phis[0][2] if phis else None
    if key is None and first != 6:
        return "the bits of earlier bytes are lost" if not order else False
    return step(p, l, key if key is not None else ("", ""), core, Bs, spec, order)


def sign_ok(p, l, sign, Bs):
    """The sign factor: -1 exactly when the first byte's sign bit is set, or carried from there."""
    fst = first_known(p, l)
    if fst is True or is_num_const(sign) and fst is not False:
        s = None
        for B in Bs:
            s = masked(p, B, 0x40) if s is None else s
        if s is None and is_num_const(sign) and not other_tests(p, Bs):
            return "the sign does not come from the sign bit"
        if s is None or not is_num_const(sign):
            return (UNKNOWN, "sign not followed")
        return None if (sign[2] < 0) == s else "the sign bit is read the wrong way round"
    if sign[0] == "phi" and sign[1] == l.lid:
        return None
    if is_num_const(sign):
        return "the sign of a longer number is ignored"
    return (UNKNOWN, "sign not followed")


def other_tests(p, Bs):
    """Was a byte examined in any other way than by its top bit?"""
    for a in list(p.facts.atoms) + [("ivl", x) for k in p.facts.ivl for x, _ in k]:
        for B in Bs:
            if mentions(a, B):
                ok = False
                for s in subterms(a):
                    if s[0] == "op" and s[1] == "&" and B in s[2:] and C(0x80) in s[2:]:
                        ok = True
                if not ok:
                    return True
    return False


def twos(p, l, core, width, Bs, negative):
    """Two's complement: the number is negative exactly when its top payload bit is set."""
    bl = ("app", "bit_length", core)
    for B in Bs:
        s = masked(p, B, 0x40)
        if s is not None and s != negative:
            return "the sign bit is read the wrong way round"
        if s is not None:
            if width is None:
                return None
            phis = [x for x in subterms(width) if x[0] == "phi" and x[1] == l.lid]
            if len(phis) == 1 and width == lin_add(phis[0], C(7)):
                return None
            return (UNKNOWN, f"width {show(width)} not followed")
    # bit_length(v) compared with 7 * (bytes read)
    for k in p.facts.ivl:
        d = dict(k)
        if bl in d:
            o = {x: c for x, c in k if x != bl}
            tells = [x for x in o if x[0] == "res" and x[2] == "tell"]
            phis = [x for x in o if x[0] == "phi"]
            if len(tells) == 2 and len(o) == 2:
                t2, t1 = sorted(tells, key=lambda x: x[1], reverse=True)
                n = mk_lin({t2: 1, t1: -1}, 0)
                W = lin_scale(n, 7)
            elif len(phis) == 1 and len(o) == 1:
                W = lin_add(phis[0], C(7))
            elif not o:
                continue
            else:
                return (UNKNOWN, "width not followed")
            full = fact_lin(p, bl, ">=", W)
            if full is None:
                full = fact_lin(p, bl, "==", W)      # never more bits than were read
            if full is None:
                return f"the sign is decided by comparing the bit length with something other than {show(W)}"
            if full != negative:
                return "the sign bit is read the wrong way round"
            if negative and width != W:
                return f"a negative number is made with the width {show(width)} instead of {show(W)}"
            return None
    if not negative and fact_lin(p, core, "==", C(0)) is True:
        return None
    return (UNKNOWN, "sign not followed") if any(mentions(x, core) for k in p.facts.ivl for x, _ in k if x != core) else \
        "the sign bit is ignored"


# ------------------------------------------------------------------ the field
def bounded(p, res, env):
    S, stream, data = res.params[:3]
    enc = [e for e in p.events if e.kind == "call" and (callee(e) == ("attr", S, "_encode_integer_fn") or
                                                        e.name == "_encode_integer_fn")]
    writes = [e for e in p.events if e.kind == "call" and e.recv == stream and e.name == "write"]
    MB = ("attr", S, "max_bytes")
    lens = {}
    if not enc:
        return (UNKNOWN, "encoding not followed") if p.kind == "return" else False
    E = enc[-1].res
    ln = ("app", "len", E)
    if p.kind == "raise":
        if p.value[0] == "exc" and any(e.kind == "newexc" and e.res == p.value for e in p.events) and \
                env.exc_is(p.value[2], env.err("ValueSizeError")):
            if any(e.kind == "except" for e in p.events) and not any(mentions(a, MB) for a in p.facts.atoms):
                return False
            if isc(p, MB, NONE) is True:
                return "ValueSizeError is raised although no limit is set"
            d = fact_lin(p, ln, ">", MB)
            return None if d is True else "ValueSizeError is raised for an encoding that fits" if d is False or \
                fact_lin(p, ln, ">=", MB) is True else (UNKNOWN, "limit not followed")
        return False
    if p.kind != "return":
        return False
    if not writes:
        return "nothing is written"
    if len(writes) > 1 or not writes[0].args:
        return (UNKNOWN, "several writes")
    if writes[0].args[0] != E:
        return f"{show(writes[0].args[0])} is written instead of the encoding" if mentions(writes[0].args[0], E) else \
            (UNKNOWN, f"{show(writes[0].args[0])} is written")
    if enc[-1].args != (data,):
        return f"{', '.join(show(a) for a in enc[-1].args)} is encoded instead of the value"
    if isc(p, MB, NONE) is True:
        return None
    d = fact_lin(p, ln, "<=", MB)
    if d is True:
        return None
    if tv(p, MB) is False:
        return "a limit of zero bytes is ignored"
    known = any(mentions(x, MB) for k in p.facts.ivl for x, _ in k) or any(
        mentions(a, MB) for a in p.facts.atoms if not (a[0] == "eq" and NONE in a))
    for k in p.facts.ivl:
        f = dict(k)
        o = [x for x in f if x != MB]
        if MB in f and len(o) == 1 and mentions(o[0], data) and not mentions(o[0], E) and "bit_length" in show(o[0]):
            if abs(f[MB]) > 7 * abs(f[o[0]]):
                return "the limit allows more than seven bits for each byte"
    return "an encoding longer than max_bytes may be written" if not known or fact_lin(p, ln, "<=", MB) is False or \
        any(set(x for x, _ in k) == {ln, MB} for k in p.facts.ivl) else (UNKNOWN, "limit not followed")


def plain(p, res):
    S, stream = res.params[:2]
    if p.kind != "return":
        return False
    e = call_event(p, p.value)
    if e is not None and e.name == "_decode_integer_fn" and e.args == (stream,):
        return None
    if e is not None and e.name == "_decode_integer_fn":
        return (UNKNOWN, "decoder arguments")
    return (UNKNOWN, f"{show(p.value)} is returned") if e is not None else f"{show(p.value)} is returned instead of the decoded number"
