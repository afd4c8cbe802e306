"""Terms (provenance-carrying abstract values) and facts about them."""

NONE = ("c", "NoneType", None)
TRUE = ("c", "bool", True)
FALSE = ("c", "bool", False)


def C(v):
    return ("c", type(v).__name__, v)


def is_const(t):
    return t[0] == "c"


def is_num_const(t):
    return t[0] == "c" and t[1] in ("int", "bool")


def is_singleton(t):
    """Terms for which `==`/`is` against them is decided by identity."""
    return t[0] in ("enum", "cls", "fn") or t in (NONE, TRUE, FALSE)


def kids(t):
    for x in t[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            else:
                for y in x:
                    if isinstance(y, tuple):
                        if y and isinstance(y[0], str):
                            yield y
                        else:
                            for z in y:
                                if isinstance(z, tuple) and z and isinstance(z[0], str):
                                    yield z


def subterms(t):
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(kids(x))


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def mentions(t, sub):
    return any(x == sub for x in subterms(t))


# ---------------------------------------------------------------- linear
def lin_parts(t):
    """(dict term->coef, const) of a numeric term."""
    if is_num_const(t):
        return {}, int(t[2])
    if t[0] == "lin":
        return dict(t[1]), t[2]
    return {t: 1}, 0


def mk_lin(d, c):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return C(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return ("lin", tuple(sorted(d.items(), key=lambda kv: repr(kv[0]))), c)


def lin_add(a, b, sign=1):
    da, ca = lin_parts(a)
    db, cb = lin_parts(b)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) + sign * v
    return mk_lin(d, ca + sign * cb)


def lin_scale(a, k):
    d, c = lin_parts(a)
    return mk_lin({t: v * k for t, v in d.items()}, c * k)


def is_len(t):
    return t[0] == "app" and t[1] == "len"


INF = float("inf")


class Facts:
    """Immutable-by-convention set of facts; every assume_* returns a new object or None (infeasible)."""

    __slots__ = ("eqc", "nec", "atoms", "ivl")

    def __init__(self, eqc=None, nec=None, atoms=None, ivl=None):
        self.eqc = eqc or {}
        self.nec = nec or {}
        self.atoms = atoms or {}
        self.ivl = ivl or {}

    def copy(self):
        return Facts(dict(self.eqc), dict(self.nec), dict(self.atoms), dict(self.ivl))

    # -- constants
    def const_of(self, t):
        if t[0] == "c" or is_singleton(t):
            return t
        return self.eqc.get(t)

    def assume_const(self, t, c, truth):
        """t == c (c a constant or singleton)."""
        if t == c:
            return self if truth else None
        k = self.const_of(t)
        if k is not None:
            same = (k == c) or (k[0] == "c" and c[0] == "c" and k[1] in NUM and c[1] in NUM and k[2] == c[2])
            return self if same == truth else None
        if truth and (c in self.nec.get(t, ())):
            return None
        if not truth and c in self.nec.get(t, ()):
            return self
        if truth and c == NONE and self.has_class(t):
            return None
        if truth and c[0] == "enum" and any(a[0] == "isinst" and a[1] == t and v and a[2] not in (c[1], "object")
                                            for a, v in self.atoms.items()):
            return None
        f = self.copy()
        if truth:
            f.eqc[t] = c
            f.nec.pop(t, None)
            if is_num_const(c):
                g = f.assume_lin(t, "==", C(int(c[2])))
                if g is None:
                    return None
                f = g
        else:
            f.nec[t] = f.nec.get(t, frozenset()) | {c}
            if is_num_const(c):
                g = f.assume_lin(t, "!=", C(int(c[2])))
                if g is None:
                    return None
                f = g
        return f

    def has_class(self, t):
        return any(a[0] == "isinst" and a[1] == t and v for a, v in self.atoms.items())

    def decide_const(self, t, c):
        """True/False/None."""
        a = self.assume_const(t, c, True)
        b = self.assume_const(t, c, False)
        if a is None:
            return False
        if b is None:
            return True
        return None

    # -- atoms
    def assume_atom(self, atom, truth):
        v = self.atoms.get(atom)
        if v is not None:
            return self if v == truth else None
        f = self.copy()
        f.atoms[atom] = truth
        return f

    # -- linear
    def bounds(self, key):
        lo, hi, ex = self.ivl.get(key, (-INF, INF, frozenset()))
        # intrinsic / compositional bounds
        slo = shi = 0
        for t, c in key:
            l, h = self.term_bounds(t) if (len(key) > 1 or is_len(t) or t[0] == "op" or c != 1) else (-INF, INF)
            if c > 0:
                slo += c * l
                shi += c * h
            else:
                slo += c * h
                shi += c * l
        if slo == slo and slo > lo:
            lo = slo
        if shi == shi and shi < hi:
            hi = shi
        return lo, hi, ex

    def term_bounds(self, t):
        if is_num_const(t):
            return int(t[2]), int(t[2])
        lo, hi, _ = self.ivl.get(((t, 1),), (-INF, INF, None))
        if is_len(t):
            lo = max(lo, 0)
        if t[0] in ("idx", "count"):
            lo = max(lo, 0)
        if t[0] == "op" and t[1] == "&":
            for s in (t[2], t[3]):
                if is_num_const(s) and s[2] >= 0:
                    lo, hi = max(lo, 0), min(hi, s[2])
        return lo, hi

    def assume_lin(self, a, op, b):
        """a op b over integers; op in < <= > >= == !=."""
        d = lin_add(a, b, -1)
        parts, c = lin_parts(d)
        if not parts:
            ok = {"<": c < 0, "<=": c <= 0, ">": c > 0, ">=": c >= 0, "==": c == 0, "!=": c != 0}[op]
            return self if ok else None
        items = sorted(parts.items(), key=lambda kv: repr(kv[0]))
        if items[0][1] < 0:
            items = [(t, -v) for t, v in items]
            c = -c
            op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
        g = 0
        import math
        for _, v in items:
            g = math.gcd(g, abs(v))
        key = tuple((t, v // g) for t, v in items)
        # g*S op -c
        k = -c
        if op in ("==", "!="):
            if k % g:
                return None if op == "==" else self
            k //= g
        elif op == "<":
            op, k = "<=", -((-k) // g) - 1 if k % g == 0 else k // g
        elif op == "<=":
            k = k // g
        elif op == ">":
            op, k = ">=", k // g + 1
        elif op == ">=":
            k = -((-k) // g)
        lo, hi, ex = self.bounds(key)
        nlo, nhi, nex = lo, hi, ex
        if op == "==":
            if k < lo or k > hi or k in ex:
                return None
            nlo = nhi = k
        elif op == "!=":
            if lo == hi == k:
                return None
            nex = ex | {k}
        elif op == "<=":
            nhi = min(hi, k)
        elif op == ">=":
            nlo = max(lo, k)
        while nlo in nex and nlo <= nhi:
            nlo += 1
        while nhi in nex and nlo <= nhi:
            nhi -= 1
        if nlo > nhi:
            return None
        f = self.copy()
        f.ivl[key] = (nlo, nhi, frozenset(e for e in nex if nlo <= e <= nhi))
        if nlo == nhi and len(key) == 1 and key[0][1] == 1 and key[0][0] not in f.eqc:
            f.eqc[key[0][0]] = C(int(nlo))
        return f

    def decide_lin(self, a, op, b):
        neg = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[op]
        x = self.assume_lin(a, op, b)
        y = self.assume_lin(a, neg, b)
        if x is None:
            return False
        if y is None:
            return True
        return None

    def show(self):
        out = []
        for t, c in self.eqc.items():
            out.append(f"{show(t)} == {show(c)}")
        for t, cs in self.nec.items():
            for c in cs:
                out.append(f"{show(t)} != {show(c)}")
        for a, v in self.atoms.items():
            out.append(("" if v else "not ") + a[0] + "(" + ", ".join(
                show(x) if isinstance(x, tuple) else str(x) for x in a[1:]) + ")")
        for k, (lo, hi, ex) in self.ivl.items():
            s = " + ".join((f"{c}*" if c != 1 else "") + show(t) for t, c in k)
            out.append(f"{s} in [{lo},{hi}]" + (f" except {sorted(ex)}" if ex else ""))
        return out


NUM = ("int", "bool")


def show(t, depth=0):
    if not isinstance(t, tuple) or not t:
        return repr(t)
    if depth > 6:
        return "…"
    k = t[0]
    s = lambda x: show(x, depth + 1)
    if not isinstance(k, str):
        return "(" + ", ".join(s(x) for x in t) + ")"
    try:
        return _show(t, k, s)
    except (IndexError, TypeError, ValueError):
        return k + "(" + ", ".join(s(x) if isinstance(x, tuple) else str(x) for x in t[1:]) + ")"


def _show(t, k, s):
    if k == "c":
        return repr(t[2])
    if k == "enum":
        return t[1].split(".")[-1] + "." + t[2]
    if k in ("cls", "fn", "ext", "mod"):
        return t[1].split(".")[-1] if k != "ext" else t[1]
    if k == "p":
        return t[1]
    if k == "attr":
        return s(t[1]) + "." + t[2]
    if k == "sub":
        return s(t[1]) + "[" + s(t[2]) + "]"
    if k in ("elem", "key", "idx"):
        return f"{k}({s(t[1])})"
    if k == "res":
        return f"{t[2]}#{t[1]}"
    if k == "new":
        return f"<{t[2]}#{t[1]}>"
    if k == "copy":
        return f"{t[2]}({s(t[3])})"
    if k == "app":
        return t[1] + "(" + ", ".join(s(x) for x in t[2:] if isinstance(x, tuple)) + ")"
    if k == "lin":
        r = " + ".join((f"{c}*" if c != 1 else "") + s(x) for x, c in t[1])
        return r + (f" + {t[2]}" if t[2] else "")
    if k == "op":
        return "(" + s(t[2]) + " " + t[1] + " " + s(t[3]) + ")"
    if k == "un":
        return t[1] + s(t[2])
    if k == "tup":
        return "(" + ", ".join(s(x) for x in t[1]) + ")"
    if k == "phi":
        return f"φ({t[2][-1] if isinstance(t[2], tuple) else t[2]})"
    if k == "bound":
        return s(t[1]) + "." + t[2].split(".")[-1]
    if k == "star":
        return "*" + s(t[1])
    return k + "(" + ", ".join(s(x) if isinstance(x, tuple) else str(x) for x in t[1:]) + ")"
