"""Parse every module of /repo/binobj and build symbol and class tables (nothing is imported)."""
import ast
import hashlib
import os

REPO = os.environ.get("BINOBJ_REPO", "/repo")
PKG = "binobj"

from .desugar import desugar


class AnalysisBroken(Exception):
    """The source can't be analysed at all (error exit, never a silent pass)."""


class FuncInfo:
    def __init__(self, qual, node, module, cls=None):
        self.qual, self.node, self.module, self.cls = qual, node, module, cls
        self.decorators = [deco_name(d) for d in getattr(node, "decorator_list", [])]
        self.is_gen = not isinstance(node, ast.Lambda) and has_yield(node)

    @property
    def name(self):
        return self.node.name if hasattr(self.node, "name") else "<lambda>"

    def has_deco(self, *names):
        return any(d.split(".")[-1] in names for d in self.decorators)

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def kwonly(self):
        return [x.arg for x in self.node.args.kwonlyargs]

    def all_params(self):
        return self.params() + self.kwonly()

    def annotation(self, name):
        a = self.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg == name:
                return x.annotation
        if a.vararg and a.vararg.arg == name:
            return None
        if a.kwarg and a.kwarg.arg == name:
            return None
        return None

    def default(self, name):
        a = self.node.args
        pos = a.posonlyargs + a.args
        nd = len(a.defaults)
        for i, x in enumerate(pos):
            if x.arg == name:
                j = i - (len(pos) - nd)
                return a.defaults[j] if j >= 0 else None
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg == name:
                return d
        return None

    def where(self):
        return f"{self.module.relpath}:{getattr(self.node, 'lineno', 0)}"


def deco_name(d):
    if isinstance(d, ast.Call):
        return deco_name(d.func)
    if isinstance(d, ast.Attribute):
        return deco_name(d.value) + "." + d.attr
    if isinstance(d, ast.Name):
        return d.id
    return "?"


def has_yield(fn):
    stack = list(fn.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


HOOKS = {"_do_load", "_do_dump", "_size_for_value", "_add_padding", "_get_null_repr", "_read_exact_size",
         "_get_expected_size"}


def refs(tree):
    """name -> (mentions, mentions that are the function of a call)."""
    out = {}
    for n in ast.walk(tree):
        nm = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None
        if nm is not None:
            a, b = out.get(nm, (0, 0))
            out[nm] = (a + 1, b)
        if isinstance(n, ast.Call):
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
            if nm is not None:
                a, b = out.get(nm, (0, 0))
                out[nm] = (a, b + 1)
    return out


class ClassInfo:
    def __init__(self, qual, node, module):
        self.qual, self.node, self.module = qual, node, module
        self.name = node.name
        self.methods = {}      # name -> FuncInfo (last non-overload definition)
        self.attrs = {}        # name -> value expr (class level assignment)
        self.ann = {}          # name -> annotation expr
        self.bases = []        # resolved names: ('cls', q) or ('ext', dotted)
        self.mro = []
        self.decorators = [deco_name(d) for d in node.decorator_list]

    @property
    def is_dataclass(self):
        return any(d.split(".")[-1] == "dataclass" for d in self.decorators)


class Module:
    def __init__(self, name, path, relpath, tree, text):
        self.name, self.path, self.relpath, self.tree, self.text = name, path, relpath, tree, text
        self.symbols = {}      # name -> ('mod',m) ('cls',q) ('fn',q) ('ext',dotted) ('expr', node) ('from', mod, name)
        self.all = None
        self.stars = []
        self.mutated = set()   # names rebound after their first assignment


class Program:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules, self.classes, self.funcs = {}, {}, {}
        self.errors = []
        self._refs = None
        self._load()
        self._link()

    # ------------------------------------------------------------------
    def _load(self):
        root = os.path.join(self.repo, PKG)
        if not os.path.isdir(root):
            raise AnalysisBroken(f"no package {root}")
        h = hashlib.sha256()
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            if "__pycache__" in d:
                continue
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, self.repo)
                mod = rel[:-3].replace(os.sep, ".")
                if mod.endswith(".__init__"):
                    mod = mod[: -len(".__init__")]
                text = open(p, encoding="utf-8").read()
                h.update(rel.encode() + b"\0" + text.encode())
                try:
                    tree = ast.parse(text)
                except SyntaxError as e:
                    raise AnalysisBroken(f"{rel}: {e}")
                self.modules[mod] = Module(mod, p, rel, desugar(tree), text)
        self.digest = h.hexdigest()

    def _link(self):
        for m in self.modules.values():
            self._scan_body(m, m.tree.body)
        for m in self.modules.values():
            for c in [c for c in self.classes.values() if c.module is m]:
                for b in c.node.bases:
                    c.bases.append(self.resolve_expr(m, b))
        for c in self.classes.values():
            c.mro = self._mro(c, ())
        self.subclasses = {q: [c.qual for c in self.classes.values() if q in c.mro and c.qual != q]
                           for q in self.classes}

    def _scan_body(self, m, body):
        for n in body:
            if isinstance(n, ast.Import):
                for a in n.names:
                    full = a.name if a.asname else a.name.split(".")[0]
                    m.symbols[a.asname or a.name.split(".")[0]] = (
                        ("mod", full) if full.split(".")[0] == PKG else ("ext", full))
            elif isinstance(n, ast.ImportFrom):
                src = n.module or ""
                if n.level:
                    parts = m.name.split(".")
                    if not m.path.endswith("__init__.py"):
                        parts = parts[:-1]
                    parts = parts[: len(parts) - (n.level - 1)]
                    src = ".".join(parts + ([n.module] if n.module else []))
                for a in n.names:
                    if a.name == "*":
                        m.stars.append(src)
                    elif src.split(".")[0] == PKG:
                        m.symbols[a.asname or a.name] = ("from", src, a.name)
                    else:
                        m.symbols[a.asname or a.name] = ("ext", src + "." + a.name)
            elif isinstance(n, ast.ClassDef):
                q = m.name + "." + n.name
                c = ClassInfo(q, n, m)
                self.classes[q] = c
                m.symbols[n.name] = ("cls", q)
                self._scan_class(c)
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = m.name + "." + n.name
                fi = FuncInfo(q, n, m)
                if fi.has_deco("overload"):
                    continue
                self.funcs[q] = fi
                m.symbols[n.name] = ("fn", q)
            elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                targets = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in targets:
                    if isinstance(t, ast.Name) and n.value is not None:
                        if t.id == "__all__":
                            try:
                                m.all = [e.value for e in n.value.elts]
                            except Exception:
                                m.all = None
                        if t.id in m.symbols and m.symbols[t.id][0] == "expr":
                            m.mutated.add(t.id)
                        m.symbols[t.id] = ("expr", n.value)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                m.mutated.add(n.target.id)
                if n.target.id == "__all__":
                    m.all = None
            elif isinstance(n, ast.If):
                # `if TYPE_CHECKING:` and version switches
                self._scan_body(m, n.body)
                self._scan_body(m, n.orelse)
            elif isinstance(n, ast.Try):
                self._scan_body(m, n.body)
                for hd in n.handlers:
                    self._scan_body(m, hd.body)

    def _scan_class(self, c):
        for n in c.node.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(c.qual + "." + n.name, n, c.module, c)
                if fi.has_deco("overload"):
                    continue
                if any(d.endswith(".setter") or d.endswith(".deleter") for d in fi.decorators):
                    continue
                c.methods[n.name] = fi
                c.attrs.pop(n.name, None)
                self.funcs[fi.qual] = fi
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = n.value
                        c.methods.pop(t.id, None)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                c.ann[n.target.id] = n.annotation
                if n.value is not None:
                    c.attrs[n.target.id] = n.value
                    c.methods.pop(n.target.id, None)

    def _mro(self, c, seen):
        """C3 linearisation restricted to in-package classes."""
        if c.qual in seen:
            raise AnalysisBroken(f"cyclic inheritance {c.qual}")
        seqs, direct = [], []
        for b in c.bases:
            if b and b[0] == "cls" and b[1] in self.classes:
                seqs.append(list(self._mro(self.classes[b[1]], seen + (c.qual,))))
                direct.append(b[1])
        seqs.append(direct)
        out = [c.qual]
        while any(seqs):
            for s in seqs:
                if s and not any(s[0] in t[1:] for t in seqs):
                    h = s[0]
                    break
            else:
                raise AnalysisBroken(f"inconsistent MRO {c.qual}")
            out.append(h)
            for s in seqs:
                if s and s[0] == h:
                    s.pop(0)
        return out

    # ------------------------------------------------------------------
    def callers(self, fi):
        """The functions that call `fi`, when it is a private helper: not a hook other code may override or call, and
        mentioned in the package only to be called.  Otherwise None."""
        name = fi.name
        if not name.startswith("_") or name.startswith("__") or name in HOOKS or fi.decorators and not set(
                fi.decorators) <= {"staticmethod", "classmethod"}:
            return None
        if sum(f.name == name for f in self.funcs.values()) != 1:
            return None
        if self._refs is None:
            self._refs = {}
            for q, f in self.funcs.items():
                for nm, k in refs(f.node).items():
                    self._refs.setdefault(nm, []).append((f, k))
            self._total = {}
            for m in self.modules.values():
                for nm, k in refs(m.tree).items():
                    self._total[nm] = self._total.get(nm, 0) + k[0]
        uses = [(f, k) for f, k in self._refs.get(name, ()) if f is not fi]
        if not uses or any(k[0] != k[1] for _, k in uses):
            return None
        own = next((k for f, k in self._refs.get(name, ()) if f is fi), (0, 0))
        if own[0] or sum(k[0] for _, k in uses) != self._total.get(name):
            return None
        return [f for f, _ in uses]

    def roots(self, fi, depth=0):
        """The functions on whose behalf `fi` runs: itself, or for a private helper the roots of its callers."""
        cs = self.callers(fi) if depth < 12 else None
        if cs is None:
            return {fi.qual: fi}
        out = {}
        for c in cs:
            out.update(self.roots(c, depth + 1))
        return out

    # ------------------------------------------------------------------
    def lookup(self, modname, name, seen=()):
        """Resolve a module-level name to ('mod'|'cls'|'fn'|'ext'|'expr', ...) with its module, or None."""
        m = self.modules.get(modname)
        if m is None or (modname, name) in seen:
            return None
        seen = seen + ((modname, name),)
        s = m.symbols.get(name)
        if s is not None:
            if s[0] == "from":
                if s[1] + "." + s[2] in self.modules:
                    return ("mod", s[1] + "." + s[2])
                r = self.lookup(s[1], s[2], seen)
                return r if r is not None else ("ext", s[1] + "." + s[2])
            if s[0] == "expr":
                return ("expr", s[1], m)
            return s
        if modname + "." + name in self.modules:
            return ("mod", modname + "." + name)
        for src in m.stars:
            sm = self.modules.get(src)
            if sm is None:
                continue
            if sm.all is not None and name not in sm.all:
                continue
            if sm.all is None and name.startswith("_"):
                continue
            r = self.lookup(src, name, seen)
            if r is not None:
                return r
        return None

    def resolve_expr(self, m, e):
        """Resolve a Name/Attribute/Subscript expression to a class-ish reference."""
        if isinstance(e, ast.Subscript):
            return self.resolve_expr(m, e.value)
        if isinstance(e, ast.Name):
            r = self.lookup(m.name, e.id)
            if r is None:
                return ("ext", "builtins." + e.id)
            if r[0] == "expr":
                return self.resolve_expr(r[2], r[1])
            return r
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value)
            if b is None:
                return None
            if b[0] == "mod":
                r = self.lookup(b[1], e.attr)
                if r and r[0] == "expr":
                    return self.resolve_expr(r[2], r[1])
                return r
            if b[0] == "ext":
                return ("ext", b[1] + "." + e.attr)
        return None

    def cls(self, q):
        c = self.classes.get(q)
        if c is None:
            raise AnalysisBroken(f"class {q} not found")
        return c

    def find_method(self, q, name, after=None):
        """Method lookup along the MRO; `after`: start after that class (super())."""
        c = self.classes.get(q)
        if c is None:
            return None
        mro = c.mro
        if after is not None:
            if after not in mro:
                return None
            mro = mro[mro.index(after) + 1:]
        for k in mro:
            ci = self.classes[k]
            if name in ci.methods:
                return ci.methods[name]
            if name in ci.attrs:
                return None
        return None

    def find_class_attr(self, q, name):
        c = self.classes.get(q)
        if c is None:
            return None
        for k in c.mro:
            ci = self.classes[k]
            if name in ci.methods:
                return ("method", ci, ci.methods[name])
            if name in ci.attrs:
                return ("value", ci, ci.attrs[name])
        return None

    def is_subclass(self, q, base):
        c = self.classes.get(q)
        return c is not None and base in c.mro

    def need_func(self, q):
        """A public anchor: must exist (possibly inherited)."""
        if q in self.funcs:
            return self.funcs[q]
        cq, _, name = q.rpartition(".")
        if cq in self.classes:
            f = self.find_method(cq, name)
            if f is not None:
                return f
        # re-exported/moved: look it up by module symbol
        r = self.lookup(cq, name) if cq in self.modules else None
        if r and r[0] == "fn":
            return self.funcs[r[1]]
        raise AnalysisBroken(f"anchor {q} not found in the source")
