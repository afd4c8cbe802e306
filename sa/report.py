"""Obligations, known findings, evidence and the command line's exit status."""
import json
import os
import time

from .engine import Engine, TooComplex
from .loader import AnalysisBroken
from .terms import show

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PROVED, VIOLATED, UNKNOWN = "proved", "violated", "undecided"


class Undecided(Exception):
    """Raised by a rule when the construct is outside what the analysis models."""


class Result:
    def __init__(self, fi, cls, paths, lbs, engine):
        self.fi, self.cls, self.paths, self.lbs, self.engine = fi, cls, paths, lbs, engine
        self.entry = fi.qual + (f" [{cls.split('.')[-1]}]" if cls else "")
        for p in list(paths) + list(lbs):
            p.result = self
        ps = fi.params()
        self.params = [("p", n) for n in ps]
        a = fi.node.args
        self.kwargs_term = ("kwd", (), ("p", a.kwarg.arg)) if a.kwarg else None
        if a.vararg:
            self.vararg = ("p", a.vararg.arg)

    @property
    def self(self):
        return self.params[0]

    def p(self, i):
        """i-th parameter, counting self as 0."""
        return self.params[i] if i < len(self.params) else None

    def param(self, name):
        return ("p", name)

    def returns(self):
        return [p for p in self.paths if p.kind == "return"]

    def raises(self):
        return [p for p in self.paths if p.kind == "raise"]

    @property
    def all(self):
        return self.paths + self.lbs


class Report:
    def __init__(self, pid, prog, tier="quick"):
        self.pid, self.prog, self.tier = pid, prog, tier
        self.obl = []              # (rule, construct, status, detail, where)
        self.seen = {}
        self.rules = {}
        self.functions = set()
        self.n_paths = self.n_events = 0
        self.entries = []
        self.cache = {}
        self.t0 = time.time()
        self.limits = []

    # ------------------------------------------------------------- analysing
    def rule(self, name, text):
        self.rules[name] = text
        return name

    def run(self, qual, cls=None, **opts):
        """Analyse `qual` (with `cls` as the class of self). None when the engine gives up."""
        fi = qual if not isinstance(qual, str) else self.prog.need_func(qual)
        an = {k: opts.pop(k) for k in ("params", "types", "pre", "self_term") if k in opts}
        key = (fi.qual, cls, tuple(sorted((k, repr(v)) for k, v in opts.items())), tuple(sorted(an)))
        if key in self.cache and not an:
            return self.cache[key]
        if self.tier == "thorough":     # deeper inlining and larger path/state budgets
            opts.setdefault("max_paths", 200000)
            opts.setdefault("max_depth", 24)
        e = Engine(self.prog, **opts)
        try:
            ps = e.analyse(fi, self_cls=cls, **an)
            res = Result(fi, cls, ps, e.lb_paths, e)
            self.entries.append(f"{res.entry}: {len(ps)} paths, {len(e.lb_paths)} loop-back paths")
            self.n_paths += len(ps) + len(e.lb_paths)
            self.n_events += sum(len(p.events) for p in ps)
            self.functions |= e.functions_seen
        except AnalysisBroken:
            raise
        except TooComplex as x:
            self.limits.append(f"{fi.qual}: {x}")
            res = None
        except RecursionError as x:
            self.limits.append(f"{fi.qual}: recursion")
            res = None
        except Exception as x:       # an analysis limit must not look like a verdict
            if os.environ.get("SA_DEBUG"):
                raise
            self.limits.append(f"{fi.qual}: {type(x).__name__}: {x}")
            res = None
        self.cache[key] = res
        return res

    # ------------------------------------------------------------- recording
    def add(self, rule, construct, status, detail="", path=None, event=None, where=None):
        if path is not None and path.taint and status == VIOLATED:
            status, detail = UNKNOWN, f"{detail} (unmodelled: {'; '.join(map(str, path.taint))})"
        w = where or (event.where() if event is not None and event.node is not None else None)
        key = (rule, construct)
        rec = {"rule": rule, "construct": construct, "status": status, "detail": detail, "where": w,
               "path": path.describe() if path is not None and status != PROVED else None}
        old = self.seen.get(key)
        rank = {PROVED: 0, UNKNOWN: 1, VIOLATED: 2}
        if old is None:
            self.seen[key] = rec
            rec["n"] = 1
        else:
            old["n"] += 1
            if rank[status] > rank[old["status"]]:
                rec["n"] = old["n"]
                self.seen[key] = rec
        return status == PROVED

    def ok(self, rule, construct):
        return self.add(rule, construct, PROVED)

    def bad(self, rule, construct, detail, path=None, event=None, where=None):
        return self.add(rule, construct, VIOLATED, detail, path, event, where)

    def unknown(self, rule, construct, detail="", path=None):
        return self.add(rule, construct, UNKNOWN, detail, path)

    def verdict(self, rule, construct, msg, path=None, event=None):
        """msg None/'' -> proved, a string -> violated, UNKNOWN-prefixed tuple -> undecided, False -> does not apply."""
        if msg is False:
            return None
        if msg is None or msg is True or msg == "":
            return self.ok(rule, construct)
        if isinstance(msg, tuple):
            return self.unknown(rule, construct, msg[1], path)
        return self.bad(rule, construct, msg, path, event)

    def each(self, rule, construct, res, pred, paths=None, need=1):
        """pred(path) for every path; needs at least `need` paths to which pred applies (pred returning False means
        'does not apply')."""
        if res is None:
            return self.unknown(rule, construct, "not analysable: " + "; ".join(self.limits[-1:]))
        n = 0
        for p in (res.paths if paths is None else paths):
            try:
                m = pred(p)
            except Undecided as x:
                m = (UNKNOWN, str(x))
            except AnalysisBroken:
                raise
            except Exception as x:       # a shape the rule was not written for
                if os.environ.get("SA_DEBUG"):
                    raise
                m = (UNKNOWN, f"rule not applicable to this shape ({type(x).__name__}: {x})")
            if m is False:
                continue
            n += 1
            self.verdict(rule, construct, m, p)
        if n < need:
            return self.unknown(rule, construct, f"only {n} applicable paths, expected at least {need}")
        return n

    # ------------------------------------------------------------- finishing
    def finish(self):
        known = load_known(self.pid)
        recs = list(self.seen.values())
        viol, kn = [], []
        for r in recs:
            if r["status"] != VIOLATED:
                continue
            k = f"{r['rule']} @ {r['construct']}"
            (kn if k in known else viol).append(r)
        und = [r for r in recs if r["status"] == UNKNOWN]
        ok = [r for r in recs if r["status"] == PROVED]
        ev_dir = os.environ.get("SA_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(ev_dir, exist_ok=True)
        replay = os.path.join(ev_dir, f"{self.pid}.violations.json")
        if viol:
            with open(replay, "w") as f:
                json.dump([{k: v for k, v in r.items()} for r in viol], f, indent=1, default=str)
        elif os.path.exists(replay):
            os.remove(replay)
        perrule = {}
        for r in recs:
            d = perrule.setdefault(r["rule"], {"text": self.rules.get(r["rule"], ""), "proved": 0, "violated": 0,
                                               "undecided": 0, "instances": 0})
            d[r["status"]] += 1
            d["instances"] += r["n"]
        ev = {
            "property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")),
            "level": "other",
            "coverage": {
                "explanation": "Static path-sensitive analysis of the current source under "
                               f"{self.prog.repo}: each entry function is walked over symbolic provenance terms "
                               "(no code of the repository is executed, no solver is used), every path and one "
                               "generic iteration of every loop is enumerated, and each rule below is decided on "
                               "every such path. 'proved' counts distinct (rule, construct) obligations, 'instances' "
                               "the paths/sites on which they were decided; 'undecided' obligations are constructs "
                               "the analysis does not model and are not claimed.",
                "obligations": len(recs), "discharged": len(ok), "undecided": len(und),
                "known_findings": [f"{r['rule']} @ {r['construct']}" for r in kn],
                "rules": perrule,
                "functions_analysed": sorted(self.functions), "n_functions": len(self.functions),
                "paths": self.n_paths, "events": self.n_events,
                "entries": sorted(self.entries),
                "source_digest": self.prog.digest, "analysis_limits": self.limits,
                "undecided_list": [{k: r[k] for k in ("rule", "construct", "detail")} for r in und],
                "samples": [{k: r[k] for k in ("rule", "construct", "n")} for r in ok[:12]],
            },
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(viol),
        }
        with open(os.path.join(ev_dir, f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print(f"{self.pid}: {len(recs)} obligations, {len(ok)} proved, {len(und)} undecided, {len(kn)} known, "
              f"{len(viol)} violated; {len(self.functions)} functions, {self.n_paths} paths, {ev['wall_s']} s")
        for r in und[:20]:
            print(f"  undecided {r['rule']} @ {r['construct']}: {r['detail'][:200]}")
        for r in kn:
            print(f"KNOWN-FINDING: property={self.pid} {r['rule']} @ {r['construct']}: {r['detail'][:200]}")
        for r in viol:
            print(f"  violated {r['rule']} @ {r['construct']}: {r['detail']} {r['where'] or ''}")
        if viol:
            print(f"VIOLATION property={self.pid} replay={replay}")
            return 1
        return 0


def load_known(pid):
    out = set()
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding:"):
                    rest = line[len("finding:"):].strip()
                    prop, _, key = rest.partition(" ")
                    if prop == f"property={pid}":
                        out.add(key.split(" :: ")[0].strip())
    except FileNotFoundError:
        pass
    return out
