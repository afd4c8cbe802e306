#!/usr/bin/env python3
"""Development harness: run checks on edited copies of /repo.

variants/*.py define V = [dict(name, kind='bug'|'same', props=[...], edits=[(file, old, new), ...])].
  python3 tools/variants.py [-k substr] [-p C17,C18] [-t] [-a] [-v]
    -t also runs the repository's own tests on each copy   -a runs every check on 'bug' variants too
Copies live in a scratch directory under /tmp that is removed afterwards.
"""
import argparse, concurrent.futures as cf, glob, importlib.util, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def load():
    out = []
    for f in sorted(glob.glob(os.path.join(HERE, "variants", "*.py"))):
        spec = importlib.util.spec_from_file_location("v", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for v in m.V:
            v["file"] = os.path.basename(f)
            out.append(v)
    return out


def all_props():
    return sorted(os.path.basename(f)[:-3].upper() for f in glob.glob(os.path.join(VERIF, "sa", "rules", "c[0-9][0-9].py")))


def one(v, args, root):
    d = os.path.join(root, re.sub(r"\W", "_", v["name"]))
    os.makedirs(d)
    src = "/repo"
    if args.t:
        shutil.copytree(src, os.path.join(d, "r"), ignore=shutil.ignore_patterns(".git", "__pycache__"))
    else:
        os.makedirs(os.path.join(d, "r"))
        shutil.copytree(src + "/binobj", os.path.join(d, "r", "binobj"), ignore=shutil.ignore_patterns("__pycache__"))
    repo = os.path.join(d, "r")
    for f, old, new in v["edits"]:
        p = os.path.join(repo, f)
        s = open(p).read()
        if s.count(old) < 1:
            return v, "STALE", f"{f}: text not found: {old[:60]!r}", {}
        s = s.replace(old, new) if v.get("all") else s.replace(old, new, 1)
        open(p, "w").write(s)
        try:
            compile(s, p, "exec")
        except SyntaxError as x:
            return v, "STALE", f"syntax error {x}", {}
    msg = ""
    if args.t:
        t = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--no-header", "tests"],
                           cwd=repo, capture_output=True, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=repo))
        tail = t.stdout.strip().splitlines()[-1:] or [""]
        if ' failed' in tail[0] or ' error' in tail[0] or ' passed' not in tail[0]:
            msg = " TESTS-FAIL " + tail[0][:150]
    props = all_props() if (v["kind"] == "same" or args.a) else [p for p in v["props"]]
    if args.p:
        props = [p for p in props if p in args.p.split(",")]
    res = {}
    for p in props:
        ev = os.path.join(d, "ev")
        os.makedirs(ev, exist_ok=True)
        x = subprocess.run([sys.executable, "-m", "sa", p], cwd=VERIF, capture_output=True, text=True,
                           env=dict(os.environ, BINOBJ_REPO=repo, SA_EVIDENCE=ev, PYTHONDONTWRITEBYTECODE="1"))
        res[p] = (x.returncode, [l.strip() for l in x.stdout.splitlines() if l.startswith("  violated")],
                  [l.strip() for l in x.stdout.splitlines() if l.startswith("  undecided")], x.stderr.strip()[-200:])
    return v, "OK", msg, res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-k"); ap.add_argument("-p"); ap.add_argument("-t", action="store_true")
    ap.add_argument("-a", action="store_true"); ap.add_argument("-v", action="store_true")
    ap.add_argument("-f"); ap.add_argument("-j", type=int, default=7); ap.add_argument("--kind")
    args = ap.parse_args()
    vs = [v for v in load() if (not args.k or args.k in v["name"]) and (not args.kind or v["kind"] == args.kind)
          and (not args.f or args.f in v["file"])]
    if args.p:
        vs = [v for v in vs if v["kind"] == "same" or set(v["props"]) & set(args.p.split(","))]
    root = tempfile.mkdtemp(prefix="variants_", dir="/tmp")
    n = {"caught": 0, "missed": 0, "quiet": 0, "alarm": 0, "stale": 0, "undec": 0}
    try:
        with cf.ThreadPoolExecutor(args.j) as ex:
            for v, st, msg, res in ex.map(lambda v: one(v, args, root), vs):
                if st == "STALE":
                    n["stale"] += 1
                    print(f"STALE   {v['name']}: {msg}")
                    continue
                hit = [p for p, x in res.items() if x[0] == 1]
                odd = [p for p, x in res.items() if x[0] not in (0, 1)]
                und = [p for p, x in res.items() if x[2]]
                if v["kind"] == "bug":
                    want = [p for p in v["props"] if p in res]
                    ok = any(p in hit for p in want)
                    miss = [p for p in want if p not in hit]
                    n["caught" if ok else "missed"] += 1
                    if not ok or args.v or msg or odd:
                        print(f"{'caught ' if ok else 'MISSED '} {v['name']} want={want} hit={hit} odd={odd}{msg}")
                        for p in (hit if args.v and ok else miss):
                            for l in res[p][1][:2] + ([] if p in hit else res[p][2][:4]):
                                print("          ", p, l[:220])
                            if res[p][3]:
                                print("          ", res[p][3])
                else:
                    n["quiet" if not hit and not odd else "alarm"] += 1
                    n["undec"] += sum(len(x[2]) for x in res.values())
                    if hit or odd or msg or (args.v and und):
                        print(f"{'ALARM  ' if hit or odd else 'quiet  '} {v['name']} hit={hit} odd={odd} und={und}{msg}")
                        for p in hit + odd:
                            for l in res[p][1][:3]:
                                print("          ", p, l[:240])
                            if res[p][3]:
                                print("          ", res[p][3])
                        if args.v:
                            for p in und:
                                for l in res[p][2][:3]:
                                    print("          ", p, l[:240])
                sys.stdout.flush()
    finally:
        shutil.rmtree(root, ignore_errors=True)
    print(n)


if __name__ == "__main__":
    main()
