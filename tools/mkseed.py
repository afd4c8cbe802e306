#!/usr/bin/env python3
"""Development tool: writes /verif/seeded/<id>/ from tools/seeds/*.py and confirms each one in a scratch copy.

Each SEEDS entry: dict(id, prop, needs, breaks, edits=[(file, old, new)], demo=<python source>).
  python3 tools/mkseed.py [-k substr]
"""
import argparse, concurrent.futures as cf, glob, importlib.util, json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
BASE = "ee1a2d4"
DEMO = '''#!/bin/sh
d=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=. exec /opt/venv/bin/python -W ignore "$d/demo.py"
'''


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def one(s, root):
    d = os.path.join(root, s["id"])
    sh("git", "clone", "-q", "/repo", d)
    for f, old, new in s["edits"]:
        p = os.path.join(d, f)
        t = open(p).read()
        if t.count(old) != 1:
            return s, f"text found {t.count(old)} times in {f}: {old[:50]!r}"
        open(p, "w").write(t.replace(old, new))
    diff = sh("git", "diff", cwd=d).stdout
    if not diff.strip():
        return s, "empty diff"
    # lines of the original repository?
    orig = False
    for f in {e[0] for e in s["edits"]}:
        bl = sh("git", "blame", "-s", "-l", "HEAD", "--", f, cwd=d).stdout.splitlines()
        anc = set(sh("git", "rev-list", BASE, cwd=d).stdout.split())
        for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", sh("git", "diff", "-U0", "--", f, cwd=d).stdout, re.M):
            a, n = int(m.group(1)), int(m.group(2) or 1)
            for i in range(a, a + n):
                if bl[i - 1].lstrip("^").split()[0] in anc or any(x.startswith(bl[i - 1].lstrip("^").split()[0]) for x in anc):
                    orig = True
    out = os.path.join(VERIF, "seeded", s["id"])
    if os.path.isdir(out):
        shutil.rmtree(out)
    os.makedirs(out)
    open(out + "/patch.diff", "w").write(diff)
    open(out + "/demo.sh", "w").write(DEMO)
    os.chmod(out + "/demo.sh", 0o755)
    open(out + "/demo.py", "w").write(s["demo"].lstrip("\n"))
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(out + "/meta.json", "w"), indent=1)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=d)
    t = sh("/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--no-header", "--no-cov", "tests", cwd=d, env=env)
    tail = (t.stdout.strip().splitlines() or [""])[-1]
    m = []
    if " failed" in tail or " error" in tail or " passed" not in tail:
        m.append("TESTS: " + tail)
    a = sh("bash", out + "/demo.sh", cwd="/repo")
    b = sh("bash", out + "/demo.sh", cwd=d)
    if a.returncode != 0:
        m.append("demo fails on the unchanged tree: " + (a.stdout + a.stderr)[-300:])
    if b.returncode == 0:
        m.append("demo passes with the patch")
    if not orig:
        m.append("changes no original line")
    ev = os.path.join(root, s["id"] + ".ev")
    os.makedirs(ev)
    c = sh(sys.executable, "-m", "sa", s["prop"], cwd=VERIF, env=dict(os.environ, BINOBJ_REPO=d, SA_EVIDENCE=ev, PYTHONDONTWRITEBYTECODE="1"))
    caught = c.returncode == 1
    if m:
        shutil.rmtree(out)
    return s, "; ".join(m) or ("ok " + ("caught" if caught else "MISSED " + c.stdout[-300:]))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-k")
    a = ap.parse_args()
    seeds = []
    for f in sorted(glob.glob(os.path.join(HERE, "seeds", "*.py"))):
        spec = importlib.util.spec_from_file_location("s", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        seeds += m.SEEDS
    ids = [s["id"] for s in seeds]
    assert len(set(ids)) == len(ids)
    for n in os.listdir(os.path.join(VERIF, "seeded")):
        if n not in ids:
            shutil.rmtree(os.path.join(VERIF, "seeded", n))
    root = tempfile.mkdtemp(prefix="mkseed")
    try:
        with cf.ThreadPoolExecutor(7) as ex:
            for s, m in ex.map(lambda s: one(s, root), [s for s in seeds if not a.k or a.k in s["id"]]):
                print(f"{s['id']:40} {m}")
    finally:
        shutil.rmtree(root)


main()
