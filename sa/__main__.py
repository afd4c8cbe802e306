import argparse
import importlib
import os
import sys

from .loader import AnalysisBroken, Program
from .report import Report


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args(argv)
    try:
        prog = Program()
        mod = importlib.import_module(f".rules.{a.property.lower()}", __package__)
        r = Report(a.property, prog, a.tier if a.tier in ("quick", "thorough") else "quick")
        try:
            mod.check(r)
        except AnalysisBroken:
            raise
        except Exception as x:
            if os.environ.get("SA_DEBUG"):
                raise
            r.unknown("rule evaluation", "the rest of the rules", f"{type(x).__name__}: {x}")
    except AnalysisBroken as x:
        print(f"{a.property}: analysis cannot run: {x}")
        return 3
    return r.finish()


if __name__ == "__main__":
    sys.exit(main())
