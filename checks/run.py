#!/usr/bin/env python3
"""run.py <property>: decide one property on /repo's current tree (tier from VERIF_TIER or the second argument)."""
import os, sys, importlib
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    from sa import report
    rep = report.Report(prop)
    rep.thorough = os.environ.get("VERIF_TIER") == "thorough"
    mod = importlib.import_module("checks." + prop.lower())
    try:
        mod.run(rep)
    except Exception as e:
        import traceback
        rep.error("%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-2000:]))
    rep.finish()


main()
