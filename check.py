#!/usr/bin/env python3
"""python3 check.py <property id>   (VERIF_TIER=quick|thorough, VERIF_SEED)

Decides one property of pymt from the current source under /repo/src, without running it.
Exit 0: no violation.  Exit 1 and a VIOLATION line: the property is broken.
Exit 2: the analysis itself cannot work (source does not parse, public entry point gone)."""
import importlib
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "analysis"))
sys.dont_write_bytecode = True

from catalog import CHECKS


def main(argv):
    if len(argv) < 2 or argv[1] not in CHECKS:
        print("usage: check.py <%s> [quick|thorough]" % "|".join(sorted(CHECKS)))
        return 2
    prop = argv[1]
    tier = argv[2] if len(argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    import core

    e = CHECKS[prop]
    gens, static = [], []
    for g in e["gen"]:
        mod, name = g.split(".")
        gens += getattr(importlib.import_module(mod), name)(tier, seed)
    for g in e.get("static", ()):
        mod, name = g.split(".")
        static.append(getattr(importlib.import_module(mod), name))

    def run_static(P):
        out = []
        for f in static:
            out += f(P)
        return out

    return core.run(prop, gens, tier, seed, e["rule"], assumptions=e["assume"], static=run_static if static else None)


if __name__ == "__main__":
    sys.exit(main(sys.argv))
