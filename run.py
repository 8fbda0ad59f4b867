#!/usr/bin/env python3
"""Decides one property: python3 run.py C04  (VERIF_TIER, VERIF_SEED in the environment).

Exit 0: the property held on everything explored.  Exit 1, with a VIOLATION
line: it is broken.  Exit 2: the check itself failed."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "driver"))
import core, suites

def main():
    pid = sys.argv[1]
    if pid == "--setup":
        core.Ctx("setup").build()
        return 0
    ctx = core.Ctx(pid)
    try:
        ctx.build()
        for suite, params in suites.PROPERTIES[pid]:
            suite(ctx, **params)
        return ctx.finish()
    except core.ToolError as e:
        print("ERROR property=%s %s" % (pid, e), flush=True)
        return 2

sys.exit(main())
