#!/usr/bin/env python3
"""python3 check.py <property id> [--tier quick|thorough]: decide one property by static analysis of /repo."""
import importlib
import os
import sys
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    sys.setrecursionlimit(20000)
    from sa.harness import Ctx, finish
    from sa.terms import Undecided
    from sa.checks import REGISTRY

    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    modname, technique = REGISTRY[pid]
    ctx = Ctx(pid, tier, seed)
    try:
        mod = importlib.import_module("sa.checks." + modname)
        getattr(mod, pid.lower())(ctx)
        return finish(ctx, technique)
    except Undecided as e:
        try:
            if ctx.viol:
                return finish(ctx, technique)
        except Undecided:
            pass
        where = ""
        for I in ctx.interps:
            if I.ctx or I.line:
                where = " near line %s" % I.line
        print("UNDECIDED property=%s scenario=%s%s: %s" % (pid, ctx.current, where, e))
        return 2


if __name__ == "__main__":
    out = [2]

    def go():
        try:
            out[0] = main()
        except BaseException:
            import traceback

            traceback.print_exc()

    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0])
