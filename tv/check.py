#!/usr/bin/env python3
"""check.py <property>: runs the check of one property."""
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True

from tv import core  # noqa: E402


def main():
    prop = sys.argv[1]
    mod = importlib.import_module("tv.props." + prop.lower())
    ctx = core.Ctx(prop)
    try:
        mod.run(ctx)
    except core.Inconclusive as e:
        # A violation already witnessed stands; otherwise there is no answer.
        if ctx.violations:
            return ctx.finish()
        print("INCONCLUSIVE property=%s: %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        if ctx.violations:
            return ctx.finish()
        print("INCONCLUSIVE property=%s: error in the check" % prop)
        return 2
    return ctx.finish()


if __name__ == "__main__":
    sys.exit(main())
