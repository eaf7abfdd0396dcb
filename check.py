#!/usr/bin/env python3-vt
"""check.py <property id> [quick|thorough]: decide one property."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__))))
from lib import core


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    ctx = core.Ctx(pid, tier)
    mod = importlib.import_module(f"checks.{pid.lower()}")
    try:
        mod.check(ctx)
    except core.HarnessError as e:
        print(f"no verdict: {e}", file=sys.stderr)
        if not ctx.violations:
            return 2
    except Exception:
        traceback.print_exc()
        if not ctx.violations:
            return 2
    return ctx.finish()


sys.exit(main())
