#!/usr/bin/env python3
"""check.py PROPERTY: decides one property on /repo's working tree."""
import sys, os, traceback
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, props


def main():
    prop = sys.argv[1]
    try:
        c = vlib.Check(prop)
        getattr(props, prop)(c)
        sys.exit(c.finish())
    except vlib.ToolError as e:
        print(f"ERROR property={prop}: {e}", flush=True)
        sys.exit(2)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)


main()
