#!/usr/bin/env python3
"""check.py <property id>: decides one property; see DESIGN.md"""
import sys, os, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
def main():
    pid = sys.argv[1]
    import props
    fn = props.CHECKS[pid]
    c = vlib.Check(pid, level=getattr(fn, "level", "model_checking"))
    try:
        fn(c)
        rc = c.finish()
    except vlib.Broken as e:
        if c.violations:           # what was found stands, whatever broke afterwards
            rc = c.finish()
        else:
            print("ERROR property=%s %s" % (pid, e), file=sys.stderr); rc = 2
    except Exception:
        traceback.print_exc()
        rc = c.finish() if c.violations else 2
    sys.stdout.flush()
    sys.exit(rc)
main()
