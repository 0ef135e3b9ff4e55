#!/usr/bin/env python3
"""check.py PROPERTY: exit 0 (held on everything explored), 1 (VIOLATION line) or 2 (tool error)."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
import checks_c
TABLE = dict(checks_c.CHECKS)
import checks_w
TABLE.update(checks_w.CHECKS)


def main():
    pid = sys.argv[1]
    run = lib.Run(pid)
    try:
        TABLE[pid](run)
        code = run.finish()
    except lib.ToolError as e:
        print("ERROR property=%s %s" % (pid, e))
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    sys.exit(code)


main()
