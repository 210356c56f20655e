#!/usr/bin/env python3
"""Runs the check of one property: check.py <ID>"""

import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "gen"))

from runner import Check, EnvError  # noqa: E402
import checks  # noqa: E402


def main():
    pid = sys.argv[1]
    c = Check(pid)
    try:
        rule = getattr(checks, pid)(c)
    except EnvError as e:
        if c.viol:
            c.log("incomplete: %s" % e)
            c.finish("incomplete run")
        print("cannot be decided: %s" % e)
        sys.exit(2)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
    c.finish(rule)


main()
