#!/usr/bin/env python3
"""check.py <property id>: decides one property from /repo's current source."""
import importlib
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "sa"))
sys.dont_write_bytecode = True
import registry  # noqa: E402
import checks  # noqa: E402

if __name__ == "__main__":
    pid = sys.argv[1]
    mod, fn, expl, assume = registry.RULES[pid]
    r = importlib.import_module("rules." + mod)
    sys.exit(checks.main(pid, getattr(r, fn), "other", expl, assume))
