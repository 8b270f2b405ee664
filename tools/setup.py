#!/usr/bin/env python3
"""Compile the arithmetic override and check it against the pure TLA+ arithmetic; warm the driver build."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
try:
    check.java_overrides()
    work = os.path.join(check.OUT, "setup")
    os.makedirs(work, exist_ok=True)
    s = check.tlc("lib/DyadicTest", work)
    if not s["ok"]:
        raise check.ToolError(s["out"][-3000:])
    check.cargo("full")
    check.cargo("full", True)
    shutil.rmtree(work, ignore_errors=True)
except check.ToolError as e:
    sys.exit("setup failed: %s" % e)
