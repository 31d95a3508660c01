#!/usr/bin/env python3
"""Sanity check of the tools (nothing needs building ahead: every check builds what it needs)."""
import subprocess, sys
for c in (["cargo", "kani", "--version"], ["cbmc", "--version"]):
    r = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print(" ".join(c), "->", r.stdout.strip())
    if r.returncode:
        sys.exit(1)
