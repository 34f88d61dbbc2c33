#!/usr/bin/env python3
"""Checks that the tools the checks need are present."""
import shutil, sys
missing = [t for t in ("cbmc", "goto-cc", "goto-instrument", "gcc") if not shutil.which(t)]
print("missing: " + ", ".join(missing) if missing else "tools present")
sys.exit(1 if missing else 0)
