#!/usr/bin/env python3
"""Nothing is prebuilt: every check compiles its harnesses from /repo's working tree.  This only checks the tools."""
import shutil, sys
missing = [t for t in ("g++", "python3") if not shutil.which(t)]
print("setup: tools present" if not missing else "missing: %s" % missing)
sys.exit(1 if missing else 0)
