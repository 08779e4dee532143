#!/usr/bin/env python3
"""Nothing to install: check that the tools the checks use are present."""
import shutil, sys
miss = [t for t in ("verus", "cargo", "python3") if not shutil.which(t)]
if miss:
    print("missing:", miss)
    sys.exit(1)
print("ok")
