#!/usr/bin/env python3
"""Setup: verifies that the tools the checks need are there (every check builds what it needs itself)."""
import shutil, subprocess, sys, os
for t in ("java", "clang++", "python3-vt"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
if not os.path.exists("/opt/veriftools/tla/tla2tools.jar"):
    sys.exit("missing TLC")
subprocess.check_call([shutil.which("python3-vt"), "-c", "import mpmath"])
print("ok")
