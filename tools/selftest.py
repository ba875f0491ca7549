#!/usr/bin/env python3
"""Set-up: checks that the tools the checks need are here. Every check builds what it needs itself."""
import shutil, subprocess, sys
for t in ("g++", "localedef", "git"):
    if not shutil.which(t):
        sys.exit("missing: " + t)
subprocess.run(["g++", "--version"], check=True, stdout=subprocess.DEVNULL)
print("ok")
