#!/usr/bin/env python3
"""setup_cmd: checks that the tools the checks need are present (nothing is built ahead: every check builds from /repo)."""
import shutil, subprocess, sys
bad = [t for t in ("gcc", "g++", "dotnet", "python3", "gnatmake") if not shutil.which(t)]
print("missing: %s" % bad if bad else "tools present"); sys.exit(1 if bad else 0)
