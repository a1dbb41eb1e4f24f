#!/usr/bin/env python3
"""Nothing to build ahead: each check builds what it needs from /repo's working
tree. Only makes sure that the tools the checks need are there."""
import shutil, sys
missing = [t for t in ("clang", "clang++", "gcc", "g++", "protoc") if not shutil.which(t)]
if missing:
    sys.exit("missing tools: " + " ".join(missing))
print("ok")
