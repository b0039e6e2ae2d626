#!/usr/bin/env python3
"""Checks that the tools the framework needs are installed; checks build what they need themselves."""
import shutil, sys
missing = [t for t in ("g++", "clang++", "protoc", "python3") if not shutil.which(t)]
if missing: print("missing tools: %s" % missing); sys.exit(1)
print("ok")
