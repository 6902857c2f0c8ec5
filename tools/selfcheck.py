#!/usr/bin/env python3-vt
"""Checks that the tools the checks need are present. Builds nothing."""
import shutil, sys
import z3, jsonschema  # noqa: F401
for t in ("clang++", "g++", "git"):
    if not shutil.which(t):
        sys.exit("missing tool: " + t)
print("z3", z3.get_version_string())
