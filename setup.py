#!/usr/bin/env python3
"""Checks that the tools are there and warms the build cache."""
import os, shutil, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import build

for t in ("clang++", "cmake", "ninja"):
    if not shutil.which(t):
        sys.exit(f"missing tool: {t}")
for backend, san in (("nl", "asan"), ("nl", "tsan"), ("ra", "asan"), ("jc", "asan")):
    build.build_lib(backend, san)
print("setup done")
