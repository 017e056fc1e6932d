#!/usr/bin/env python3
"""builds every driver once (each check builds what it needs again, from /repo's current tree)"""
import subprocess, sys
from vlib import *
os.makedirs(BUILD, exist_ok=True)
p = subprocess.run(["cargo", "build", "--offline", "--locked", "--bins"], cwd=HARNESS, env=cargo_env())
if p.returncode == 0:
    print("thread sanitizer:", "ready" if build_tsan("race") else "not available")
sys.exit(0 if p.returncode == 0 else 1)
