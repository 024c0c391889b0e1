#!/usr/bin/env python3
"""Check that the tools the monitors need are there. Everything is built by the checks themselves from /repo."""
import subprocess, sys
ok = True
for c in (["cargo", "--version"], ["cargo", "+nightly", "--version"], ["cargo", "+nightly", "miri", "--version"], ["valgrind", "--version"]):
    p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    print(" ".join(c), "->", p.stdout.decode().strip().split("\n")[-1])
    if p.returncode != 0:
        print("  not available")
        ok = False
sys.exit(0 if ok else 1)
