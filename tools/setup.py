#!/usr/bin/env python3
"""Sanity check of the toolchain; nothing needs to be built."""
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
sys.path.insert(0, HERE)
from harness import core
for jar in core.TLA_CP.split(":"):
    if not os.path.exists(jar):
        sys.exit(f"missing {jar}")
subprocess.run(["java", "-version"], check=True, capture_output=True)
print("setup ok")
