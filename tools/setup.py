#!/usr/bin/env python3
"""Checks that the tools the monitors need are there (each check builds for itself)."""
import subprocess
import sys

for cmd in (["cargo", "--version"], ["cargo", "+nightly", "miri", "--version"]):
    if subprocess.run(cmd).returncode != 0:
        sys.exit(1)
