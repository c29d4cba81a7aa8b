#!/usr/bin/env python3
"""Warms the build caches; the checks do not depend on it."""
import subprocess, vlib, os
subprocess.run(["go", "build", "./..."], cwd=vlib.HARNESS, env=vlib.goenv())
subprocess.run(["go", "build", "std"], cwd=vlib.HARNESS, env=vlib.goenv())
subprocess.run(["go", "build", "-race", "std"], cwd=vlib.HARNESS, env=vlib.goenv())
