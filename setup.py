#!/usr/bin/env python3
"""Checks that the tools the checks need are there, and warms the build cache."""
import os, subprocess, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, vlib

d = tempfile.mkdtemp(prefix="verif-setup-")
try:
    build.instr_tool(d)
    for l in vlib.JAR.split(":"):
        if not os.path.exists(l):
            sys.exit("missing " + l)
    subprocess.run(["java", "-version"], check=True, stderr=subprocess.DEVNULL)
    print("ready")
finally:
    shutil.rmtree(d, ignore_errors=True)
