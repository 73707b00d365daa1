#!/usr/bin/env python3
"""Checks that the tools the framework needs are present (every check builds
what it needs from the working tree by itself)."""
import os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
os.makedirs(os.path.join(here, ".work"), exist_ok=True)
os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
for c in (["g++", "--version"], ["java", "-version"]):
    subprocess.run(c, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
for j in ("/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"):
    if not os.path.exists(j):
        sys.exit("missing " + j)
print("setup ok")
