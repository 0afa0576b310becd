#!/usr/bin/env python3
"""setup_cmd: checks that the tools are there and self-tests the engine (the checks build their harnesses themselves)."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for t in ("g++", "gcc"): subprocess.run([t, "--version"], check=True, stdout=subprocess.DEVNULL)
os.makedirs(V + "/build", exist_ok=True); os.makedirs(V + "/evidence", exist_ok=True)
print("ok")
