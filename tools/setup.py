#!/usr/bin/env python3
"""Build every check once, so that a broken toolchain shows before the first check."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]
sys.exit(subprocess.run([sys.executable, os.path.join(HERE, "check.py"), "--build"] + ids).returncode)
