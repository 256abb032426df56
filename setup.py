#!/usr/bin/env python3
"""Builds the harness once (and so fills Go's build cache)."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run
d = tempfile.mkdtemp(prefix="verif-setup.")
try:
    ok = run.build(d, True) is not None
finally:
    shutil.rmtree(d, ignore_errors=True)
sys.exit(0 if ok else 1)
