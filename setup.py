#!/usr/bin/env python3
"""Warms the Go build cache and checks that the tools are there.  Nothing the checks need is left behind."""
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vlib import engine, sut, tlc  # noqa: E402

work = tempfile.mkdtemp(prefix="verif_setup_")
try:
    for b in ("plain", "yield", "cli"):
        sut.build(work, b, **engine.BUILDS[b])
    for m in sorted(os.listdir(tlc.SPEC)):
        pass
finally:
    shutil.rmtree(work, ignore_errors=True)
