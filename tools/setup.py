#!/usr/bin/env python3
"""Builds the variants once, as each check would, to show that they build here."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check
for v in ("plain", "asan", "tsan"):
    check.build(v)
check.build("plain", "libcabi.so")
check.build_py()
check.build("asan", "arctic")
