#!/usr/bin/env python3
"""Builds all variants of the library and all explorers once (warms the cache)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import egbuild
from checks import CHECKS
done = set()
for prop, c in CHECKS.items():
    for r in c["runs"]:
        k = (r["name"], r["variant"])
        if k in done:
            continue
        done.add(k)
        egbuild.program(r["name"], r["variant"], r["srcs"], r.get("extra", ()), r.get("link", ()))
        print("built", *k)
