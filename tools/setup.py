#!/usr/bin/env python3
"""Builds the harnesses once (checks rebuild whatever changed)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from plan import HARNESSES
for n, h in HARNESSES.items():
    print(n, vbuild.Builder(h["flavour"]).build(n, h["sources"], ldextra=h.get("ldextra", ()), skip=h.get("skip", ()), programs=h.get("programs", ())))
