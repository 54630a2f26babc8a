#!/usr/bin/env python3
"""Builds the harness once (warms the Go build cache) and checks the tools."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import vlib
for cgo in (True, False):
    vlib.build(cgo)
for f in sorted(os.listdir(vlib.SPEC)):
    print(f)
