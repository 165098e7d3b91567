#!/usr/bin/env python3
"""Builds the executor and compiles the current /repo sources once, to show that the toolchain works (each check rebuilds what it needs)."""
import sxlib, sys
exe = sxlib.build_engine()
print("executor:", exe)
