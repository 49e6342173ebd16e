#!/usr/bin/env python3
"""Warms the object cache (optional: every check builds what it needs itself)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import build
try:
    build.build_lib(True)
except build.BuildError as e:
    print(e)
