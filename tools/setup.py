#!/usr/bin/env python3
"""Builds what the checks share: the binder executable and the precompiled pybind11 header. Checks rebuild both if needed."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import build, pyb  # noqa: E402
try:
    print(build.binder())
except build.BuildError as e:
    print("binder does not build:", e)
print(pyb.pch())
