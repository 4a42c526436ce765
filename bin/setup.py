#!/usr/bin/env python3
"""Builds the simulators once, to show that the toolchain works. Every check rebuilds what it needs."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, config
try:
    check.build(list(config.BUILD))
except check.CheckError as e:
    print(e)
    sys.exit(2)
print("built")
