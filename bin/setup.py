#!/usr/bin/env python3
"""Checks that the tools are there and that the driver builds against /repo."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import *
c = Check("setup", "quick", 1)
c.build()
print("ready")
