#!/usr/bin/env python3
"""Builds the symbolic executor."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check

check.build_engine()
print("built", check.ENGINE)
