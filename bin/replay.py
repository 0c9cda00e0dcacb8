#!/usr/bin/env python3
"""replay.py ID KIND HARNESS INPUTS: runs one counterexample on the real code (built from /repo)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check

s, text = check.Native(sys.argv[1]).run(sys.argv[2], sys.argv[3], sys.argv[4] if len(sys.argv) > 4 else "", verbose=True)
print(s)
print(text)
sys.exit(0 if s == "held" else 1)
