#!/usr/bin/env python3
"""Build the harness once (checks rebuild what changed) and parse every specification."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ozzlib as L
try:
    print("harness:", L.build())
except L.ToolError as e:
    print(e, file=sys.stderr)
    sys.exit(1)
