#!/usr/bin/env python3
"""Build the simulation machinery from the committed files (offline)."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check   # noqa: E402
check.build()
print('built', check.SO)
