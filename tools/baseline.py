#!/usr/bin/env python3-vt
"""writes contracts/baseline.json: digest of the sources for the properties proved on them (python3-vt tools/baseline.py C01 ...)"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check

p = os.path.join(HERE, "contracts", "baseline.json")
b = json.load(open(p)) if os.path.exists(p) else {}
for pid in sys.argv[1:]:
    b[pid] = check.source_state()
json.dump(b, open(p, "w"), indent=1, sort_keys=True)
