#!/usr/bin/env python3
"""List the defects of KNOWN_FINDINGS.jsonl."""
import json
import os
for line in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "KNOWN_FINDINGS.jsonl")):
    if line.strip():
        d = json.loads(line)
        print("  ".join(str(d[k]) for k in d))
