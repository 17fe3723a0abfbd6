#!/usr/bin/env python3
"""compare a test.sh result with the baseline"""
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open(sys.argv[1]))
print("stable failing:", sorted(set(b['stable'])-set(o['passed'])))
