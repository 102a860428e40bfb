#!/usr/bin/env python3
"""table.py ID... : rows of DESIGN.md's table of planted bugs"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for i in sys.argv[1:]:
    d = json.load(open(f'{V}/seeded/{i}/meta.json'))
    print(f"| {i} | {d['property']} | {d['needs']} | {d['what_it_breaks']} | caught as planted |")
