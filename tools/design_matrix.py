#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json."""
import json,os
r=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','seeded')
also={'twin-dispatchers':'C14, C03, C01'}
print('| planted bug | caught by | needs |\n|---|---|---|')
for d in sorted(os.listdir(r)):
    m=json.load(open(f'{r}/{d}/meta.json'))
    print(f"| {d} | {also.get(d,m['property'])} | {m['needs']} |")
