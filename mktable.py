#!/usr/bin/env python3
"""prints the table of planted bugs for DESIGN.md, section 9"""
import json,glob
print('| bug | caught by | needs |\n|---|---|---|')
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); print('| %s | %s | %s |'%(f.split('/')[3],m['property'],m['needs']))
