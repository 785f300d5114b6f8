#!/usr/bin/env python3
"""addprop.py < entry: append a dict(...) entry to P in props_table.py"""
import sys, os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'props_table.py')
s = open(p).read(); e = sys.stdin.read().strip().rstrip(',')
i = s.index(']\nNA = ['); s = s[:i] + ' ' + e + ',\n' + s[i:]
open(p, 'w').write(s)
