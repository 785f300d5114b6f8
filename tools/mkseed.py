#!/usr/bin/env python3
"""mkseed.py ID PROP: reads spec from stdin as python dict: edits [(file, old, new)], demo (C++ source) or sh, needs, breaks"""
import sys, os, subprocess, json
ID, PROP = sys.argv[1:3]
ns = {}; exec(sys.stdin.read(), ns)
D = '/verif/seeded/' + ID; os.makedirs(D, exist_ok=True)
saved = {}
try:
    for f, a, b in ns['edits']:
        p = '/repo/' + f; s = open(p, encoding='utf-8', errors='surrogateescape').read()
        saved.setdefault(p, s)
        n = ns.get('nth', {}).get(a, None)
        assert s.count(a) >= 1, 'not found: ' + a
        assert s.count(a) == 1 or n is not None, 'ambiguous (%d): %s' % (s.count(a), a)
        if n is None: s = s.replace(a, b)
        else:
            parts = s.split(a); s = a.join(parts[:n+1]) + b + a.join(parts[n+1:])
        open(p, 'w', encoding='utf-8', errors='surrogateescape').write(s)
    d = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True).stdout
    open(D + '/patch.diff', 'wb').write(d)
finally:
    for p, s in saved.items():
        st = os.stat(p); open(p, 'w', encoding='utf-8', errors='surrogateescape').write(s)
if 'sh' in ns:
    open(D + '/demo.sh', 'w').write(ns['sh'])
else:
    open(D + '/demo.cc', 'w').write(ns['demo'])
    std = ns.get('std', 'c++17')
    open(D + '/demo.sh', 'w').write('''#!/bin/bash
R=$PWD; D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=%s -w -fno-access-control -DHAVE_CONFIG_H -D_GNU_SOURCE -I"$R" -I"$R/libhfst/src" -I"$R/libhfst/src/parsers" -I"$R/back-ends" "$D/demo.cc" -o "$T/demo" -L"$R/libhfst/src/.libs" -lhfst -Wl,-rpath,"$R/libhfst/src/.libs" || exit 2
cd "$T" && timeout 100 ./demo
''' % std)
json.dump({'property': PROP, 'needs': ns['needs'], 'what_it_breaks': ns['breaks']}, open(D + '/meta.json', 'w'), indent=1)
