#!/usr/bin/env python3
"""mkplant.py ID PROP 'needs' 'breaks' < demo.c : turns the uncommitted change in /repo into seeded/ID and reverts it."""
import sys, subprocess, json, os
i, prop, needs, breaks = sys.argv[1:5]; d = '/verif/seeded/' + i; os.makedirs(d, exist_ok=True)
p = subprocess.run(['git', '-C', '/repo', 'diff'], stdout=subprocess.PIPE, text=True).stdout
assert p.strip(), 'no change'
open(d + '/patch.diff', 'w').write(p); subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
open(d + '/demo.c', 'w').write(sys.stdin.read())
fl = sys.argv[5] if len(sys.argv) > 5 else ''
open(d + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0 when the property holds; everything happens in a scratch directory
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap '/bin/rm -rf "$T"' EXIT
gcc -std=gnu11 -g -w -pthread %s -I/repo/code "$D/demo.c" -o "$T/demo" -lm -ldl || exit 3
mkdir "$T/w" && cd "$T/w" && timeout 120 "$T/demo"
''' % (fl or '-O1'))
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
