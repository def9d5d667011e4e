#!/usr/bin/env python3
"""Writes seeded/<id>/ from a file of definitions (see PLANTS below).

usage: plant.py FILE...   each FILE defines a list PLANTS of dicts with
  id, property, edits [(file below include/embedded, old, new)], needs, breaks,
  demo (C++ source), and optionally flags (of g++), sh (a whole demo.sh)
  or files ({name: text})
"""
import json, os, runpy, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SH = '''#!/bin/bash
# Exits 0 if the demonstration finds the behaviour it relies on.
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d)
trap 'rm -rf "$out"' EXIT
g++ %s -I"$PWD/include" "$here/demo.cpp" -o "$out/demo" || exit 2
timeout 120 "$out/demo"
'''

tmp = tempfile.mkdtemp()
repo = tmp + '/repo'
subprocess.check_call(['git', 'clone', '-q', '/repo', repo])

for f in sys.argv[1:]:
    for p in runpy.run_path(f)['PLANTS']:
        d = '%s/seeded/%s' % (V, p['id'])
        os.makedirs(d, exist_ok=True)
        try:
            for name, old, new in p['edits']:
                path = repo + '/include/embedded/' + name
                s = open(path).read()
                assert s.count(old) == 1, (p['id'], name, s.count(old), old)
                open(path, 'w').write(s.replace(old, new))
            diff = subprocess.check_output(['git', '-C', repo, 'diff'], text=True)
        finally:
            subprocess.check_call(['git', '-C', repo, 'checkout', '-q', '--', '.'])
        open(d + '/patch.diff', 'w').write(diff)
        if 'sh' in p:
            open(d + '/demo.sh', 'w').write(p['sh'])
        else:
            open(d + '/demo.sh', 'w').write(SH % p.get('flags', '-std=gnu++17 -O1 -w'))
        if 'demo' in p:
            open(d + '/demo.cpp', 'w').write(p['demo'].lstrip())
        for name, text in p.get('files', {}).items():
            os.makedirs(os.path.dirname('%s/%s' % (d, name)), exist_ok=True)
            open('%s/%s' % (d, name), 'w').write(text)
        json.dump({'property': p['property'], 'needs': p['needs'], 'what_it_breaks': p['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        print(p['id'], diff.count('\n'))

shutil.rmtree(tmp)
