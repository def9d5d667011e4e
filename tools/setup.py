#!/usr/bin/env python3
"""setup_cmd: nothing is prebuilt (every check compiles its harness from /repo's
current tree), so this only verifies that the tools the checks need work."""
import os, subprocess, sys, tempfile
src = '#include <vector>\nint main(){std::vector<int> v(3); return int(v.size())-3;}\n'
bad = 0
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'a.cpp')
    open(f, 'w').write(src)
    for cc, flags in (('g++', ['-fsanitize=address,undefined']), ('g++', ['-O2']),
                      ('clang++', ['-O1', '-fsanitize=address,undefined'])):
        r = subprocess.run([cc, '-std=gnu++17'] + flags + [f, '-o', os.path.join(d, 'a')]).returncode
        r = r or subprocess.run([os.path.join(d, 'a')]).returncode
        print(cc, ' '.join(flags), 'ok' if r == 0 else 'FAILED')
        bad = bad or r
sys.exit(1 if bad else 0)
