#!/usr/bin/env python3
"""builds the instrumented library once (every check rebuilds what changed) and parses the specifications"""
import os, subprocess, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(H, 'vt'))
import build
build.build()
for s in sorted(os.listdir(os.path.join(H, 'spec'))):
    if s.endswith('.tla'):
        r = subprocess.run(['tla-sany', s], cwd=os.path.join(H, 'spec'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            print(r.stdout.decode()[-2000:])
            sys.exit(1)
print('ok')
