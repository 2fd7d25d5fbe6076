"""Replays a counterexample file on a fresh native build: replay.py evidence/<id>.replay"""
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build   # noqa: E402

with open(sys.argv[1]) as fh:
    lines = fh.read().split('\n')
profile = 'release' if 'profile release' in lines[1] else 'dev'
d = build.prepare(cfgs=(), profiles=(profile,))
try:
    p = subprocess.run([os.path.join(d, 'replay-' + profile), '/dev/stderr'], input=lines[0] + '\n', text=True, timeout=60)
    print('\n'.join(lines[1:]))
except subprocess.TimeoutExpired:
    print('does not return within 60 s')
build.discard(d)
