#!/usr/bin/env python3
"""Re-run a recorded violation natively: python3 replay.py replays/C05-0-0.txt (needs a previous check run of that property for the build)."""
import sys, os, subprocess
V = os.path.dirname(os.path.abspath(__file__))
b = e = ''; ps = []; ins = []
for l in open(sys.argv[1]):
    w = l.split()
    if not w or w[0].startswith('#'): continue
    if w[0] == 'bin': b = w[1]
    elif w[0] == 'entry': e = w[1]
    elif w[0] == 'params': ps = w[1:]
    elif w[0] == 'input': ins.append(' '.join(w[1:]))
f = os.path.join(os.environ.get('VERIF_BUILD', V + '/.build'), 'replay.values')
open(f, 'w').write('\n'.join(ins) + '\n')
sys.exit(subprocess.run([os.path.join(os.environ.get('VERIF_BUILD', V + '/.build'), 'harness', 'release', b), e, f] + ps).returncode)
