#!/usr/bin/env python3
"""Build the symbolic executor once (every check rebuilds what is missing)."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = os.environ.get('VERIF_BUILD', os.path.join(V, '.build'))
os.makedirs(B, exist_ok=True)
e = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='1.96-x86_64-unknown-linux-gnu', CARGO_TARGET_DIR=os.path.join(B, 'engine'))
sys.exit(subprocess.run(['cargo', 'build', '--release', '--offline'], cwd=V + '/engine', env=e).returncode)
