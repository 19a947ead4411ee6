#!/usr/bin/env python3
"""Builds the extractor and the replay harness (the checks rebuild both if needed)."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for d, extra in (('extract', []), ('harness', ['--release'])):
    r = subprocess.run(['cargo', 'build', '--offline', *extra], cwd=os.path.join(V, d), env=dict(os.environ, CARGO_NET_OFFLINE='true', RUSTFLAGS='', CARGO_TARGET_DIR=os.path.join(V, '.build', d)))
    if r.returncode: sys.exit(r.returncode)
