#!/usr/bin/env python3
"""Regenerates spec/baseline.json (body hashes, callees, solver weights of the unchanged tree)."""
import json, os, subprocess, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = os.path.join(V, 'spec', 'baseline.json')
old = json.load(open(out)) if os.path.exists(out) else dict(functions={}, weights={})
w = dict(old.get('weights', {}))
subprocess.run([os.path.join(V, '.build/extract/debug/babs-extract'), '--spec', os.path.join(V, 'spec'), '--out', '/tmp/vx/base.rs', '--meta', '/tmp/vx/base.json', '--known-only'], check=True)
m = json.load(open('/tmp/vx/base.json'))
fn = {f['path']: dict(hash=f['hash'], loops=f['loops'], calls=f['calls'], locals=f.get('locals', []), bag=f.get('bag', '')) for f in m['functions'] if f['has_body']}
for l in sys.stdin if '-' in sys.argv else []:
    p, ms = l.rsplit(' ', 1); w[p] = int(ms)
json.dump(dict(functions=fn, weights=w), open(out, 'w'), indent=0, sort_keys=True)
