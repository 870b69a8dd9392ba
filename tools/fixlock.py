#!/usr/bin/env python3
"""Development tool: pins the workspace lock file to crate versions that are in the local cache."""
import os, re, subprocess, glob
have = {}
for d in glob.glob(os.path.expanduser('~/.cargo/registry/src/*/*')):
    m = re.match(r'(.+?)-(\d+\.\d+\.\d+.*)$', os.path.basename(d))
    if m:
        have.setdefault(m[1], set()).add(m[2])
for i in range(60):
    r = subprocess.run(['cargo', 'metadata', '--offline', '--format-version', '1', '--filter-platform', 'x86_64-unknown-linux-gnu'], capture_output=True, text=True)
    if r.returncode == 0:
        print('ok'); break
    m = re.search(r'failed to download `(\S+) v(\S+)`', r.stderr)
    if not m:
        print(r.stderr); break
    name, ver = m[1], m[2]
    cands = sorted(have.get(name, []), key=lambda v: [int(x) if x.isdigit() else 0 for x in re.split(r'[.+-]', v)], reverse=True)
    done = False
    for c in [c for c in cands if c != ver]:
        u = subprocess.run(['cargo', 'update', '--offline', '-p', f'{name}@{ver}', '--precise', c], capture_output=True, text=True)
        if u.returncode == 0:
            print(name, ver, '->', c); done = True; break
    if not done:
        print('cannot fix', name, ver, cands, u.stderr if cands else ''); break
