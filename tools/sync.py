#!/usr/bin/env python3
"""Copies the sources under test from /repo's working tree into the build workspace.

Only files whose content differs are rewritten, with a fresh modification time, so that cargo
rebuilds exactly what changed, whatever the modification times in /repo are."""
import os, shutil, sys

REPO = os.environ.get('VERIF_REPO', '/repo')
WS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'ws')


SINGLE = {
    'contract-btc-swap': ('contracts/btc_swap', 'lib.rs'),
    'contract-hello': ('contracts/hello_world', 'lib.rs'),
    'contract-runtime': ('parachain/runtime/kintsugi/src', 'contracts.rs'),
}


# the contract's module is private; the simulator needs a name for it
APPEND = {'contract-btc-swap': b'\npub use self::btc_swap::BtcSwap as SimulatedContract;\n'}


def copy_tree(src, dst, only=None, append=b''):
    want = {}
    for root, dirs, files in os.walk(src):
        dirs.sort()
        if only:
            del dirs[:]
            files = [f for f in files if f == only]
        for f in files:
            p = os.path.join(root, f)
            want[os.path.relpath(p, src)] = p
    for root, dirs, files in os.walk(dst):
        for f in files:
            p = os.path.join(root, f)
            if os.path.relpath(p, dst) not in want:
                os.remove(p)
    for rel, p in want.items():
        q = os.path.join(dst, rel)
        with open(p, 'rb') as fh:
            data = fh.read() + append
        try:
            with open(q, 'rb') as fh:
                if fh.read() == data:
                    continue
        except OSError:
            pass
        os.makedirs(os.path.dirname(q), exist_ok=True)
        tmp = q + '.tmp~'
        with open(tmp, 'wb') as fh:
            fh.write(data)
        os.replace(tmp, q)


def main():
    m = os.path.join(WS, 'mirror')
    for c in sorted(os.listdir(m)):
        if c == 'primitives':
            src = os.path.join(REPO, 'primitives', 'src')
        elif c in SINGLE:
            copy_tree(os.path.join(REPO, SINGLE[c][0]), os.path.join(m, c, 'src'), only=SINGLE[c][1], append=APPEND.get(c, b''))
            continue
        else:
            src = os.path.join(REPO, 'crates', c, 'src')
        copy_tree(src, os.path.join(m, c, 'src'))


main()
