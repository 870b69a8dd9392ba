#!/usr/bin/env python3
"""Development tool: writes ws/mirror/<crate>/Cargo.toml from /repo's manifests, with the git
dependencies replaced by the stand-ins in ws/shim or by the published crates.  The results are
committed; checks do not run this."""
import os, sys, tomllib

REPO = '/repo'
OUT = '/verif/ws/mirror'
CRATES = ['bitcoin', 'btc-relay', 'security', 'currency', 'traits', 'oracle', 'staking', 'reward', 'fee', 'vault-registry',
          'nomination', 'issue', 'redeem', 'replace', 'loans', 'clients-info', 'dex-general', 'dex-stable',
          'dex-swap-router', 'escrow', 'annuity', 'supply', 'farming', 'collator-selection', 'tx-pause', 'democracy',
          'multi-transaction-payment']
REG = {  # published substrate crates
    'sp-core': '=21.0.0', 'sp-std': '=8.0.0', 'sp-runtime': '=24.0.0', 'sp-arithmetic': '=16.0.0', 'sp-io': '=23.0.0',
    'sp-weights': '=20.0.0', 'sp-state-machine': '=0.28.0',
}
SHIM = ['frame-support', 'frame-system', 'pallet-timestamp', 'orml-tokens', 'orml-traits', 'pallet-transaction-payment',
        'pallet-authorship', 'pallet-session', 'sp-staking', 'pallet-balances', 'pallet-utility', 'sp-api', 'xcm', 'secp256k1']


def lit(v):
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, list):
        return '[' + ', '.join(lit(x) for x in v) + ']'
    if isinstance(v, dict):
        return '{ ' + ', '.join('%s = %s' % (k, lit(x)) for k, x in v.items()) + ' }'
    raise ValueError(v)


def main():
    local = {}
    for c in CRATES:
        local[tomllib.load(open(f'{REPO}/crates/{c}/Cargo.toml', 'rb'))['package']['name']] = c
    local['interbtc-primitives'] = 'primitives'
    for c in CRATES + ['primitives']:
        src = f'{REPO}/primitives' if c == 'primitives' else f'{REPO}/crates/{c}'
        m = tomllib.load(open(src + '/Cargo.toml', 'rb'))
        deps = {}
        for k, v in m.get('dependencies', {}).items():
            if isinstance(v, str):
                v = {'version': v}
            pkg = v.get('package', k)
            o = {}
            if pkg in ('frame-benchmarking', 'mocktopus', 'visibility', 'frame-try-runtime', 'sp-api',
                       'pallet-utility', 'pallet-balances', 'orml-oracle', 'pallet-proxy'):
                continue
            if pkg == 'pallet-transaction-payment' and c != 'multi-transaction-payment':
                continue
            if pkg in local:
                o = {'path': '../' + local[pkg]}
            elif 'git' in v and pkg in REG:
                o = {'version': REG[pkg]}
            elif pkg in SHIM and 'git' in v:
                o = {'path': '../../shim/' + pkg}
            elif 'git' in v or 'path' in v:
                print('UNRESOLVED', c, k, v, file=sys.stderr)
                continue
            else:
                o = {'version': v['version']}
                if 'features' in v:
                    o['features'] = v['features']
            if c == 'democracy' and pkg == 'sp-io':
                o = {'package': 'sim-sp-io', 'path': '../../shim/sp-io'}
            if pkg == 'fixed-hash':
                o['version'] = '0.8.0'
            if pkg != k:
                o = {'package': pkg, **o}
            deps[k] = o
        deps.setdefault('codec', {'package': 'parity-scale-codec', 'version': '3.6.4', 'features': ['derive', 'max-encoded-len']})
        if c not in ('bitcoin', 'primitives', 'traits'):
            deps.setdefault('sp-runtime', {'version': REG['sp-runtime']})
            deps.setdefault('frame-support', {'path': '../../shim/frame-support'})
            deps.setdefault('frame-system', {'path': '../../shim/frame-system'})
        if c in ('bitcoin',):
            deps['serde'] = {'version': '1', 'features': ['derive']}
            deps['rust-bitcoin'] = {'package': 'bitcoin', 'version': '=0.30.1'}
            deps['primitive-types'] = {'version': '0.12.1', 'features': ['codec', 'scale-info', 'serde']}
            deps['hex'] = {'version': '0.4.2'}
            deps['sha2'] = {'path': '../../shim/sha2'}
        if c == 'primitives':
            deps['serde'] = {'version': '1', 'features': ['derive']}
        os.makedirs(f'{OUT}/{c}', exist_ok=True)
        feats = {'default': ['std'], 'std': []}
        for f in m.get('features', {}):
            if f not in feats:
                feats[f] = []
        if c == 'bitcoin':
            feats['default'] = ['std', 'parser', 'bitcoin-types-compat', 'runtime-benchmarks']
        if c == 'primitives':
            feats['default'] = ['std', 'substrate-compat']
        if c == 'vault-registry':
            feats.setdefault('integration-tests', [])
        with open(f'{OUT}/{c}/Cargo.toml', 'w') as f:
            f.write('# generated by tools/gen_manifests.py; src/ is copied from /repo by tools/sync.py\n')
            f.write('[package]\nname = "%s"\nversion = "%s"\nedition = "2021"\n\n[lib]\npath = "src/lib.rs"\ndoctest = false\n\n[dependencies]\n'
                    % (m['package']['name'], m['package']['version']))
            for k, v in deps.items():
                f.write('%s = %s\n' % (k, lit(v)))
            f.write('\n[features]\n')
            for k, v in feats.items():
                f.write('%s = %s\n' % (k, lit(v)))


main()
