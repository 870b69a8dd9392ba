#!/usr/bin/env python3
"""Development tool: writes properties.jsonl and MANIFEST.json from tools/props/*.py.
Each module defines SIM, LEVEL_NOTE and PROPS, a list of dicts."""
import glob, json, os, importlib.util

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'deterministic simulation with fault injection'
props, checks, na = [], [], []
for f in sorted(glob.glob(os.path.join(ROOT, 'tools/props/*.py'))):
    spec = importlib.util.spec_from_file_location('m', f)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for p in m.PROPS:
        over, text = p['quant']
        props.append({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': over, 'text': text},
            'why_tests_cant': p['why'],
            'anchors': {
                'files': p['files'],
                'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in p.get('state', [])],
                'mechanism': [dict(zip(('name', 'where'), s)) for s in p['mech']],
                'observe_at': p.get('observe', []),
                'hook_needed': None,
            },
        })
        assert len(p['title']) <= 80, p['id']
        if p.get('na'):
            na.append({'property': p['id'], 'reason': p['na']})
            continue
        cmd = './check.sh %s %s' % (p.get('sim', m.SIM), p['id'])
        checks.append({
            'property': p['id'], 'quick_cmd': cmd, 'thorough_cmd': cmd,
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': TECH + ': ' + p['tech'],
            'level': 'exploration',
            'level_note': p.get('note', m.LEVEL_NOTE),
        })
ids = [p['id'] for p in props]
assert len(ids) == len(set(ids))
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
man = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': checks,
    'not_applicable': na,
    'notes': 'Every check rebuilds its simulator from /repo\'s working tree (check.sh), runs seeded simulations and writes evidence/<id>.json. A violation is replayed with ./check.sh replay <simulator> <file>. The commits in /repo are fixes of genuine defects only, listed in known_findings.txt.',
}
json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')
try:
    import jsonschema
    jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in props:
        jsonschema.validate(p, s)
except ImportError:
    print('jsonschema missing: run with python3-vt')
print(len(props), 'properties', len(checks), 'checks', len(na), 'n/a')

# DESIGN.md from the template, the property files, the findings and the planted bugs
out = []
for f in sorted(glob.glob(os.path.join(ROOT, 'tools/props/*.py'))):
    spec = importlib.util.spec_from_file_location('m', f)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    out.append('## %s\n\n%s\n' % (m.DESIGN_TITLE, m.DESIGN.strip()))
    for p in m.PROPS:
        if p.get('na'):
            out.append('* **%s %s**: not applicable: %s' % (p['id'], p['title'], p['na']))
        else:
            out.append('* **%s %s** (`check.sh %s %s`): %s' % (p['id'], p['title'], p.get('sim', m.SIM), p['id'], p['d']))
    out.append('')
t = open(os.path.join(ROOT, 'tools/design.md')).read()
finds = [l.rstrip() for l in open(os.path.join(ROOT, 'known_findings.txt')) if not l.startswith('#') and l.strip()]
seeded = ['| bug | property | needs | caught by |', '|---|---|---|---|']
res = os.path.join(ROOT, 'tools/seeded_results.json')
caught = json.load(open(res)) if os.path.exists(res) else {}
for d in sorted(glob.glob(os.path.join(ROOT, 'seeded/*/meta.json'))):
    b = os.path.basename(os.path.dirname(d))
    x = json.load(open(d))
    seeded.append('| %s | %s | %s | %s |' % (b, x['property'], x['needs'].replace('|', '/'), caught.get(b, '?')))
t = t.replace('@@PROPS@@\n', '\n'.join(out) + '\n').replace('@@FIND@@', '\n'.join('* ' + x for x in finds)).replace('@@SEEDED@@', '\n'.join(seeded))
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(t)
