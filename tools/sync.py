"""Write properties.jsonl and MANIFEST.json from the PROPERTY declared by each check.

Usage: python tools/sync.py
"""

import glob
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
os.chdir(VERIF)
from harness import build  # noqa: E402

build.ensure_deps()

TECHNIQUE = 'property-based testing (Hypothesis)'
LEVEL_NOTE = (
    'Randomised search with shrinking: no counterexample among the generated cases; it '
    'does not establish absence. Trusts numpy and the reference model of the check.'
)

properties, checks = [], []
for path in sorted(glob.glob('checks/c*.py')):
    name = os.path.basename(path)[:-3]
    m = importlib.import_module('checks.' + name)
    ident = name.split('_')[0].upper()
    p = m.PROPERTY
    assert len(p['title']) <= 80, (ident, len(p['title']))
    properties.append(
        {
            'id': ident,
            'title': p['title'],
            'statement': p['statement'],
            'quantifier': {'over': p.get('over', ['inputs']), 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {
                'files': p['files'],
                'mechanism': [
                    dict(zip(('name', 'where'), x)) for x in p['mechanism']
                ],
                'observe_at': p.get('observe', []),
            },
        }
    )
    checks.append(
        {
            'property': ident,
            'quick_cmd': f'./run {ident} quick',
            'thorough_cmd': f'./run {ident} thorough',
            'evidence_file': f'evidence/{ident}.json',
            'technique': p.get('technique', TECHNIQUE),
            'level': 'exploration',
            'level_note': p.get('note', LEVEL_NOTE),
        }
    )
with open('properties.jsonl', 'w') as f:
    for p in properties:
        f.write(json.dumps(p) + '\n')
manifest = {
    'version': 1,
    'setup_cmd': './run --setup',
    'checks': checks,
    'not_applicable': [],
    'notes': 'See DESIGN.md. ./run --replay FILE re-runs a saved failing case.',
}
with open('MANIFEST.json', 'w') as f:
    json.dump(manifest, f, indent=1)
    f.write('\n')

sys.path.insert(0, '/opt/veriftools/pyvenv/lib/python3.12/site-packages')
try:
    import jsonschema
except ImportError:
    print('jsonschema is not available')
else:
    ps = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p in properties:
        jsonschema.validate(p, ps)
    jsonschema.validate(manifest, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print(len(checks), 'checks, valid')
