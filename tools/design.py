"""Rewrite the generated lists of DESIGN.md (defects, planted bugs).

Usage: python tools/design.py
"""

import glob
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(VERIF)


def replace(text, name, lines):
    start, end = f'<!-- {name} -->\n', f'<!-- end of {name} -->\n'
    i, j = text.index(start) + len(start), text.index(end)
    return text[:i] + '\n'.join(lines) + '\n' + text[j:]


with open('DESIGN.md') as f:
    text = f.read()
with open('known_findings.json') as f:
    findings = json.load(f)['findings']
text = replace(
    text,
    'fixed',
    [
        '* ' + _['what'].replace('fixed: property=', '', 1).replace(
            _['commit'], _['commit'] + ':', 1
        )
        for _ in findings
        if _['status'] == 'fixed'
    ],
)
rows = ['| change | needs | breaks | caught by |', '|--|--|--|--|']
for path in sorted(glob.glob('seeded/*/meta.json')):
    with open(path) as f:
        meta = json.load(f)
    rows.append(
        '| {} | {} | {} | {} |'.format(
            path.split('/')[1], meta['needs'], meta['what_it_breaks'],
            meta.get('caught_by', meta['property'] + ' quick'),
        )
    )
text = replace(text, 'planted', rows)
with open('DESIGN.md', 'w') as f:
    f.write(text)
