#!/usr/bin/env python3
"""Rewrites the list of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, re
os.chdir(os.path.dirname(os.path.abspath(__file__)) + '/..')
notes = {'C06-dist-ring-degree': 'missed at first; TestGaussian now samples into larger and smaller rings',
         'C17-cached-message': 'missed at first; operands are now reused with other contents (`vh.Earlier`, `EncryptMsg`)'}
try:
    notes.update(json.load(open('tools/seednotes.json')))
except FileNotFoundError:
    pass
s = open('DESIGN.md').read().split('## Planted bugs')[0].replace('@@SEEDS@@', '').rstrip()
s += '\n\n## Planted bugs\n\nEach is in `seeded/<id>/`, was checked by `tools/tryseed.sh`, and is caught by the quick check of its property, unless the last column says otherwise.\n\n'
s += '| id | caught by | needs | what it breaks | remark |\n|---|---|---|---|---|\n'
for d in sorted(os.listdir('seeded')):
    m = json.load(open(f'seeded/{d}/meta.json'))
    s += f"| {d} | {m['property']} quick | {m['needs']} | {m['what_it_breaks']} | {notes.get(d,'')} |\n"
open('DESIGN.md', 'w').write(s)
