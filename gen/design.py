#!/usr/bin/env python3
"""Writes DESIGN.md from the pieces next to it."""
import json, re, glob, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
how = {}
for f in glob.glob(here + '/tool/*.go'):
    for m in re.finditer(r'register\("(C\d+)",\s*"((?:[^"\\]|\\.)*)"', open(f).read()):
        how[m.group(1)] = m.group(2)
tech = json.load(open(here + '/gen/technique.json'))
notes = {}
for blk in re.split(r'^# ', open(here + '/gen/design_notes.md').read(), flags=re.M)[1:]:
    k, v = blk.split('\n', 1)
    notes[k.strip()] = v.strip()
out = [open(here + '/gen/design_intro.md').read().rstrip(), '', '## Properties', '']
for l in open(here + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    out += [f"### {i} {p['title']}", '', f"*Technique*: {tech.get(i, 'path-sensitive interprocedural dataflow')}.", '', f"*Decided*: {how.get(i, 'not claimed')}", '']
    if i in notes: out += [notes[i], '']
out += [notes['TAIL'], '', '## Planted bugs', '',
        'Each was written from the text of its property; build, stable tests and the demonstration were confirmed by `gen/mkseed.py`, which also records which checks report it (`gen/caught.json`).', '',
        '| planted bug | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
caught = json.load(open(here + '/gen/caught.json'))
for d in sorted(glob.glob(here + '/seeded/*/meta.json')):
    m = json.load(open(d)); n = d.split('/')[-2]
    c = caught.get(n, [])
    out.append(f"| {n} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {', '.join(c) if c else '—'} |")
open(here + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
