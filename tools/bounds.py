#!/usr/bin/env python3
"""Write BOUNDS.md from the evidence files of a quick run of all checks."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
titles = {}
for l in open(os.path.join(here, 'properties.jsonl')):
    p = json.loads(l)
    titles[p['id']] = p['title']
out = ['# Bounds of the quick checks', '',
       'Every family is a finite, indexed space which is enumerated completely.',
       'Written by `tools/bounds.py` from the evidence of a quick run (8 cores).',
       'The bounds of any other run are in its evidence file.', '']
for f in sorted(glob.glob(os.path.join(here, 'evidence/C*.json'))):
    d = json.load(open(f))
    c = d['coverage']
    p = d['property']
    st = c.get('states', c.get('model_states'))
    tr = c.get('transitions', c.get('model_transitions'))
    ev = c.get('traces_validated_against_impl', c.get('evaluations'))
    out += [f'## {p}: {titles[p]}', '',
            f'{ev} runs of the implementation, {st} model states, {tr} transitions, '
            f'about {max(1, round(d["wall_s"]))} s.', '',
            '| family | cases | bound |', '|---|---|---|']
    for g in c['families']:
        bound = g['bound'].replace('|', '\\|')
        out.append(f'| {g["family"]} | {g["cases"]} | {bound} |')
    out.append('')
open(os.path.join(here, 'BOUNDS.md'), 'w').write('\n'.join(out))
