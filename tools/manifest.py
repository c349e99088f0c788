#!/usr/bin/env python3
"""Write MANIFEST.json from the list of properties which have a check."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
main = open(os.path.join(here, 'mc/src/main.rs')).read()
have = dict(re.findall(r'"(C\d\d)" => \(\w+::\w+\(tier\), (\w)\)', main))
M = ('bounded exhaustive exploration of the real code, step by step against a reference model',
     'Complete within the bounds listed in the evidence file (families and their bounds); every explored model trace is '
     'executed on the compiled library and compared. Trusts the reference model mc/src/refm.rs, the explorer, pix and the '
     'Rust toolchain. Says nothing beyond the bounds.')
F = ('exhaustive enumeration of fault points and deviations, compared with a reference model',
     'Every fault position of every corpus input times every deviation is executed on the compiled library; complete within '
     'the bounds listed in the evidence file. Trusts the reference model, the scripted reader and writer, and the Rust toolchain.')
checks, na = [], []
for l in open(os.path.join(here, 'properties.jsonl')):
    p = json.loads(l)['id']
    if p not in have:
        na.append({'property': p, 'reason': 'check not built yet'})
        continue
    t, n = F if have[p] == 'f' else M
    checks.append({
        'property': p,
        'quick_cmd': f'./check.sh {p} quick',
        'thorough_cmd': f'./check.sh {p} thorough',
        'evidence_file': f'evidence/{p}.json',
        'technique': t,
        'level': 'fault_enumeration' if have[p] == 'f' else 'model_checking',
        'level_note': n,
    })
m = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': checks,
    'not_applicable': na,
    'notes': 'No hooks: everything is observed through the public API of the library and the output of the command. '
             'Findings in known_findings.txt, design in DESIGN.md.',
}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
