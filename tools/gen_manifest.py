#!/usr/bin/env python3
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from checks import PROPS
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in PROPS:
        c = PROPS[i]
        checks.append({'property': i, 'quick_cmd': f'python3 /verif/check.py {i} quick', 'thorough_cmd': f'python3 /verif/check.py {i} thorough',
                       'technique': c.get('technique', 'property-based testing: generated histories against a reference model, shrinking'),
                       'level': 'exploration', 'level_note': c.get('note', 'randomised search over generated cases, a fixed number per tier, all a function of VERIF_SEED'),
                       'evidence_file': f'evidence/{i}.json'})
    else:
        na.append({'property': i, 'reason': 'no check yet: under construction'})
m = {'version': 1, 'setup_cmd': 'python3 /verif/check.py --build', 'hooks': {'guard': 'SPVGENTWO_VERIF', 'enable': 'none: no hooks are needed, the checks use the public interface only', 'source_commits': []},
     'checks': checks, 'not_applicable': na}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
