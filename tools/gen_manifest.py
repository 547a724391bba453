"""writes MANIFEST.json from properties.jsonl and the obligations registry"""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from nemsa import check  # noqa: E402

props = [json.loads(x) for x in open(os.path.join(ROOT, 'properties.jsonl'))]
reg = check.registry()
NA = json.load(open(os.path.join(ROOT, 'tools', 'not_applicable.json')))
NOTE = ('Gated value-flow summaries of the listed entry points, computed from the current source by abstract interpretation, agree '
        'with the reference summary in every sampled finite relational structure (random interpretation, exact rationals): any '
        'disagreement is definite, agreement is probabilistic within the structure bounds. Trusts the modelled semantics of '
        'pandas/numpy/python-mip and the written reference.')
TECH = 'abstract interpretation to gated value-flow summaries, compared with a reference by random interpretation'
out = {'version': 1, 'setup_cmd': 'python3 -c "import nemsa.check"', 'checks': [], 'not_applicable': [],
       'notes': 'Checks read only /repo/src/nempy; nothing of nempy is imported or run.'}
for p in props:
    i = p['id']
    if i in reg:
        obs = reg[i].values()
        notes = sorted({o.note for o in obs if getattr(o, 'note', None)})
        techs = sorted({o.tech for o in obs if getattr(o, 'tech', None)})
        out['checks'].append({'property': i, 'quick_cmd': 'python3 -m nemsa.check ' + i,
                              'thorough_cmd': 'VERIF_TIER=thorough python3 -m nemsa.check ' + i,
                              'evidence_file': 'evidence/%s.json' % i,
                              'technique': '; '.join(techs) or TECH, 'level': 'other', 'level_note': ' '.join(notes) or NOTE})
    else:
        out['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump(out, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(out['checks']), 'claimed', [x['property'] for x in out['not_applicable']])
