#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the check modules present."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ('model checking: exhaustive bounded enumeration of operation histories '
        'on the real code, lock-step dense reference model')
SPECIAL = {
    'C16': ('model checking: every random draw of the sampler enumerated with a '
            'scripted generator, exact path probabilities compared with the '
            'dense Born rule'),
    'C17': ('model checking: every sample record of bounded length enumerated '
            'with its exact probability, exact expectation values compared'),
    'C13': ('model checking: exhaustive enumeration of operators, start vectors '
            'and search parameters on the real code with an exact local '
            'eigensolver, dense spectrum as oracle'),
    'C07': ('model checking: breadth-first exploration of all write histories '
            'of the tensor store, explicit-state model in lock-step'),
}
NOTE = ('Complete for the bound in the evidence file (every case executed on '
        'the code in /repo, none sampled); tensor values are representatives '
        'of value classes.  Trusts numpy/scipy linear algebra and the dense '
        'reference in mc/lib.py; nothing is claimed outside the bound.')
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)['id']
    if os.path.exists(os.path.join(V, 'mc', 'props', p.lower() + '.py')):
        checks.append(dict(property=p, quick_cmd='bin/check {} quick'.format(p),
                           thorough_cmd='bin/check {} thorough'.format(p),
                           evidence_file='evidence/{}.json'.format(p),
                           technique=SPECIAL.get(p, TECH),
                           level='model_checking', level_note=NOTE))
    else:
        na.append(dict(property=p, reason='check not built yet'))
m = dict(version=1, setup_cmd='mkdir -p evidence out/replay && /opt/venv/bin/python -c "import mpnum"',
         checks=checks, not_applicable=na,
         notes='No hooks in /repo: all checks use the public interface. '
               'bin/replay FILE re-executes a reported case.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
