"""Write MANIFEST.json from the table below (run after adding a check)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python -B /verif/check.py '
CHECKS = json.load(open(os.path.join(HERE, 'checks.json')))
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
m = dict(version=1,
         setup_cmd='/opt/venv/bin/python -B /verif/check.py --selftest',
         checks=[dict(property=c['property'], quick_cmd=PY+c['property'],
                      thorough_cmd=PY+c['property']+' --tier thorough',
                      technique=c['technique'], level=c.get('level', 'model_checking'),
                      level_note=c['note'],
                      evidence_file='evidence/%s.json' % c['property'])
                 for c in CHECKS],
         not_applicable=[dict(property=p, reason='no check is claimed yet')
                         for p in props if p not in {c['property'] for c in CHECKS}],
         notes='Every check explores the real code of /repo (imported from the '
               'working tree, without bytecode caches) exhaustively within the '
               'bounds listed in DESIGN.md; VERIF_TIER selects the bounds. No '
               'hooks are needed in /repo.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
