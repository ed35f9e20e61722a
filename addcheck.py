"""addcheck.py ID TECHNIQUE NOTE: add or replace a line of checks.json."""
import json, os, sys, subprocess
H = os.path.dirname(os.path.abspath(__file__))
p = os.path.join(H, 'checks.json')
c = {e['property']: e for e in json.load(open(p))}
c[sys.argv[1]] = dict(property=sys.argv[1], technique=sys.argv[2], note=sys.argv[3])
with open(p, 'w') as f:
    f.write('[\n' + ',\n'.join(json.dumps(c[k]) for k in sorted(c)) + '\n]\n')
subprocess.check_call([sys.executable, os.path.join(H, 'mkmanifest.py')])
