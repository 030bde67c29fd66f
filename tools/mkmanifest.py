"""Writes MANIFEST.json: a property is claimed when its check exists under checks/."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    f = glob.glob('%s/checks/%s_*.py' % (V, p['id'].lower()))
    if not f:
        na.append({'property': p['id'], 'reason': 'check not built yet'})
        continue
    head = open(f[0]).read()
    g = lambda n, d='': (re.search(r'^%s = [\'"](.*)[\'"]$' % n, head, re.M) or [0, d])[1]
    level = g('LEVEL', 'exploration')
    checks.append({'property': p['id'], 'quick_cmd': './run %s' % p['id'], 'thorough_cmd': './run %s' % p['id'],
                   'technique': g('TECHNIQUE'), 'level': level, 'level_note': g('NOTE')})
    assert g('TECHNIQUE') and g('NOTE'), f
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. Known findings and fixes: KNOWN_FINDINGS.txt.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'claimed', len(na), 'not')
