"""writes properties.jsonl and MANIFEST.json from checks/meta/*.json (one per property)"""
import glob, json, os
V = os.path.dirname(os.path.abspath(__file__))
os.chdir(V)
props, checks, na = [], [], []
for fn in sorted(glob.glob('checks/meta/*.json')):
    m = json.load(open(fn))
    c = m.pop('check')
    props.append(m)
    has = bool(glob.glob('checks/%s_*.py' % m['id'].lower()))
    if has:
        checks.append(dict(property=m['id'], quick_cmd='./run.sh %s quick' % m['id'], thorough_cmd='./run.sh %s thorough' % m['id'],
                           technique=c['technique'], level=c.get('level', 'proof'), level_note=c['level_note']))
    else:
        na.append(dict(property=m['id'], reason=c.get('na', 'check not built yet')))
with open('properties.jsonl', 'w') as f:
    for p in props:
        f.write(json.dumps(p) + '\n')
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='No hooks: the contracts live in /verif/checks and run against the unmodified modules of /repo.'),
          open('MANIFEST.json', 'w'), indent=1)
