"""assembles /verif/DESIGN.md: head.md + per property tables (from checks/ and checks/meta) + tail.md"""
import glob, json, os, re
D = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(D))
out = [open(D + '/head.md').read()]
notes = {}
for blk in re.split(r'^## ', open(D + '/notes.md').read(), flags=re.M)[1:]:
    k, t = blk.split('\n', 1); notes[k.strip()] = t.strip()
out.append('## 2. Per property\n')
na = []
for fn in sorted(glob.glob(V + '/checks/meta/*.json')):
    m = json.load(open(fn))
    src = glob.glob(V + '/checks/%s_*.py' % m['id'].lower())
    if not src:
        na.append(m); continue
    txt = open(src[0]).read()
    out.append('### %s %s\n' % (m['id'], m['title']))
    out.append('Quantified over: %s.  Anchors: %s.' % (m['quantifier']['text'], ', '.join('`%s`' % f for f in m['anchors']['files'])))
    out.append('')
    out.append(notes.get(m['id'], ''))
    out.append('')
    for t, o in re.findall(r"@S\.case\((?:'((?:[^'\\]|\\.)*)'(.*))", txt):
        out.append('* %s%s' % (t, ' **(bounded: sampled/enumerated concrete runs)**' if 'bounded=True' in o else ''))
    ex = re.findall(r"^# DESIGN: (.*)$", txt, flags=re.M)
    out += ['* ' + e for e in ex]
    out.append('')
out.append('## 3. Not claimed\n')
out.append('\n'.join('* %s: %s' % (m['id'], m['check'].get('na', 'check not built yet')) for m in na) or 'Every property in properties.jsonl has a check.')
t = open(D + '/tail.md').read()
kf = json.load(open(V + '/known_findings.json'))
t = t.replace('@FIXED@', '\n'.join('* ' + x for x in kf['fixed'])).replace('@FINDINGS@', '\n'.join('* %s: %s' % (f['property'], f['what']) for f in kf['findings']))
rows = ['| bug | property | needs | caught by |', '|---|---|---|---|']
for fn in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(fn)); i = os.path.basename(os.path.dirname(fn))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'], notes.get('caught ' + i, m['property'] + ' check')))
t = t.replace('@SEEDED@', '\n'.join(rows)).replace('@MISSED@', notes.get('missed', ''))
out.append(t)
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
