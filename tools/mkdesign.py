"""Authoring aid: rewrites the tables of DESIGN.md from known_findings.json and seeded/."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
k = json.load(open(os.path.join(V, 'known_findings.json')))
t = ['', 'Repaired ("fix:" commits):', '', '| property | commit | what failed |', '|---|---|---|']
for e in k:
    if e['status'] == 'fixed':
        t.append('| %s | %s | %s |' % (e['property'], e['commit'], e['text'].split(e['commit'], 1)[1].strip().replace('|', '/')))
t += ['', 'Recorded, not repaired:', '']
for e in k:
    if e['status'] == 'known':
        t.append('* **%s** %s' % (e['property'], e['text']))
s = re.sub(r'(<!-- findings -->\n).*?(?=## 5)', lambda m: m.group(1) + '\n'.join(t) + '\n\n', s, flags=re.S)
t = ['', '| bug | property | breaks | needs |', '|---|---|---|---|']
d = os.path.join(V, 'seeded')
for b in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, b, 'meta.json')))
    t.append('| %s | %s | %s | %s |' % (b, m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/')))
s = re.sub(r'(<!-- seeds -->\n).*?(?=Apart from those)', lambda m: m.group(1) + '\n'.join(t) + '\n\n', s, flags=re.S)
open(p, 'w').write(s)
