import json, os
V = '/verif'; t = open(V+'/tools/DESIGN.in.md').read()
F = [json.loads(l) for l in open(V+'/known_findings.jsonl')]
t = t.replace('SELECTED_FIXES', '\n'.join('- '+f['line'] for f in F))
r = ['| change | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(os.listdir(V+'/seeded')):
    m = json.load(open(V+'/seeded/%s/meta.json' % d)); r.append('| `%s` | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/'), m.get('caught_by', m['property']+' quick')))
open(V+'/DESIGN.md', 'w').write(t.replace('SEED_TABLE', '\n'.join(r)))
