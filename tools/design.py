"""Fill the tables of DESIGN.md (fixed defects, planted bugs) from known_findings.json and seeded/."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(root, 'DESIGN.md')
t = open(p).read()
k = json.load(open(os.path.join(root, 'known_findings.json')))
fixed = '\n'.join('* ' + re.sub(r'^fixed: property=(\S+) (\S+) ', r'\1 `\2` ', e) for e in k['fixed'])
rows = []
for f in sorted(glob.glob(os.path.join(root, 'seeded/*/meta.json'))):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {m.get('caught', 'yes')} |".replace('\n', ' '))
def fill(t, start, end, body):
    a, b = t.index(start) + len(start), t.index(end)
    return t[:a] + '\n\n' + body + '\n\n' + t[b:]
t = fill(t, 'Fixed (one commit each):', '## 5.', fixed)
t = fill(t, '|---|---|---|---|---|', 'Misses that led', '').replace('|---|---|---|---|---|\n\n\n\n', '|---|---|---|---|---|\n' + '\n'.join(rows) + '\n\n')
open(p, 'w').write(t)
