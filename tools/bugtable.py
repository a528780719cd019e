"""Write the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/results.json"""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | property | needs | caught by |', '|---|---|---|---|']
with open(os.path.join(ROOT, 'tools', 'results.json')) as f:
    results = json.load(f)
for path in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    with open(path) as f:
        m = json.load(f)
    name = os.path.basename(os.path.dirname(path))
    rows.append('| %s | %s | %s | %s |' % (name, m['property'], m['needs'].replace('|', '/'), results.get(name, 'not run')))
path = os.path.join(ROOT, 'DESIGN.md')
with open(path) as f:
    text = f.read()
a = text.index('<!-- bugs -->') + len('<!-- bugs -->\n')
b = text.index('\n\nWhat the misses taught')
with open(path, 'w') as f:
    f.write(text[:a] + '\n'.join(rows) + text[b:])
