#!/opt/venv/bin/python
"""Rewrite the generated part of DESIGN.md (one section per property) from the checks, properties.jsonl and seeded/."""
import ast
import importlib
import sys
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
ORACLE = json.load(open(f'{ROOT}/tools/oracles.json'))
seeds = {}
for f in sorted(glob.glob(f'{ROOT}/seeded/*/meta.json')):
    m = json.load(open(f))
    seeds.setdefault(m['property'], []).append((f.split('/')[-2], m))
out = []
for line in open(f'{ROOT}/properties.jsonl'):
    d = json.loads(line)
    i = d['id']
    m = importlib.import_module('checks.' + i.lower())
    t = ast.parse(open(f'{ROOT}/checks/{i.lower()}.py').read())
    c = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('FUNCTIONS', 'BOUNDS', 'OUTSIDE'):
            c[n.targets[0].id] = getattr(m, n.targets[0].id)
    hs = [(n.name, ast.get_docstring(n)) for n in t.body if isinstance(n, ast.FunctionDef) and any('harness' in ast.dump(x) for x in n.decorator_list)]
    out.append(f"### {i}. {d['title']}\n")
    out.append(f"*Encoded:* {', '.join('`%s`' % f for f in c['FUNCTIONS'])}.\n")
    out.append(f"*Oracle:* {ORACLE.get(i, 'see the harnesses')}\n")
    out.append('*Harnesses:*\n' + '\n'.join(f'- `{n}`: {s}' for n, s in hs) + '\n')
    out.append(f"*Bounds:* {c['BOUNDS']}.  \n*Outside:* {c['OUTSIDE']}.\n")
    if i in seeds:
        out.append('*Planted bugs (all caught by this check):* ' + '; '.join(f"`{n}` ({m['what_it_breaks']}; needs {m['needs']})" for n, m in seeds[i]) + '.\n')
p = f'{ROOT}/DESIGN.md'
s = open(p).read()
a, b = '<!-- generated: tools/design.py -->\n', '<!-- end of generated part -->'
s = s[:s.index(a) + len(a)] + '\n' + '\n'.join(out) + '\n' + s[s.index(b):]
open(p, 'w').write(s)
