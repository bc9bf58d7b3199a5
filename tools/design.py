"""fill the generated parts of DESIGN.md (kept in DESIGN.in.md) from the property data, findings and planted bugs"""
import glob
import json
import os
V = '/verif'
props = [json.loads(x) for x in open(f'{V}/properties.jsonl')]
man = json.load(open(f'{V}/MANIFEST.json'))
ch = {c['property']: c for c in man['checks']} if 'checks' in man else {}
o = ['## Properties and how each is decided', '']
rules = {}
for p in props:
    src = open(f'{V}/checks/{p["id"].lower()}.py').read() if os.path.exists(f'{V}/checks/{p["id"].lower()}.py') else ''
    rule = ''
    if 'Check(' in src:
        import ast
        for n in ast.walk(ast.parse(src)):
            if isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'Check' and len(n.args) > 1:
                rule = ast.literal_eval(n.args[1])
    c = ch.get(p['id'], {})
    o += [f'### {p["id"]} {p["title"]}', '', p['statement'], '',
          f'* Workload and oracle: {rule}.', f'* Deciding technique: {c.get("technique", "")}.',
          f'* Bounds: {p["quantifier"]["text"] + "; " + c.get("level_note", "")}.',
          f'* Beyond the tests: {p["why_tests_cant"]}', '']
f = ['## Defects found', '']
f += ['* ' + l.strip() for l in open(f'{V}/KNOWN_FINDINGS.txt') if l.strip() and not l.startswith('#')]
b = ['## Planted bugs', '', 'Every bug passes the stable tests; "caught by" is the quick check with seed 1.', '', '| bug | property | what it breaks | caught by |', '|---|---|---|---|']
res = json.load(open(f'{V}/tools/bug_results.json')) if os.path.exists(f'{V}/tools/bug_results.json') else {}
for m in sorted(glob.glob(f'{V}/seeded/*/meta.json')):
    d = json.load(open(m))
    k = os.path.basename(os.path.dirname(m))
    b.append(f'| {k} | {d["property"]} | {d["what_it_breaks"]} (needs {d["needs"]}) | {res.get(k, "not run")} |')
t = open(f'{V}/DESIGN.in.md').read()
t = t.replace('@@PROPS@@', '\n'.join(o).rstrip()).replace('@@FIXED@@', '\n'.join(f)).replace('@@BUGS@@', '\n'.join(b))
open(f'{V}/DESIGN.md', 'w').write(t)
