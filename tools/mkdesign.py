"""Writes the generated tables of DESIGN.md (between the markers) from the contracts, the properties and seeded/."""
import importlib, json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
props = sorted((json.loads(l) for l in open(H + '/properties.jsonl')), key=lambda d: d['id'])
out = ['### Functions under contract', '']
for p in props:
    m = importlib.import_module('contracts.' + p['id'].lower())
    t = {}
    for c in m.CONTRACTS:
        t.setdefault(c.target, []).append(c)
    ev = os.path.join(H, 'evidence', p['id'] + '.json')
    out.append(f"**{p['id']} {p['title']}**  ({len(m.CONTRACTS)} contracts on {len(t)} functions)")
    out.append('')
    proved = [k.replace(':', '.') for k, cs in t.items() if not all(c.bounded for c in cs)]
    out.append('- deductive: ' + ', '.join(f"`{k}`" for k in proved))
    bd = [f"`{k.replace(':', '.')}` ({c.__class__.__name__}): symbolic execution bounded to populations of {c.bmc_N}" for k, cs in t.items() for c in cs if c.bounded] + list(getattr(m, 'BOUNDED', None) or [])
    if bd:
        out.append('- bounded stand-in (never counted as proved): ' + '; '.join(bd))
    for nm in ('TRUSTED', 'ASSUMPTIONS'):
        v = getattr(m, nm, None)
        if v:
            out.append(f"- {'trusted' if nm == 'TRUSTED' else 'assumed'}: " + '; '.join(v))
    out.append('')
out += ['### Planted bugs', '', '| planted change | property | needs | caught by |', '|---|---|---|---|']
caught = json.load(open(H + '/tools/caught.json')) if os.path.exists(H + '/tools/caught.json') else {}
for s in sorted(os.listdir(H + '/seeded')):
    d = json.load(open(f"{H}/seeded/{s}/meta.json"))
    out.append(f"| {s} | {d['property']} | {d['needs']} | {caught.get(s, '')} |")
f = H + '/DESIGN.md'
s = open(f).read()
a, b = '<!-- generated -->', '<!-- end generated -->'
s = s[:s.index(a) + len(a)] + '\n' + '\n'.join(out) + '\n' + s[s.index(b):]
open(f, 'w').write(s)
