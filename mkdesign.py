"""Fills the tables of DESIGN.md from design_src.md, the checks' META, known_findings.json and seeded/."""
import importlib, json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
src = open(os.path.join(H, 'design_src.md')).read()
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
T, NA = [], []
for p in props:
    f = os.path.join(H, 'vm', 'checks', p['id'].lower() + '.py')
    if not os.path.exists(f):
        NA.append(f"* {p['id']} ({p['title']}): runtime monitoring would apply, no monitor built yet.")
        continue
    m = importlib.import_module('vm.checks.' + p['id'].lower())
    ev = os.path.join(H, 'evidence', p['id'] + '.json')
    T.append(f"| {p['id']} {p['title']} | {m.META.get('note', '')} | {(m.__doc__ or '').strip().splitlines()[0].split(': ', 1)[-1]} "
             f"*Cases:* {m.META['rule']}. *Assumes:* {'; '.join(m.META['assumptions'])}. *Must observe:* {', '.join(m.META['must_observe'])}. "
             f"{m.META.get('why', '')} | {m.META.get('cost', 'seconds')} |")
F = [f"* {f['property']} ({f['status']}) {f['what'].split(' ', 2)[-1] if f['status'] == 'fixed' else f['what']}"
     for f in json.load(open(os.path.join(H, 'known_findings.json')))['findings']]
caught = json.load(open(os.path.join(H, 'caught.json'))) if os.path.exists(os.path.join(H, 'caught.json')) else {}
S = []
for d in sorted(os.listdir(os.path.join(H, 'seeded'))):
    m = json.load(open(os.path.join(H, 'seeded', d, 'meta.json')))
    S.append(f"* `{d}` ({m['property']}): {m['what_it_breaks']}. Needs: {m['needs']}. Caught by: {caught.get(d, m['property'])}.")
for k, v in (('TABLE', T), ('NA', NA or ['None: every property is decided by runtime monitoring.']), ('FIXES', F), ('SEEDS', S)):
    src = src.replace(f'@@{k}@@', '\n'.join(v))
open(os.path.join(H, 'DESIGN.md'), 'w').write(src)
