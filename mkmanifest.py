"""Writes MANIFEST.json from the checks that exist (vm/checks/cNN.py with META) and properties.jsonl."""
import importlib
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(line) for line in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if not os.path.exists(os.path.join(HERE, 'vm', 'checks', i.lower() + '.py')):
        na.append(dict(property=i, reason='No monitor has been built for it yet; runtime monitoring would apply.'))
        continue
    m = importlib.import_module('vm.checks.' + i.lower()).META
    checks.append(dict(property=i, quick_cmd=f'./run.sh {i} --tier quick', thorough_cmd=f'./run.sh {i} --tier thorough',
                       technique=m.get('technique', 'runtime monitoring: the real code runs under generated workloads, '
                                       'independent oracles judge the observed arrays and events'),
                       level='exploration', level_note=m['note']))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
