"""addfix.py PROPERTY key text : record a repaired defect (last commit of /repo unless text names one)"""
import json, subprocess, sys
p = '/verif/known_findings.json'
d = json.load(open(p))
h = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%h', '-1'], text=True).strip()
if len(sys.argv) > 4:
    h = sys.argv[4]
d['findings'].append(dict(property=sys.argv[1], status='fixed', key=sys.argv[2], what=f'fixed: property={sys.argv[1]} {h} {sys.argv[3]}'))
json.dump(d, open(p, 'w'), indent=1)
