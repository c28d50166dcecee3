"""Writes MANIFEST.json from the rules present in sa/rules (run: python3 tools/manifest.py)."""
import json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import props
props.write()
TECH = json.load(open(os.path.join(HERE, 'tools', 'technique.json')))
NA = json.load(open(os.path.join(HERE, 'tools', 'not_applicable.json')))
checks, na = [], []
for p in props.P:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'sa', 'rules', i.lower() + '.py')) and i in TECH:
        checks.append(dict(property=i, quick_cmd=f'./check {i}', thorough_cmd=f'./check {i} --tier thorough', evidence_file=f'evidence/{i}.json',
                           technique=TECH[i][0], level='other', level_note=TECH[i][1]))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no sound static check built for it yet')))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
         notes='Static analysis only: every check parses the current /repo sources with clang, lowers them to a typed CFG and decides its rules there. Known findings: known_findings.txt.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
