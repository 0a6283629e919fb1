# Writes properties.jsonl and MANIFEST.json from props.py and notes.py.
import json, os, sys, re, glob
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, '..')
sys.path.insert(0, here)
from props import P
from notes import NOTES, TECH, NA
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
have = set()
for g in glob.glob(os.path.join(root, 'mc', '*.go')):
    have |= set(re.findall(r'register\("(C\d\d)"', open(g).read()))
for g in glob.glob(os.path.join(root, 'sched', '*.scenarios')):
    have.add(os.path.basename(g)[:3])
checks = []
na = []
for p in P:
    i = p['id']
    if i in have and i not in NA:
        checks.append(dict(property=i, quick_cmd='./check %s quick' % i, thorough_cmd='./check %s thorough' % i,
            evidence_file='evidence/%s.json' % i, technique=TECH.get(i, TECH['default']), level='model_checking',
            level_note=NOTES.get(i, NOTES['default'])))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='bash ./setup.sh', checks=checks, not_applicable=na,
    hooks=dict(guard='none: no hook was added to /repo', enable='the checks instrument a scratch copy of /repo at check time; /repo itself has no hooks', source_commits=[]),
    notes='Every check builds its explorer from /repo\'s working tree in a scratch directory that it removes. See DESIGN.md.')
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
print(len(checks), 'claimed;', len(na), 'not claimed')
