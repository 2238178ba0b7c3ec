"""writes MANIFEST.json from properties.jsonl and levels.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
lv = json.load(open(os.path.join(V, 'harness', 'levels.json')))
import sys
sys.path.insert(0, os.path.join(V, 'harness'))
from check import theorems
notes = json.load(open(os.path.join(V, 'harness', 'notes.json')))
cs = []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    c = dict(property=p, quick_cmd='./check ' + p, thorough_cmd='VERIF_TIER=thorough ./check ' + p, evidence_file='evidence/%s.json' % p,
             technique='contract-based deductive verification of the Go source (govc: SSA to verification conditions, Verus/Z3), witnesses replayed on the real code',
             level=lv[p], level_note=notes.get(p, notes['']))
    th = [t[0] for t in theorems(p)]
    if th and lv[p] == 'proof':
        c['theorems'] = th
    cs.append(c)
json.dump(dict(version=1, setup_cmd='./setup', checks=cs, not_applicable=[], notes='Contracts in contracts/, the theorem library in spec/, the verifier front end in govc/, the replay in harness/. See DESIGN.md.'), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
