#!/opt/venv/bin/python
"""Writes /verif/MANIFEST.json from properties.jsonl and the check modules present."""
import ast, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'model_checking': 'explicit-state model checking: exhaustive bounded enumeration of inputs/operation sequences on the real code against a reference model',
    'fault_enumeration': 'exhaustive crash-point / I/O-fault / schedule enumeration on the real code',
}
checks, na = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)
    fn = os.path.join(ROOT, 'mc', 'checks', p['id'].lower() + '.py')
    if not os.path.exists(fn):
        na.append(dict(property=p['id'], reason='check not built yet'))
        continue
    ns = {}
    for node in ast.parse(open(fn).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) \
                and node.targets[0].id in ('LEVEL', 'RULE', 'ASSUMPTIONS', 'TECHNIQUE', 'NOTE'):
            ns[node.targets[0].id] = ast.literal_eval(node.value)
    checks.append(dict(property=p['id'], quick_cmd='./check %s quick' % p['id'],
                       thorough_cmd='./check %s thorough' % p['id'],
                       evidence_file='evidence/%s.json' % p['id'],
                       technique=ns.get('TECHNIQUE', TECH[ns['LEVEL']]), level=ns['LEVEL'],
                       level_note=(ns.get('NOTE') or 'Every case of the stated bounded space is executed on the real code and '
                                   'compared with a reference model; nothing beyond the bounds is claimed.')
                       + (' Assumes: ' + '; '.join(ns['ASSUMPTIONS']) + '.' if ns['ASSUMPTIONS'] else '')))
m = dict(version=1, setup_cmd='./setup.sh',
         hooks=dict(guard='none', enable='no hooks: /repo is imported unmodified from its working tree', source_commits=[]),
         checks=checks, not_applicable=na,
         notes='See DESIGN.md. Known and repaired defects: known-findings.txt.')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'claimed;', [x['property'] for x in na], 'not claimed')
