"""Writes properties.jsonl and MANIFEST.json from tools/props.py; run after editing it."""
import glob, json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPERTIES, NOT_APPLICABLE

built = {os.path.basename(path)[:3].upper() for path in glob.glob(os.path.join(VERIF, 'checks', 'c[0-9]*_*.py'))}
checks = []
not_applicable = []
with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as file:
    for prop in PROPERTIES:
        assert len(prop['title']) <= 80, prop['title']
        entry = {key: prop[key] for key in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        file.write(json.dumps(entry) + '\n')
        if prop['id'] in NOT_APPLICABLE:
            not_applicable.append({'property': prop['id'], 'reason': NOT_APPLICABLE[prop['id']]})
            continue
        if prop['id'] not in built:
            not_applicable.append({'property': prop['id'], 'reason': 'Its check is not built yet.'})
            continue
        checks.append({
            'property': prop['id'],
            'quick_cmd': f'python3 run.py {prop["id"]} --tier quick',
            'thorough_cmd': f'python3 run.py {prop["id"]} --tier thorough',
            'technique': prop['technique'],
            'level': prop.get('level', 'model_checking'),
            'level_note': prop['level_note'],
        })
manifest = {
    'version': 1,
    'setup_cmd': 'python3 tools/setup.py',
    'checks': checks,
    'not_applicable': not_applicable,
    'notes': 'No hooks in /repo: the checks drive the unmodified code through its own seams (see DESIGN.md).',
}
with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as file:
    json.dump(manifest, file, indent = 1)
    file.write('\n')
print(len(checks), 'claimed;', [item['property'] for item in not_applicable], 'not')
