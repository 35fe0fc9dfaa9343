"""Writes /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/veriftools/pyvenv/bin/python -W ignore check.py'
CLAIMED = {}
exec(open(os.path.join(HERE, 'tools', 'claims.py')).read())
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks = []; na = []
for i in ids:
    if i in CLAIMED:
        technique, level, note = CLAIMED[i]
        checks.append(dict(property=i, quick_cmd='%s %s --tier quick' % (PY, i), thorough_cmd='%s %s --tier thorough' % (PY, i), technique=technique, level=level, level_note=note))
    else: na.append(dict(property=i, reason=NOT_APPLICABLE[i]))
json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python -c "import parsimonious" && /opt/veriftools/pyvenv/bin/python -c "import z3"', checks=checks, not_applicable=na),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
