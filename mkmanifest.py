#!/opt/veriftools/pyvenv/bin/python3
"""Write MANIFEST.json from the registered properties."""
import sys, json
sys.path.insert(0, '/verif')
from spec import props
from spec.notes import NOTES, NOT_APPLICABLE
props.load()
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks = []
for i in ids:
    if i in props.PROPS and i not in NOT_APPLICABLE:
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s --tier quick' % i, thorough_cmd='python3-vt check.py %s --tier thorough' % i,
                           technique='contract-based deductive verification of the compiled code (own VC generator over LLVM IR, z3/cvc5)', level='proof',
                           level_note=NOTES.get(i, '') or NOTES['*']))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, 'not claimed yet: contracts under construction')) for i in ids if i not in props.PROPS or i in NOT_APPLICABLE]
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3, cvc5; print(z3.get_version_string())"', checks=checks, not_applicable=na), open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
