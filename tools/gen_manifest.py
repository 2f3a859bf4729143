"""writes MANIFEST.json from contracts/props.py"""
import json
import sys
sys.path.insert(0, '/verif')
sys.dont_write_bytecode = True
from contracts.props import PROOFS, NOTES, NOT_APPLICABLE
ids = ['C%02d' % i for i in range(1, 27)]
checks, na = [], []
for i in ids:
    if PROOFS.get(i):
        checks.append({
            'property': i, 'quick_cmd': 'python3-vt checks/run.py %s' % i, 'thorough_cmd': 'python3-vt checks/run.py %s --thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'contract-based deductive verification of the real functions (pv/: VC generation from the '
                         'Python source, z3), with a bounded public-interface search for the failing input',
            'level': 'proof',
            'level_note': NOTES[i]})
    else:
        na.append({'property': i, 'reason': NOT_APPLICABLE.get(i, 'its functions are not under contract yet')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
