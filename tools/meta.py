#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: writes both."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from props import PROPS, NA

def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
            f.write(json.dumps(d) + '\n')
    checks, na = [], []
    for p in PROPS:
        if 'technique' in p:
            checks.append({'property': p['id'], 'quick_cmd': 'python3 /verif/check.py --tier quick ' + p['id'],
                           'thorough_cmd': 'python3 /verif/check.py --tier thorough ' + p['id'],
                           'technique': p['technique'], 'level': 'other', 'level_note': p['level_note']})
        else:
            na.append({'property': p['id'], 'reason': NA[p['id']]})
    m = {'version': 1, 'setup_cmd': 'python3 /verif/engine/export.py', 'checks': checks, 'not_applicable': na}
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
main()
