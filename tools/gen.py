#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import NA, PROPS

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PROPS + [n['p'] for n in NA]:
        q = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p.get('over', ['inputs']), text=p['all']),
                 why_tests_cant=p['why'],
                 anchors=dict(files=sorted({'qsymm/' + w.split(':')[0] for _, w in p['mech']}),
                              mechanism=[dict(name=n, where='qsymm/' + w) for n, w in p['mech']],
                              state=p.get('state', []), observe_at=p.get('observe', ['return values of the public functions']),
                              hook_needed=None))
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(q) + '\n')
man = dict(version=1, setup_cmd='/opt/venv/bin/python -B run.py --selftest',
           checks=[dict(property=p['id'], quick_cmd=f"./run.py {p['id']}",
                        thorough_cmd=f"./run.py {p['id']} --tier thorough",
                        technique='bounded symbolic execution of the Python source, assertions decided by z3',
                        level='other', level_note=p['note']) for p in PROPS],
           not_applicable=[dict(property=n['p']['id'], reason=n['reason']) for n in NA],
           notes='Every check re-reads /repo/qsymm, executes it on symbolic inputs (se/), lets z3 decide the branches and '
                 'the assertions of the harnesses in checks/<ID>.py, and replays every counterexample on the real package.')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
