#!/usr/bin/env python3
"""Writes MANIFEST.json from properties_table.py and properties.jsonl."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from properties_table import PROPS
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    P = PROPS[i]
    checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                       evidence_file='evidence/%s.json' % i, technique=P.get('technique') or 'runtime monitoring', level=P['level'],
                       level_note=P.get('note') or ('Held on the executions counted in the evidence file, judged by the oracle named in DESIGN.md; nothing is claimed about inputs or schedules not driven.')))
m = dict(version=1, setup_cmd='python3 check.py --setup',
         hooks=dict(guard='DICE_VERIF_UNUSED', enable='no hooks are needed: the library is header-only and the harnesses instrument it from outside (interposed pthread/futex calls, '
                    'compiler sanitizer callbacks, instrumented element types and allocators)', source_commits=[]),
         checks=checks,
         not_applicable=[dict(property=i, reason='not built yet') for i in ids if i not in PROPS],
         notes='See DESIGN.md. All checks build from /repo/include at run time; compiled harnesses are cached by content in .build (ignored by git).')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
