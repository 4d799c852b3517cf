#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the scenarios present"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 'N01': 'a pure function of one input: no schedule, clock, I/O or fault takes part, so simulation adds nothing to plain input generation (the failure side of the parsers is C28/C29)',
 'N02': 'a pure function of one input; nothing for a scheduler or a fault injector to decide',
 'N03': 'a pure function of pattern and subject; nothing for a scheduler or a fault injector to decide',
 'N05': 'pure arithmetic; nothing for a scheduler or a fault injector to decide',
 'N06': 'a pure function of one input; nothing for a scheduler or a fault injector to decide',
 'N08': 'zpl_pr_* is not implemented on POSIX at this commit (every function body is ZPL_NOT_IMPLEMENTED), so there is no behaviour to simulate here',
}
NOTES = {  # level notes: what the exploration does and does not cover
}
DEF = 'seeded search over generated programs, schedules and fault sequences; sampled, not exhaustive; every verdict is replayable from its file'
P = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl')) if l.strip()]
checks, na = [], []
for p in P:
    i = p['id']
    if i in NA: na.append({'property': i, 'reason': NA[i]}); continue
    if not os.path.exists(os.path.join(V, 'scn', i + '.c')): na.append({'property': i, 'reason': 'applicable; the scenario for it is not built yet'}); continue
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
      'technique': 'deterministic simulation with fault injection', 'level': 'exploration', 'level_note': NOTES.get(i, DEF)})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup',
 'hooks': {'guard': 'none', 'enable': 'no hooks in /repo: the checks compile /repo/code unchanged and put the simulator behind its undefined symbols (objcopy --redefine-syms) and, for thread schedules, behind the compiler-inserted calls of -fsanitize=thread and -finstrument-functions', 'source_commits': []},
 'checks': checks, 'not_applicable': na,
 'notes': 'Replay a violation with: python3 check.py --replay FILE. All checks use one simulator (sim/), one scenario per property (scn/) and one driver (check.py).'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); print(len(checks), 'checks', len(na), 'n/a')
