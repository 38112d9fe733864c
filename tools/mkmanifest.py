#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl, the units in contracts/ and the notes below."""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..'))
import check
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
NA = {
 'C31': 'Quantifies over interleavings of real POSIX threads inside libpthread. A sequential contract verifier can only show that the wrappers call the pthread primitives with the right objects in the right order (that is C30); exclusion itself is the guarantee of the system library, outside this code.',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
units = check.load_units()
NOTE = {}
np = os.path.join(V, 'tools', 'notes.json')
if os.path.exists(np):
    NOTE = json.load(open(np))
checks, na = [], []
for p in props:
    i = p['id']
    us = [u for u in units if i in u.props]
    if i == 'C32':
        checks.append(dict(property=i, quick_cmd='python3 check.py C32 quick', thorough_cmd='python3 check.py C32 thorough', evidence_file='evidence/C32.json',
            technique='contracts of the assembly routines: symbolic execution of the machine code assembled on each run, every clause discharged by z3', level='proof',
            level_note='Contracts of fiber_switch and fiber_make over all register, memory and control word contents, and the lemma that a suspended fiber is resumed as it was whatever others do meanwhile. Trusts the instruction model in asmcheck.py (checked against the machine by a native driver), GNU as, objdump and z3.'))
        continue
    if i in NA or not us:
        na.append(dict(property=i, reason=NA.get(i, 'Contracts for this part are not written yet.')))
        continue
    pr = [u for u in us if not u.bound]
    bd = [u for u in us if u.bound and not u.companion]
    co = [u for u in us if u.companion]
    n = NOTE.get(i, {})
    level = n.get('level') or ('proof' if pr and not bd else 'other')
    note = n.get('note') or ''
    note = (note + ' ' if note else '') + '%d contract units proved (no bound), %d bounded stand-ins (labelled in the evidence).' % (len(pr), len(bd))
    if co:
        note += ' %d exhaustive bounded searches of the same functions run beside the proofs to find failing inputs.' % len(co)
    note += ' Trusts CBMC 6.11, its libc models, and the stub collaborators listed in the evidence.'
    tech = 'CBMC code contracts (goto-instrument --dfcc) on the real functions'
    if bd:
        tech += ', with bounded CBMC checks of the same harness where no contract closes'
    if not pr:
        tech = 'CBMC bounded checks of contract-style harnesses on the real functions (bounded stand-in)'
    checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
                       evidence_file='evidence/%s.json' % i, technique=n.get('technique', tech), level=level, level_note=note))
m = dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=na,
         notes='No hooks were added to /repo; fix: commits repair defects, listed in known-findings.json.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', [x['property'] for x in na])
