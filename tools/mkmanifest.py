#!/usr/bin/env python3
"""Writes MANIFEST.json (the claimed checks and the properties not claimed)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
    'C01': 'Differential: every state of a batch against an analysis of that state alone in a fresh simulated process. Trusts the comparison tolerances (1e-9 relative) and LAPACK.',
    'C02': 'Differential: an analysis after a seeded history (analyses, failures, cancellations, loads, saves, clean) in one process against a fresh process.',
    'C03': 'Seeded interleavings of processes and threads at every file operation and kernel call (threads also at source lines); each analysis is compared with the same one run alone.',
    'C04': 'Write monitor at every simulated file operation, audit hook for anything outside the sandbox, full content comparison afterwards.',
    'C05': 'Faults placed on operations of the recorded undisturbed run; success must mean the complete undisturbed output, failure must be reported, every run must end.',
    'C06': 'Crash, error, cancellation or full disk at a seeded point, then a re-run without faults compared with an undisturbed run.',
    'C07': 'Content of the saved file observed at every file operation; must be the complete old or new content; round trips, concurrent loaders and savers.',
    'C08': 'Existing paths of all kinds, faults, crashes and simultaneous creations; tree comparison before and after and with an undisturbed template.',
    'C09': 'Generated trees with links, odd entries and foreign files; faults on deletion; what may be removed is monitored at every operation.',
    'C10': 'Open files, figures, live objects, interpreter blocks and malloc bytes after each round of repeated (failing) operations.',
    'C11': 'Singular or rejected systems and failing kernel or memory in a chosen state of a batch; nothing of that state may be presented.',
    'C12': 'Readers and a monitor look at every result file at every file operation; contents must be complete and mutually consistent (independent recomputation).',
    'C13': 'The CPACS libraries are stand-ins (not part of the repository); file content is observed at every operation, handles are counted.',
    'C19': 'The CPACS libraries are stand-ins; model and airfoil files are observed at every operation, the converted model is loaded, analysed and compared with the CPACS aircraft.',
    'C20': 'Ctrl-C is raised in the simulated process at file operations, kernel, library, plot calls, allocations and source lines; what happens after it is counted and the files are compared with those at that moment.',
    'C21': 'The state of the simulated process before a call (also one set by the caller) is compared with that after it ended in success, bad input, an injected failure or a cancellation.',
    'C22': 'Input files are replaced or removed by somebody else at a seeded operation, source line or kernel call of the running analysis; the outcome must be that of one version of each file.',
    'C14': 'Differential: the same project under a different clock, hash seed, process id, directory, spelling, directory order, buffer size, short I/O and memory poison.',
}
TECH = {
    'C01': 'deterministic simulation, seeded differential against one-state runs, faults and stale memory',
    'C02': 'deterministic simulation of seeded process histories with injected failures and cancellations, differential oracle',
    'C03': 'deterministic simulation of concurrent analyses under seeded schedules, differential oracle',
    'C04': 'deterministic simulation with fault injection, invariant monitored at every file operation',
    'C05': 'deterministic simulation with fault injection at every seam, differential oracle',
    'C06': 'deterministic simulation with crash/fault injection and recovery, differential oracle',
    'C07': 'deterministic simulation with fault injection and seeded schedules, atomicity invariant and round-trip model',
    'C08': 'deterministic simulation with fault injection and seeded schedules, tree invariants',
    'C09': 'deterministic simulation with fault injection, deletion monitor and reference model of the tree',
    'C10': 'deterministic simulation of long failing histories, resource accounting',
    'C11': 'deterministic simulation with solver/kernel/memory fault injection',
    'C12': 'deterministic simulation with seeded readers, crashes and faults, consistency oracle',
    'C13': 'deterministic simulation with fault injection at library and file seams, atomicity invariant, handle accounting',
    'C19': 'deterministic simulation with fault injection at library and file seams and seeded schedules, atomicity invariant, differential oracle',
    'C20': 'deterministic simulation with cancellation injection at every seam and source line, bounded-progress and no-effect oracle',
    'C21': 'deterministic simulation with fault and cancellation injection at every seam and source line, process-state invariant',
    'C22': 'deterministic simulation of seeded concurrent edits of the inputs, differential oracle over the versions',
    'C14': 'deterministic simulation under perturbed environments, differential oracle',
}
NA = {
    'C15': 'Numerical correctness against theory is a pure function of one geometry and one flight state: no scheduling, time, I/O, fault or history is involved, so a simulator has nothing to decide.',
    'C16': 'Symmetry of the loads is a pure function of the inputs, without concurrency, time, I/O or history.',
    'C17': 'Validation and completion of input values is a pure function of the input dictionaries; only value enumeration, not scheduling or faults, could decide it.',
    'C18': 'Geometric conventions are a pure function of the model file; no schedule, fault or history takes part.',
}
props = [json.loads(x)['id'] for x in open(os.path.join(V, 'properties.jsonl'))]
have = [p for p in props if os.path.exists(os.path.join(V, 'sim', 'props', p.lower() + '.py'))]
m = {
    'version': 1,
    'setup_cmd': '/opt/venv/bin/python -B check.py build',
    'hooks': {'guard': 'none', 'enable': 'No hooks were needed: the simulator replaces open/os/time/threading/LAPACK/kernel entry points from outside.', 'source_commits': []},
    'checks': [{'property': p, 'quick_cmd': f'/opt/venv/bin/python -B check.py run {p}',
                'thorough_cmd': f'/opt/venv/bin/python -B check.py run {p} --tier thorough',
                'evidence_file': f'evidence/{p}.json', 'technique': TECH[p], 'level': 'exploration', 'level_note': NOTE[p]} for p in have],
    'not_applicable': [{'property': p, 'reason': NA.get(p, 'check not built yet')} for p in props if p not in have],
    'notes': 'See DESIGN.md. Known and repaired defects: known_findings.txt. `check.py replay <file>` re-executes a violation, `check.py selftest` checks determinism.',
}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as fp:
    json.dump(m, fp, indent=1)
    fp.write('\n')
