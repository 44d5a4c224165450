#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CL = ['C%02d' % i for i in range(1, 16)] + ['C%02d' % i for i in range(16, 32)]
T = 'abstract interpretation of LLVM IR (linear relational domain, trace partitioning) + lock/resource/transfer typestate'
NOTE = ('Every control path of the entry points (all helpers inlined) is decided for arbitrary ring content, sizes and caller arguments; '
        'each loop is followed through its first iterations as separate partitions, the exit of later iterations is covered by the thorough fixpoint '
        'as far as its evidence says. Trusts clang IR, the system-call models in engine/, and that peers follow the locking rule.')
EXTRA = {}
NA = {
 'N01': 'Quantifies over whole histories of several processes; only its per-call parts (C03-C07, C12) are in the shape of the code.',
 'N02': 'Depends on storage hardware and file system; the code-shape part (flush before unlock and before success) is C15.',
 'N03': 'A liveness and fairness statement over schedules; the code-shape parts (re-check, wake-up before unlock) are C09 and C10.',
 'N04': 'The design does not promise it: positions are stored one by one without a journal; the structural part (what a reader can see) is C04.',
}
m = {'version': 1, 'setup_cmd': 'python3 engine/build.py',
     'checks': [{'property': c, 'quick_cmd': 'python3 checks/check.py %s' % c, 'thorough_cmd': 'python3 checks/check.py %s --thorough' % c,
                 'evidence_file': 'evidence/%s.json' % c, 'technique': T, 'level': 'other', 'level_note': NOTE + EXTRA.get(c, '')} for c in CL],
     'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())]}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
