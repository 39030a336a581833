#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and bin/checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'bin'))
from checks import CHECKS
T = {
 'C12': 'fault injection with runtime monitors on the outcome', 'C19': 'ThreadSanitizer plus differential runtime monitor over threads, interleavings and nesting',
 'C20': 'AddressSanitizer, UndefinedBehaviorSanitizer, valgrind and poisoned-memory differential monitoring', 'C05': 'online monitor of the callback trace plus differential monitor',
 'C25': 'online monitor of the callback trace plus differential monitor', 'C14': 'online monitor of the callback trace plus reference monitor', 'C18': 'differential runtime monitor over call histories',
 'C23': 'output capture and differential runtime monitor', 'C22': 'offline checker of recorded traces and files', 'C16': 'online monitor of the simulation plus offline checker of the data files',
 'C24': 'online monitor of closed-loop runs', 'C21': 'runtime monitor with hostile arguments and recorded callbacks', 'C27': 'runtime monitor of durations with instrumented callbacks', 'C30': 'online monitor counting callbacks', 'C02': 'online checker of the iteration trace', 'C26': 'online checker of the iteration trace', 'C31': 'online monitor against an independent reference recursion', 'C33': 'online checker of the iteration trace', 'C34': 'differential runtime monitor of solver starts', 'C35': 'online checker of the iteration trace', 'C36': 'differential runtime monitor over call histories', 'C37': 'differential (metamorphic) runtime monitor', 'C32': 'differential runtime monitor over call histories with poisoned freed memory'}
A = {'C27': 'One-sided bounds by measured times, so load on the machine cannot cause an alarm.',
     'C20': 'Memory errors are seen where the workload drives the code; uninitialised reads only if they reach a result or a branch (valgrind, digests).',
     'C19': 'Races are seen by ThreadSanitizer on the schedules that occurred.', 'C12': 'Fault positions are enumerated completely for short solves and sampled for long ones.'}
out = dict(version=1, setup_cmd='python3 bin/check.py --self-test', checks=[], not_applicable=[],
           notes='No hooks in /repo: everything is observed through the public API. build/ is rebuilt from /repo for each tree.')
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l); i = p['id']
    if i not in CHECKS:
        out['not_applicable'].append(dict(property=i, reason='no check')); continue
    out['checks'].append(dict(property=i, quick_cmd='python3 bin/check.py %s' % i, thorough_cmd='python3 bin/check.py %s --tier thorough' % i,
        technique=T.get(i, 'runtime monitor with independent reference oracle over random and hostile workloads'), level=CHECKS[i]['level'],
        level_note='Oracle over executions of the real code, no proof: holds on the seeded workload described in the evidence (executions, distinct results, events observed). ' + A.get(i, 'Trusts Eigen, the compiler and the reference computation in harness/; rounding tolerances are stated there.')))
json.dump(out, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
