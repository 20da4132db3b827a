#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the table of built checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
T = 'TLA+ specification checked with TLC, bound to the code by '
CLAIMS = json.load(open(os.path.join(V, 'tools', 'claims.json')))
REASONS = {
    'C15': 'The method applies (an ISA model executing the emitted assembly against Firm.tla); only its first half is built: the graphs as they enter the RISC-V '
           'back end are checked in C12. An instruction-set specification of the emitted code was not built.',
    'C16': 'Not built: needs a specification of registers over the scheduled back-end graphs; C13 and C14 execute the emitted code of amd64 and ia32 and catch '
           'clobbered values only as far as they change what the program does.',
    'C17': 'Not built as a property of schedules; C13 and C14 see a wrong order of dependent instructions as far as it changes what the emitted program does.',
    'C18': 'Not built as a check of its own; C13 and C14 read the initialised global memory of the emitted programs through loads and compare the final memory.',
    'C31': 'Not built: the counters are written by code that needs the run-time library of the profiler, which is no part of this repository.',
    'C32': 'Not built: the call-graph analyses were left out for want of time; calls through pointers are followed in C11 (inlining, tail calls, cloning).',
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMS:
        c = CLAIMS[i]
        cmd = 'python3 checks/%s.py' % c.get('script', i.lower())
        checks.append({'property': i, 'quick_cmd': cmd, 'thorough_cmd': 'env VERIF_TIER=thorough ' + cmd, 'technique': T + c['binding'],
                       'level': c['level'], 'level_note': c['note']})
    else:
        na.append({'property': i, 'reason': REASONS[i]})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': na}
h = os.path.join(V, 'tools', 'hooks.json')
if os.path.exists(h):
    m['hooks'] = json.load(open(h))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
