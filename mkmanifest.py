#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks below."""
import json
M = 'runtime monitoring: reports of the real program on generated configurations judged by an executable reference model'
P = 'runtime monitoring: inner state of the real program, observed on generated inputs through a probe, judged by an executable reference model'
S = 'runtime monitoring: several runs of the real program on related inputs, compared with each other by an oracle'
N_MODEL = 'Held on the executions counted in the evidence; trusts the Python reference model of vf/model.py and that the workload ' \
          'reaches the behaviour. Nothing beyond the executed cases is decided.'
N_PAIR = 'Held on the executions counted in the evidence. Nothing beyond the executed cases is decided.'
E = 'exploration'
ROWS = {c: (M, N_MODEL, E) for c in 'C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C27'.split()}
ROWS.update({c: (P, N_MODEL, E) for c in 'C01 C02 C03 C04 C05 C07 C26'.split()})
ROWS.update({c: (S, N_PAIR, E) for c in 'C06 C19 C24 C25'.split()})
ROWS['C23'] = ('runtime monitoring under injected input, argument and output faults', N_MODEL, 'fault_enumeration')
ROWS['C20'] = ('runtime monitoring: event log of the real queues under seeded delays, checked for conservation and against the reference model', N_MODEL, E)
ROWS['C21'] = ('ThreadSanitizer on the real program under seeded delays',
               'No race among the executions counted in the evidence; other schedules and inputs are not decided.', E)
ROWS['C22'] = ('AddressSanitizer and UndefinedBehaviorSanitizer (and valgrind memcheck on a sample) on mutated input files', 
               'No report among the executions counted in the evidence; other inputs are not decided.', E)
BUILT = 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24 C25 C26 C27'.split()
if __name__ == '__main__':
    props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
    m = {'version': 1, 'setup_cmd': 'python3 -m vf.build plain',
         'checks': [{'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'python3 check.py %s --thorough' % p,
                     'evidence_file': 'evidence/%s.json' % p, 'technique': ROWS[p][0], 'level': ROWS[p][2], 'level_note': ROWS[p][1]}
                    for p in props if p in BUILT],
         'not_applicable': [{'property': p, 'reason': 'check not built yet'} for p in props if p not in BUILT]}
    json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
