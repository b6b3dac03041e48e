#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.conf (what is claimed) and properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {}
exec(open(H + '/checks.conf').read())
TECH = {
 'h_swar': 'property-based testing: structured generators of texts, bytes and numbers placed at every alignment, against a reference model and round-trips',
 'h_str': 'property-based testing against a reference implementation and an independent Base64, with a checking allocator',
 'h_scope': 'stateful model-based testing: generated histories of scope operations against a list model, with a checking allocator',
 'h_prog': 'property-based testing: generated programs run with the real macros in a process of their own against an executable model of the control flow',
 'h_arena': 'stateful model-based testing: generated histories over several arenas against an interval model, with a checking allocator',
 'h_args': 'property-based testing: generated formats and values, round-trip, with a checking allocator',
 'h_thread': 'property-based testing with generated tasks and schedules: generated delays and orders around thread programs, against a model and a race detector',
 'h_iso': 'property-based testing: several generated programs run concurrently, each against its own sequential model, under generated schedules',
 'h_atomic': 'property-based testing: sequential differential against reference definitions; concurrent generated operation mixes against conservation laws, and hand-over of plain data under a race detector',
 'h_tls': 'stateful model-based testing: generated histories over threads and thread-local variables against a map model',
}
NOTE = {
 'h_swar': 'Exploration of the stated input domains; millions of cases per run, sizes and alignments enumerated by the generators, not exhausted. Trusts the reference definitions in the harness and gcc.',
 'h_str': 'Exploration. Trusts the reference implementations in the harness and the checking allocator (redzones, double frees, leaks).',
 'h_scope': 'Exploration of histories up to some hundred operations over several scopes. Trusts the list model and the checking allocator.',
 'h_prog': 'Exploration of generated programs, up to about 60 statements, in three builds (-O3 as the tests, -O2 without debugging, -O0). Trusts the model in harness/prog.c, gcc and glibc; x86-64 Linux only.',
 'h_arena': 'Exploration of histories over several arenas. Trusts the interval model and the checking allocator.',
 'h_args': 'Exploration of formats and values. Trusts the checking allocator.',
 'h_thread': 'Exploration; schedules are sampled (generated delays, yields and orders), not enumerated: a misbehaviour that needs a window no delay opens can be missed, unless it is a data race, which the race detector judges by what orders the accesses.',
 'h_iso': 'Exploration; schedules are sampled, not enumerated.',
 'h_atomic': 'Exploration; operands are generated, interleavings are those of 8 cores under load.',
 'h_tls': 'Exploration of histories; threads take turns as generated, and run freely in part of the cases.',
}
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 check.py --build', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i not in CHECKS:
        m['not_applicable'].append({'property': i, 'reason': 'no check yet: its harness is not built'})
        continue
    h = CHECKS[i][0]
    note = NOTE[h]
    if i == 'C10':
        note = 'Every allocation (the first 48) of each generated program is made to fail in turn, and some combinations; the programs are sampled. ' + note
    m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py ' + i,
        'thorough_cmd': 'python3 check.py %s --tier thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
        'technique': TECH[h], 'level': LEVEL.get(i, 'exploration'), 'level_note': note})
if not m['not_applicable']:
    m['not_applicable'] = []
m['notes'] = 'No hooks: the allocator is replaced by the macros the library already has (RAII_MALLOC and others), defined on the command line.'
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
open(H + '/MANIFEST.json', 'a').write('\n')
