#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
NOTE = {
 'C01': 'Seeded schedules over 2 to 4 simulated threads with preemption at any instrumented memory access, biased towards accesses to static and shared storage; happens-before race detection in every run; outcomes compared with the same calls made one after the other.',
 'C02': 'Every saved value is written by one path and recovered by another after a simulated crash that keeps a prefix, all, or none of the new bytes; compared with the value saved, which an independent model renders and reads.',
 'C03': 'Damaged stored texts (bit, block and token level) judged by an independent reader that knows the type description; accepted iff the model accepts, equal object, memory checked by the simulated heap.',
 'C04': 'Every entry point run on the same damaged or sound text or object and the outcomes compared; locations and offsets judged against the set of faulty elements computed by the model.',
 'C05': 'Failures injected at the n-th call of user code or at a chosen element; the outcome must be failure, the exception must arrive unchanged, and the repeated call must succeed.',
 'C06': 'The n-th operator new fails (each n in turn, or a random one; once or from then on); the outcome must be failure or the normal one, with heap conservation and repetition checked.',
 'C07': 'Conservation of heap blocks and of instances of instrumented user types over histories of succeeding and failing calls.',
 'C08': 'Pointer identity and number and target of references compared with the source graph and with what the model resolves, over histories with failing calls and damaged references.',
 'C09': 'The same calls with and without changes of time zone, C and C++ locale, clock and errno between and within calls; outcomes must be identical.',
 'C10': 'Each call of a history (including failing, nested and before-main calls) compared with the same call alone in a fresh process.',
 'C11': 'Sources frozen during each call (any write to them is reported at once) and compared afterwards; target strings compared after failing writes.',
}
TRUST = ' Trusts the simulator, the reference model in sim/model.hpp, RapidJSON and the compiler; types outside sim/gen_types.py and executions not sampled are not covered.'
NA = {
 'N01': 'A relation between two pure functions of a type (schema emitter and reader) without threads, time, I/O, storage or failures for a simulation to control; deciding it takes a JSON Schema validator, not a scheduler or faults. The emitter is exercised only as one more call in C01, C06, C07, C09, C10.',
 'N02': 'A property of the compiler\'s verdict on a program text; there is no execution to simulate.',
 'N03': 'A statement over all finite name sets about a pure function evaluated when a type is first used; there is no schedule or fault in it. What users observe of it (a reading call ends, members are found) is part of C02 and C03 for the registered classes.',
}
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl')) if l.strip()]
checks = [{'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'], 'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
           'technique': 'deterministic simulation with fault injection (seeded search)', 'level': 'exploration', 'level_note': NOTE[p['id']] + TRUST} for p in props if p['id'] not in NA]
m = {'version': 1, 'setup_cmd': 'python3 check.py --build',
     'checks': checks, 'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items() if any(p['id'] == k for p in props)],
     'notes': 'No hooks in /repo: the seams are the compiler\'s thread-sanitizer call-outs, the allocator, the C library functions for time and locale, and the user code that the library calls, all replaced at link time by sim/rt.cpp. Defects repaired in /repo are listed in known_findings.txt.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
