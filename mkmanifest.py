#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py (run by hand after changing the checks)."""
import json
from checks import CHECKS
TECH = {
 'C01': 'AddressSanitizer + UBSan over random API histories on exact-size buffers, with step budgets',
 'C02': 'runtime monitor of every src_process call (counts, guards, written frames) plus differential and model oracles',
 'C03': 'runtime conservation monitor over finished streams (totals, last frames against a reference model)',
 'C04': 'differential runtime oracle over random divisions and APIs',
 'C05': 'differential runtime oracle: every channel against a mono run, with poisoned neighbours',
 'C06': 'runtime twin oracle: clone, original and independent twin compared bit by bit; ASan',
 'C07': 'runtime twin oracle: reset converter against a new one, bit by bit; ASan',
 'C08': 'runtime oracle for every error condition; twin oracle for absence of effects; ASan',
 'C09': 'allocation fault injection (every allocation point) with an allocation ledger',
 'C10': 'exhaustive execution over all 2^32 values against integer references; guards',
 'C11': 'online checker of the documented ratio/position trajectory against an independent interpolation model',
 'C12': 'online checker against an independent interpolation model; tone analysis',
 'C13': 'ThreadSanitizer over concurrent converters; results compared with a single-threaded run',
 'C14': 'monitoring callback (order, need, buffer lifetime under ASan), exactly-once oracle',
 'C15': 'MemorySanitizer; twin runs under perturbed heap, stack, layout and neighbours compared bit by bit',
 'C16': 'progress/latency monitor; executed branches per call counted with trace-pc instrumentation against a bound',
 'C17': 'monitored calls over gigabytes of mirrored address space; drift checker for long streams',
 'C20': 'runtime monitor of effects: trapped system calls, link-time wrapped allocator and libc functions, painted stack, floating point control state',
 'C19': 'differential runtime oracle: sixteen builds of the library in one process on the same histories',
 'C18': 'metamorphic runtime oracle (superposition, scaling, disturbance, bounds, silence) at equal histories',
}
NOTE = {
 'exploration': 'Held on every execution the monitors observed (counts in the evidence file); seeded random workloads, so no claim beyond them. Trusts the compiler, its sanitizers, libm and the harness.',
 'fault_enumeration': 'Every allocation made by each entry point was failed in turn for the listed converters and channel counts; histories beyond that are sampled. Trusts the link-time wrapping of the allocator.',
}
NOTES = {'C10': 'All finite and infinite float values, all ints and all shorts are executed, so per-element results are exhaustive for this compiler; lengths and alignments are sampled.',
 'C20': 'System calls are seen only if the kernel offers syscall user dispatch (the evidence counts processes with and without); libc functions outside the wrapped list that make no system call are not seen.',
 'C13': 'ThreadSanitizer reports races by happens-before over the observed accesses, independent of the interleaving that occurred; only executed paths count.',
 'C12': 'Compared with a double precision interpolation over a private copy of the filter tables (ref/), so a change of the tables is seen; tones are judged against analytic values.',
 'C11': 'Position trajectory computed in long double from the documented rule; samples compared with a private copy of the filter tables.'}
m = {'version': 1, 'setup_cmd': 'python3 run.py --setup', 'checks': [], 'not_applicable': [],
     'notes': 'No hooks in /repo: the monitors use the public API, compiler instrumentation of freshly compiled sources and link-time allocation wrapping. Genuine defects repaired: see known_findings.txt.'}
for pid, c in CHECKS.items():
    m['checks'].append({'property': pid, 'quick_cmd': 'python3 run.py ' + pid, 'thorough_cmd': 'VERIF_TIER=thorough python3 run.py %s --thorough' % pid,
                        'technique': TECH[pid], 'level': c['level'], 'level_note': NOTES.get(pid, NOTE[c['level']])})
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
