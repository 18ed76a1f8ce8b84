#!/usr/bin/env python3
# Source of /verif/MANIFEST.json.
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
T = 'deterministic simulation with fault injection: '
C = {
 'C01': ('seeded ground files read through a simulated file system (short reads, interruptions), compared with an independent reader', 'independent parser written from the format; sampled files, corruptions and read schedules'),
 'C02': ('seeded histories of loads, reloads and clears with read errors, failing opens, lost tails and failing allocations; state compared with the last good mesh', 'all-or-nothing and reporting judged after every operation of each sampled history'),
 'C03': ('seeded histories of mesh operations with faults; every box query compared with a scan of the current triangles', 'brute-force oracle; handed-out triangles are re-read at the end of each history'),
 'C04': ('seeded preemptive scheduler over real threads (switch possible at every basic block and allocation); every thread compared bit for bit with running alone', 'schedules are sampled; weak-memory effects are outside (one thread runs at a time), data races show only through their effects or AddressSanitizer'),
 'C05': ('seeded drives with faults between the steps; every rib compared with an independent enveloping model', 'tolerances in DESIGN.md; ribs whose geometry is within rounding of a case boundary are not judged'),
 'C06': ('seeded drives with faults; every rib compared with an independent sampling model', 'as C05'),
 'C07': ('seeded drives over planes with faults; every rib compared with the closed disk-segment model', 'as C05'),
 'C08': ('seeded drives with faults and resizes; shell values, list forms and frames compared with the per-rib values', 'aggregates recomputed from the per-rib values the library gives'),
 'C09': ('twin executions of one drive over permuted records and rotated vertex orders, faults in one of them', 'geometrically ambiguous ribs are skipped for vertex rotations only'),
 'C10': ('twin executions: a shell with a history of steps, failures and resizes against a fresh shell, bit for bit', 'bitwise, so independent of any model'),
 'C11': ('seeded resize histories with failing allocations and undefined profiles; tiling and state compared with the profile', 'closed profile formulas'),
 'C12': ('seeded S-function sessions with failing calls; the output bus compared with a shadow shell and the expected padding', 'the shadow shell is the library\'s own (its values are decided by C05-C08)'),
 'C13': ('seeded sequences of S-function starts, outputs and ends with 10 kinds of failing start; live blocks counted after each end', 'leaks count only if a repetition leaks again (lazily initialised state is not a leak)'),
 'C14': ('systematic allocation failure: the n-th allocation of each call fails, n = 1, 2, 3, ... (and bursts), twin objects as reference', 'all n up to 40 per call and a sample beyond; 20 kinds of call on sampled objects'),
 'C15': ('exports through a simulated file system with short writes, full disk, write and close errors; text compared with the mesh', 'an error may be reported in any way the interface has'),
 'C16': ('seeded drives over degenerate and aligned ground with faults; outputs checked for being finite and in range, work bounded by a step budget', 'range checks only; exact values are C05-C07'),
 'C17': ('twin executions under different memory contents: fresh heap blocks, dead stack and freed memory filled with seeded bytes', 'reads of uninitialised memory show if they change anything observable'),
 'C18': ('seeded histories of builds, clears, searches with failing allocations on box trees, compared with all pairs', 'brute-force oracle'),
 'C20': ('seeded sequences of gateway commands, well-formed and not, in a simulated MATLAB with failing allocations, arrays and file reads; every answer compared with the same operation on a twin object', 'the twin is the library\'s own object (its values are decided by the other properties); commands on deleted handles and complex arrays are not generated'),
 'C21': ('seeded histories of moves, copies and hand poses, with contact steps and failing allocations in between; every part compared with one made new and with vector arithmetic', 'sampled histories; contact on moved parts compared with parts made new (exact values are C05-C07)'),
 'C22': ('seeded drives with reports printed to streams that take everything, refuse or throw from a random byte on, and with failing allocations; every number compared with the getters', 'numbers are read back in order; labels and layout are not judged'),
 'C23': ('seeded histories of constructions on dirty memory, moves, settings, copies and merges of entities and boxes; every attribute and computed value compared with a model after each', 'own formulas and vector arithmetic, to 1e-9; attributes that are not numbers, and containment for directions that are not unit vectors, are not judged'),
 'C19': ('seeded operation histories with failing allocations on entity collections, compared with a list', 'list model; entity kinds, boxes and places modelled independently'),
}
NA = {
 'C31': 'pure functions of two values and a tolerance: nothing for a simulator to control; the ones contact uses are exercised under C05-C07, C09, C16.',
 'C32': 'a statement about wall-clock time on a real machine; the simulator replaces time and instruments the code, so it decides nothing about speed (boundedness of the work is decided under C16).',
}
m = {'version': 1, 'setup_cmd': 'python3 check.py --self-test',
     'checks': [{'property': k, 'quick_cmd': 'python3 check.py %s --tier quick' % k, 'thorough_cmd': 'python3 check.py %s --tier thorough' % k, 'evidence_file': 'evidence/%s.json' % k,
                 'technique': T + a, 'level': 'exploration', 'level_note': 'Seeded sampling of executions: ' + b + '. Trusted: the simulator and oracles in sim/, clang, AddressSanitizer.'} for k, (a, b) in C.items()],
     'not_applicable': [{'property': k, 'reason': r} for k, r in NA.items()],
     'notes': 'No hooks in /repo: the simulator takes the allocator, file, thread and coverage seams at link and compile time (see DESIGN.md). Repairs are the fix: commits listed in known-findings.txt.'}
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
assert sorted(ids) == sorted(list(C) + list(NA)), set(ids) ^ (set(C) | set(NA))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
