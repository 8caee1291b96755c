#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DONE = open(os.path.join(V, 'scripts/claimed.txt')).read().split()
T = {
 'C01': ('proptest stateful generation of write histories on real sinks; oracle: model of streams, independent page parser', 'exploration',
   'Random histories of up to some hundred writes over up to 8 sinks, sizes around the page and buffer limits, file and memory backings. No bound on absence; single-threaded (C02 has schedules).'),
 'C02': ('property-based testing of generated thread programs under generated (shrinkable) schedules: shuttle schedules the locks of the real sink and profiler code through a stand-in for parking_lot; bounded depth-first schedule enumeration for small programs; real threads for a tenth of the cases; oracle: each write exactly once at its address, profile reads back', 'exploration',
   'Schedules switch threads at every lock operation of measureme (parking_lot is replaced by a stand-in through a patch section) and inside every write callback; sequentially consistent, std atomics are not interleaved; the depth-first enumeration covers small programs only.'),
 'C03': ('proptest generation of string-allocation histories; oracle: reference expansion of the component tree, by both expansion paths', 'exploration', 'Reference cycles excluded (documented as not allowed).'),
 'C04': ('proptest over full value ranges plus boundary enumeration; oracle: independent little-endian encoder, round trip, refusal of unrepresentable values', 'exploration', 'Boundary values of every field always run.'),
 'C05': ('proptest stateful generation of recording histories on the real multi-threaded profiler; oracle: the recorded history', 'exploration', 'Real threads in generated phases; times are not judged here (C23).'),
 'C06': ('proptest over grammar-conforming and violating texts; oracle: the documented event id grammar', 'exploration', 'All single characters below 128 always run.'),
 'C07': ('proptest over process argument vectors, each used to start a real recording process; oracle: the arguments given', 'exploration', 'Arguments are arbitrary bytes without NUL; non-UTF-8 bytes are compared after lossy conversion.'),
 'C08': ('proptest stateful driving of double-ended iterators against a slice model', 'exploration', 'Profiles from the library builder and from encoded files of both formats.'),
 'C09': ('metamorphic/differential: one generated content encoded in both formats by an independent encoder, everything the library and the tools show compared', 'exploration', 'v8 content limited to what the released v8 reader supports (32-bit ids).'),
 'C10': ('fault injection by generated damage (truncation at every byte, headers, missing streams) to encoded profiles; oracle: refusal or exact prefix', 'fault_enumeration', 'Truncation points enumerated at every byte (or in steps for big files).'),
 'C11': ('proptest of well-nested recordings; oracle: reference analysis from the operation history, interleaving metamorphic relation', 'exploration', 'Well-nested intervals, as the property states.'),
 'C12': ('proptest of well-nested recordings; oracle: stack times from the operation history', 'exploration', 'Entries with zero time are ignored when comparing.'),
 'C13': ('proptest of profiles run through the real crox binary; oracle: expected trace from the recorded history', 'exploration', 'Tool run as a process per case.'),
 'C14': ('proptest of thread span configurations run through the real crox binary; oracle: interval-graph colouring validity and optimality', 'exploration', 'Tool run as a process per case.'),
 'C15': ('proptest of profiles run through the real summarize binary; oracle: reference analysis, parsed table and JSON', 'exploration', 'Tool run as a process per case.'),
 'C16': ('proptest of profile pairs run through summarize diff; oracle: reference differences, swap and self-diff metamorphic relations', 'exploration', 'Tool run as a process per case.'),
 'C17': ('proptest of sets of structurally identical profiles run through summarize aggregate; oracle: reference extremes', 'exploration', 'Strictly increasing clocks, so that sample intervals are unambiguous.'),
 'C18': ('proptest of profiles run through the real mmview binary; oracle: expected entries', 'exploration', 'Tool run as a process per case.'),
 'C19': ('proptest of profiles and page layouts run through mmedit truncate; oracle: page-level reference and loaded events', 'exploration', 'Tool run as a process per case.'),
 'C20': ('proptest of profiles run through stack_collapse and flamegraph; oracle: folded stacks from the history, frame sums in the SVG', 'exploration', 'Labels without the separators of the folded format.'),
 'C21': ('fault injection (file size limits at every sampled byte, full device, kill at sampled points) on generated write histories in a child process; oracle: page-prefix of the model', 'fault_enumeration', 'Crash means process death, not power loss.'),
 'C22': ('proptest over pairs of events; oracle: closed-interval arithmetic', 'exploration', 'Full and lightweight events.'),
 'C23': ('proptest of recording call sequences with generated delays; oracle: brackets of a second monotonic clock around each call', 'exploration', 'Relies on the monotonic clock of the machine being one clock for all threads.'),
 'C24': ('property-based testing of the real counter code on a simulated machine (perf_event_open, rdpmc and cpuid answered by the harness) with generated processors, registers, program runs and faults; oracle: the simulated counts', 'exploration', 'The simulation stands for the hardware; all AMD families to 30 and Intel families to 16 with every model are always run; where the processor cannot be told to refuse cpuid only the real one is used.'),
 'C25': ('fault injection: the built tools run on generated profiles with their output limited to a generated size, on a full device or behind a link; oracle: the complete output of a run without faults', 'fault_enumeration', 'Write errors by file size limit and full device; what a tool leaves behind when it reports failure is free.'),
 'C26': ('proptest of tool commands over sets of inputs of which one may be unusable in a generated way; oracle: must refuse or accept by construction, directory compared before and after', 'fault_enumeration', 'Damage that makes an input unusable by its header, missing streams, or cut JSON; damage inside streams is C10.'),
 'C27': ('proptest stateful: profilers at generated path prefixes over generated earlier contents; oracle: the documented file name, the recorded events, the directory tree before and after', 'exploration', 'Prefixes whose last component starts with two dots are excluded.'),
}
NA = {}
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in DONE:
        t, lev, note = T[i]
        checks.append({'property': i, 'quick_cmd': f'./check.sh {i}', 'thorough_cmd': f'VERIF_TIER=thorough ./check.sh {i}',
                       'technique': t, 'level': lev, 'level_note': note})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'Check not built yet.')})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'Replay files: ./replay.sh FILE. No hooks in /repo are used.'}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
