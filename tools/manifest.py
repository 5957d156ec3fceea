#!/usr/bin/env python3
"""Writes MANIFEST.json from the lists below and properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = {p['id']: p for p in map(json.loads, open(H + '/properties.jsonl'))}
ALSO = {
 'C01': 'seeded histories of pulls, skips, copies and resumes with storage failures, stepped against an executable model',
 'C02': 'seeded in-place mutation with closure, load and store failures, compared element by element with a model of the collection',
 'C03': 'seeded zips of 2 to 13 inputs with component failures, stepped against a lockstep model; mismatched inputs must be refused before any read',
 'C04': 'seeded pull histories before collecting, with failing closures and streams and junk-filled allocations, against a model',
 'C05': 'seeded fills of destinations of every size and alignment between guard pages, with failing closures, against a model',
 'C06': 'seeded misuse over buffers flush against unmapped and read-only pages in a forked simulated process; faults, guard bytes and storage requests are monitored',
 'C07': 'recorded closure calls and drops of seeded runs with injected closure, storage and source failures, against a model of when calls are due',
 'C08': 'simulated allocator which refuses, fills with junk and checks every release, under seeded operations with failures',
 'C09': 'seeded thread, signal and nesting schedules down to single instructions; results compared with the same pipelines run alone',
 'C10': 'seeded interleavings over lanes with storage failures, stepped against a model per lane',
 'C11': 'seeded histories of paired pulls with load, source and closure failures, stepped against a model',
 'C12': 'seeded unrolls, abandoned and resumed, stepped against a model',
 'C13': 'seeded streams which fail, end early or lie about their length, items traced from stream to vector',
 'C14': 'position and length queried after every step of seeded histories with failures, against a model',
 'C15': 'seeded I/O faults and thread schedules under the traced build; results compared with the model and the untraced build',
 'C16': 'simulated log file layer: seeded thread interleavings and faults at every system call of the tracer, log bytes checked after each',
}
NOTE = ('Seeded search, not proof: over a million histories per quick run (tens of millions in the thorough one; less where threads or files take part) on each of several builds '
        '(haswell/AVX2, nehalem/SSE4.2, x86-64/SSE2; debug and release) of the real crate. Trusts the reference model, the fault layer and that one thread runs at a time. '
        'Every violation is minimised to a list of choices and confirmed by two replays in fresh processes.')
NA = {
 'C17': 'pure functions of their inputs: no schedule, clock, fault or other party takes part, so a simulator has nothing to decide (input generation in disguise)',
 'C18': 'pure functions of their inputs: no schedule, clock, fault or other party takes part',
 'C19': 'pure functions of their inputs: no schedule, clock, fault or other party takes part (what iterators do with them is covered by C01, C03, C10, C11)',
 'C20': 'a property of compilation for other targets, not of any execution a simulator controls; neither the targets nor their standard libraries are installed here',
}
DONE = os.environ.get('DONE', ' '.join(sorted(ALSO))).split()
checks = [{
 'property': p, 'quick_cmd': 'python3 check.py %s quick' % p, 'thorough_cmd': 'python3 check.py %s thorough' % p,
 'evidence_file': 'evidence/%s.json' % p,
 'technique': 'deterministic simulation with fault injection: ' + ALSO[p], 'level': 'exploration', 'level_note': NOTE} for p in sorted(ALSO) if p in DONE]
na = [{'property': p, 'reason': NA.get(p, 'its simulation is not finished yet')} for p in sorted(props) if p not in DONE]
json.dump({'version': 1, 'setup_cmd': 'python3 check.py --build', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks are needed in /repo: every seam is a public trait of the crate or the process boundary (allocator, system calls, signals, threads). Known and repaired findings: known_findings.txt.'},
          open(H + '/MANIFEST.json', 'w'), indent=1)
