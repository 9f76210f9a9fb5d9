#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NA = {}
NOTE = ("Seeded search: every run is a pure function of (seed, run index) and is replayed exactly from its recorded draws. "
        "It samples the space and proves nothing. Trusted: the stream generator, the reference decoder and the simulated world in /verif/sim.")
TECH = {
 'C14': 'deterministic simulation: seeded scheduler over real threads, nested and migrating decoders; refinement against the decoder alone',
 'C15': 'deterministic simulation: seeded lossy packet network; every packet checked against the reference decoder',
 'C18': 'deterministic simulation: misbehaving readers, two memory worlds (allocator fill patterns), red zones',
 'C20': 'deterministic simulation of the system calls behind std::fs with injected errno, EINTR and short reads',
 'C21': 'deterministic simulation: a simulated faulty encoder behind a seeded delivery schedule; refinement against the reference decoder',
 'C22': 'deterministic simulation: errors that decoding ends with under injected failures, displayed to a sink with injected failures',
 'C23': 'deterministic simulation: one subframe behind a seeded delivery schedule with faults; refinement against the reference decoder',
 'C24': 'deterministic simulation: random histories of the API over a reader that counts its drops and its position',
 'C09': 'deterministic simulation with an accounting allocator',
 'C07': 'deterministic simulation: two memory worlds (allocator fill patterns and recycled buffers) must agree',
}
checks = []
for p in props:
    i = p['id']
    if i in NA: continue
    checks.append({'property': i, 'quick_cmd': f'bash /verif/check.sh {i} quick', 'thorough_cmd': f'bash /verif/check.sh {i} thorough',
      'evidence_file': f'evidence/{i}.json', 'technique': TECH.get(i, 'deterministic simulation with fault injection: seeded reader (chunking, errors, EINTR, short reads, latency), histories checked against a reference model'),
      'level': 'exploration', 'level_note': NOTE})
m = {'version': 1, 'setup_cmd': 'bash /verif/setup.sh', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': NA[k]} for k in sorted(NA)],
     'notes': 'No hooks in /repo: the public io::Read and ReadBytes parameters, the global allocator and the libc symbols of this program are the seams.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
