#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json from the list of claimed properties below.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ("symbolic execution of the repository's Go source (SSA form, regenerated each run) with forking schedules; "
        "path conditions and property negations decided by z3 over all inputs within the bounds; counterexamples replayed on the compiled code")
TECH27 = TECH.replace('with forking schedules;', 'with forking schedules, and a happens-before assertion on every access to shared memory;').replace('replayed on the compiled code', 'confirmed by repeating the recorded schedule')
CLAIMED = open(os.path.join(here, 'tools', 'claimed.txt')).read().split()
NA = {
 'C26': "cxx_zmq4_compat.go (build tag czmq4) only wraps the native C library through cgo; that library and its headers are not installed here, so the file does not compile and there is no code the engine can encode",
}
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NOTES = json.load(open(os.path.join(here, 'tools', 'notes.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMED:
        checks.append({'property': i,
            'quick_cmd': f'bash check.sh {i} quick', 'thorough_cmd': f'bash check.sh {i} thorough',
            'technique': TECH27 if i == 'C27' else TECH, 'level': 'model_checking',
            'level_note': NOTES.get(i, 'bounded: all inputs and schedules within the bounds stated in BOUNDS.md and in the evidence file')})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check yet: harness under construction')})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
