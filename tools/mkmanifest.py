#!/usr/bin/env python3
# Writes MANIFEST.json: every property of properties.jsonl that a check binary registers is claimed.
import json, re, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
props = [json.loads(l) for l in open('properties.jsonl')]
regs = {}
for b in 'cpasleg':
    f = 'src/check_%s.cpp' % b
    if os.path.exists(f):
        for i in re.findall(r'^static Reg \w+\(\{"(\w+)"', open(f).read(), re.M):
            regs[i] = b
TECH = {
 'C': 'property-based testing: generated C programs, compiled and run on a reference 8086, against a reference interpreter',
 'P': 'property-based testing: generated preprocessor input against a reference preprocessor',
 'A': 'property-based testing: generated assembly against an independent instruction decoder and layout model',
 'S': 'property-based testing: generated machine code, differential against an independent 8086/DOS model',
 'L': 'property-based testing: generated calls of the library routines, run on a reference 8086/DOS model, against C library models',
 'G': 'property-based testing: generated key histories and clock values, the game run on a reference 8086 with a video page, against a model of its rules',
 'E': 'property-based testing: generated programs through the whole tool chain against a reference interpreter',
}
TECHX = {
 'C09': 'property-based testing: metamorphic respelling of generated programs, against a reference interpreter',
 'C10': 'property-based testing: metamorphic padding of generated programs, against a reference interpreter',
 'C11': 'property-based testing: differential between the host build and the self-compiled build on generated programs',
 'C12': 'property-based testing: map and image invariants over generated programs, checked against their execution',
 'C13': 'property-based testing and fuzzing: random, mutated, error-injected and limit-scaled inputs, with sanitizer build',
 'C14': 'property-based testing: generated valid programs must be accepted',
}
NOTE = {
 'C': 'Randomised search over generated programs (the evidence file counts them); trusts the reference interpreter (src/cgen.cpp), the reference 8086 (src/ref86.cpp) and gcc as host compiler. Programs outside the generated subset are not covered.',
 'P': 'Randomised search; trusts the reference preprocessor in the check and gcc as host compiler.',
 'A': 'Randomised search; trusts the reference decoder in the check and gcc as host compiler.',
 'S': 'Randomised search; trusts the reference 8086 and DOS model (src/ref86.cpp) and gcc as host compiler.',
 'L': 'Randomised search; trusts the reference 8086 and DOS model (src/ref86.cpp) and the models of the C functions in the check.',
 'G': 'Randomised search; trusts the model of the rules in the check and the reference 8086 (src/ref86.cpp). Which terrain a clock value gives is not judged. The build for Windows is not run.',
 'E': 'Randomised search; trusts the reference interpreter (src/cgen.cpp) and gcc as host compiler.',
}
NA = {}
m = dict(version=1, setup_cmd='./run.sh build', checks=[], not_applicable=[],
  notes='run.sh builds the harness if needed, rebuilds the tools under test from /repo into a scratch directory, runs the check and removes the scratch directory. run.sh replay FILE re-runs a recorded failure. Known and fixed findings: known_findings.txt.')
for p in props:
    i = p['id']
    if i in regs:
        m['checks'].append(dict(property=i, quick_cmd='./run.sh %s quick' % i, thorough_cmd='./run.sh %s thorough' % i,
            technique=TECHX.get(i, TECH[i[0]]), level='exploration', level_note=NOTE[i[0]]))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'no check built yet')))
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
open('MANIFEST.json', 'a').write('\n')
print(len(m['checks']), 'claimed,', len(m['not_applicable']), 'not')
