#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the simulator's list of scenarios."""
import json, subprocess, sys
NA = {
 "N01": "timing of real instructions is not a behaviour of a simulated schedule; deciding it needs trace or binary analysis, not seeded search over faults",
 "N02": "a statement about pure functions over all inputs with no concurrency, time, I/O or multi-party behaviour; the simulation only samples it (as the oracle of C06, C07, C12, C15)",
 "N03": "a language-equivalence statement about a pure parser; the simulation reaches the decoder only through storage and network damage (C13, C15)",
 "N04": "the aarch64 back end cannot run in this sandbox (x86_64 only, no emulator)",
 "N05": "memory accesses inside hand-written assembly are not observable at the simulator's seams; fences around buffers in C06/C07 only sample it",
}
NOTE = "Seeded search over schedules, entropy, clock, CPU model, network, disk and memory faults of real code in one process; not exhaustive. Runs, faults and coverage are in the evidence file."
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
have = {l.split()[0] for l in subprocess.check_output(['/verif/target/debug/gsim','list'],text=True).splitlines()}
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        checks.append({"property": i, "quick_cmd": f"bin/check.sh {i} quick", "thorough_cmd": f"bin/check.sh {i} thorough",
          "evidence_file": f"evidence/{i}.json", "technique": "deterministic simulation with fault injection", "level": "exploration", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "bin/build.sh", "checks": checks, "not_applicable": na}
json.dump(m, open('/verif/MANIFEST.json','w'), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(checks), 'checks', len(na), 'not applicable')
