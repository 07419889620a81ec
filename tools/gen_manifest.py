import json
ps=[json.loads(l) for l in open('/verif/properties.jsonl')]
NA={"C30":"A pure function of the sequence of builder calls made by one thread before the machine runs: no schedule, clock, fault or I/O for a simulator to decide.",
"C31":"equals and hashCode are pure functions of two immutable names; nothing nondeterministic for a simulator to control.",
"C32":"A log line is a pure function of the notification's arguments; no schedule, clock, fault or I/O is involved."}
note={
"C19":"Seeded sampling of the weak behaviours the Java memory model allows for plain fields (stale reads without happens-before, hoisted polls), on top of sampled interleavings. Other reorderings are not modelled.",
"C20":"Bounded liveness is decided as quiescence: the simulator knows exactly when nothing can run any more, so a fire that has not returned then never returns.",
"C16":"The crash keeps only what the listener recorded; a fresh machine is built from the same configuration and resumed."}
base="Seeded random and priority-based (PCT) search over schedules, configurations and faults on the real bytecode of the library and of the java.util.concurrent classes it uses; every run is exactly repeatable. A clean result is evidence on the sampled runs, not proof. Trusted: the simulator's scheduler and its stand-ins for monitors, park, sleep, clock and log4j; scheduling points are field and array-free memory accesses, synchronisation and library calls. "
checks=[]
for p in ps:
    i=p['id']
    if i in NA: continue
    checks.append(dict(property=i,quick_cmd=f"bash dsim/check.sh {i}",thorough_cmd=f"VERIF_TIER=thorough bash dsim/check.sh {i}",
      evidence_file=f"evidence/{i}.json",technique="deterministic simulation with fault injection: seeded schedule and fault search over the real bytecode, reference-model oracle",
      level="exploration",level_note=(base+note.get(i,"")).strip()))
m=dict(version=1,setup_cmd="bash dsim/setup.sh",
 hooks=dict(guard="none",enable="No hooks in /repo. The checks compile /repo/src/main/java as it is and redirect threads, monitors, parking, clock, randomness and logging by rewriting the bytecode while loading it into the simulator; the shipped classes are untouched.",source_commits=[]),
 checks=checks,not_applicable=[dict(property=k,reason=v) for k,v in NA.items()],
 notes="See DESIGN.md. known_findings.txt lists recorded and repaired defects. dsim/replay.sh FILE re-executes a violation.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
