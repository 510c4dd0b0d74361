"""Regenerates MANIFEST.json from properties.jsonl."""
import json
CLAIMED=["C%02d"%i for i in range(1,17)]
PENDING=[]
NOTE={
"C01":"Seeded search over interleavings of 2-4 threads preempted at single memory accesses; outcomes compared with lone execution, happens-before race detection on every access. Sampling, not proof.",
"C02":"As C01 with all threads reading the same published objects, first-use initialisation included; shared bytes compared before/after.",
"C03":"Every instrumented access of every run checked against the object it belongs to (simulated heap and arenas with red zones and initialisation state). Built with library assertions.",
"C04":"Same operation repeated at different places of seeded histories with dirty memory, other operations and failures between; outcomes compared; use of unwritten memory reported.",
"C05":"Allocation faults (n-th, from n-th on, above a size) injected into formatting and parsing; outcome, leaks and retry judged against the undisturbed execution.",
"C06":"Every allocation fails while computing; outcome compared with the undisturbed execution; exceptions and signals are violations.",
"C07":"Locale, rounding mode, environment, clock changed at seeded instruction-level points; outcome compared with the undisturbed execution; settings compared before/after.",
"C08":"Seeded crash points, torn saves and restarts in a fresh process image, final state against the crash-free reference model.",
"C09":"Seeded interleaved histories, every bit against an independent per-bit model after every step.",
"C10":"Basic-block budget per operation far above the largest legitimate cost, stalls of peers; output size bound.",
"C11":"Seeded interleaved histories over many array shapes with valid, unknown and out-of-range indices against an element model.",
"C12":"Seeded truncation/corruption of stored number text; every access checked; later operations compared with undisturbed ones.",
"C13":"Static storage set back to its load-time image, initialisers and registered destructors run at seeded points, forks that drop all other threads mid-operation; outcomes compared with those in a normal process.",
"C14":"Handlers running operations nested on the same thread at seeded instruction-level points (up to three deep); outcomes of handler and interrupted operation compared with lone execution; deadlocks reported.",
"C15":"Bytes and descriptors held by ended operations sampled over seeded histories with failing allocations, damaged texts and ended threads; a suspicious history is repeated for 2048 executions and must keep growing over all doublings.",
"C16":"Operands computed by seeded chains of earlier operations; every outcome compared with the outcome on operands with the same declared bits entered directly. Sampling of histories, not proof.",
}
TECH={"C16":"deterministic simulation: seeded operation histories against the same operation on directly entered values, replayable and minimised","C08":"deterministic simulation: crash/restart injection against a reference model","C09":"deterministic simulation: seeded process interleavings against a per-bit reference model","C11":"deterministic simulation: seeded process interleavings and index faults against an element model"}
REASON="pure function of its operands: no schedule, clock, I/O, fault or history can change the outcome (C01-C07 decide that they cannot), so simulating it would be input generation in simulator vocabulary"
checks=[{"property":p,"quick_cmd":f"python3 bin/check.py {p}","thorough_cmd":f"python3 bin/check.py {p} --tier thorough","evidence_file":f"evidence/{p}.json",
 "technique":TECH.get(p,"deterministic simulation with fault injection: seeded schedules and faults, replayable and minimised"),"level":"exploration","level_note":NOTE[p]} for p in CLAIMED]
na=[]
for l in open("/verif/properties.jsonl"):
    i=json.loads(l)["id"]
    if i in CLAIMED: continue
    na.append({"property":i,"reason":"check under construction" if i in PENDING else REASON})
json.dump({"version":1,"setup_cmd":"python3 bin/check.py --setup","checks":checks,"not_applicable":na,
 "notes":"No hooks in /repo: the seams are compiler call-outs (-fsanitize=thread, -fsanitize-coverage=trace-pc) answered by the simulator's own runtime, and link-time replacement of heap, clock, locale, locks."},open("/verif/MANIFEST.json","w"),indent=1)
