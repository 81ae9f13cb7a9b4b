#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from properties.jsonl"""
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
NOTE={
'C01':"Seeded search over schedules of 2-4 threads; preemption at any basic block, load, store, allocation, lock or file call of the library. Trusts the seams and a sequentially consistent memory; library-spawned threads are not scheduled.",
'C02':"Seeded search over call histories, hash seeds, heap layouts and clock values; every call compared with a pristine process.",
'C03':"Seeded search over read splits, interruptions and file texts; oracle: the library's own in-memory parse of the normalised text. Trusts the simulated file system.",
'C04':"Seeded search over failing calls, errnos and damaged paths. Allocation failure is not injected (Rust aborts by design).",
'C05':"Seeded search over storage damage and options, every later read-only operation exercised. Stack exhaustion by nesting of 300000 levels is a recorded finding.",
'C06':"Seeded search over texts, each cut at every or many positions; prefix oracle between cuts of the same text.",
'C07':"Seeded search over failing texts and their continuations, in memory and from files; position recomputed independently.",
'C08':"Seeded search over call sequences with faults, each repeated 40 times; growth of the simulated heap, open descriptors and the whole-heap balance are the oracle.",
'C09':"Seeded search over file replacement events at any system call of a parse; oracle: the versions the path denoted. Trusts the simulated file system.",
'C10':"Seeded search over histories of taking, following and dropping handles against a reachability model.",
'C11':"Seeded search over histories of clones, edits and moves against model trees.",
'C12':"Seeded search over interleavings of reads with outstanding borrows.",
'C13':"Seeded search over damaged, cut and faultily delivered texts; every returned tree is walked and checked.",
'C14':"Seeded search over delivery patterns with bounded work and bounded read counts as the progress oracle.",
'C16':"Seeded search over damaged, cut and faultily delivered texts; an accountant reads the source from left to right and ticks it off against the returned tree.",
'C17':"Seeded search over input shapes, sizes and delivery patterns; peak heap and instrumented work of every operation compared across sizes and deliveries. The stack is not counted.",
'C18':"Seeded search over sequences of parts, wrappings and appends to a file that is being parsed; oracle: the library's own results for the parts alone, or for what the file held.",
'C15':"Seeded search over crash points: text cut or damaged anywhere, repaired, saved, reloaded strictly.",
}
NA="A pure function of its arguments: no schedule, clock, I/O, randomness, crash point or second party changes the outcome, so simulation with fault injection has nothing to decide; "
WHY={p['id']:p.get('_na') for p in props}
checks=[];na=[]
for p in props:
    i=p['id']
    if i.startswith('C'):
        checks.append({"property":i,"quick_cmd":f"bash check.sh {i} quick","thorough_cmd":f"bash check.sh {i} thorough","technique":"deterministic simulation with fault injection (seeded search)","level":"exploration","level_note":NOTE[i]})
    else:
        na.append({"property":i,"reason":NA+"deciding it means testing inputs or proving the function."})
m={"version":1,"setup_cmd":"bash build.sh","checks":checks,"not_applicable":na,
"notes":"No hooks in /repo: the seams are libc symbols, the global allocator and compiler-inserted coverage callbacks, all on the harness side (sim/). Replay a violation with: bash replay.sh <file>. Known findings and fixed defects: known-findings.txt."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1);open('/verif/MANIFEST.json','a').write('\n')
