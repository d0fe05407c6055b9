#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the table below.
import json
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
DST = "deterministic simulation with fault injection: seeded search over schedules and faults"
notes = {
 'C01': "Real compiler, real generated RISC-V and ARM code and embedded runtime in a one-process multi-hart simulator; seeded schedules, stalls, spurious wake-ups, store-visibility delays, early loads (RISC-V) and spurious SC failures; output and status compared with an independent evaluator. Sampled: evidence, not proof. Trusts the RV64GC/ARMv7/Linux-call simulator.",
 'C03': "As C01 with every run bounded in steps after faults stop: deadlock, livelock and abnormal exits are detected by the simulator. Sampled.",
 'C04': "Programs that repeat loops past the sampling thresholds under frozen, jumping and backward clocks; results compared with the evaluator. Sampled.",
 'C05': "Memoisable recursive functions over seeded call histories, results compared with the evaluator; a program wrong without memoisation is not judged. Sampled.",
 'C06': "Reduction programs under seeded schedules, SC failures and store delays, exact final values compared. Sampled.",
 'C07': "Thread creation, stack mapping and affinity calls fail by seeded choice; output and status compared. Sampled.",
 'C02': "Driver calls the real runtime of the compiled program with seeded histories of ranges; executed intervals, completion and two-way visibility checked. Sampled.",
 'C08': "Real compiler under a virtual clock that expires its budget at a seeded read (jumps, slews, set-backs, stalls); emitted RISC-V or ARM program run in the simulator and compared. Sampled.",
 'C09': "Real compiler run repeatedly under seeded layouts, memory contents, environments, clocks and read chunkings; output bytes compared. Sampled.",
 'C10': "Real compiler behind a system-call seam that fails or shortens seeded open/write/close calls. Sampled, with every call position covered for small outputs.",
 'C11': "Real compiler behind a system-call seam that shortens, interrupts or fails seeded reads and opens. Sampled.",
 'C12': "Real compiler behind a system-call seam that fails seeded memory requests. Sampled.",
 'C13': "Real interpreter under a virtual clock with seeded jumps; limits checked against virtual elapsed time. Sampled.",
 'C14': "Real interpreter behind the system-call seam with seeded read/write/open/close faults; output file compared. Sampled.",
}
claimed = [p['id'] for p in props if p['id'] in notes]
import sys
only = sys.argv[1:]
if only: claimed = [c for c in claimed if c in only]
na = {
 'C20': "A pure function of the source text: no schedule, clock, fault or I/O enters, so deterministic simulation would be plain input generation. (C01 and C08 cover the parts that depend on threads and time; sequential miscompilations met there are documented in DESIGN.md.)",
 'C21': "Pure function of the machine code given to it; no schedule, time or fault for a simulator to decide.",
 'C22': "Pure function of operand values; belongs to proof or enumeration, not simulation.",
 'C23': "Pure function of the source text; how the text is delivered (short and failing reads) is C11.",
 'C24': "Pure function of the program; delivery and write faults around it are C10 and C11.",
 'C25': "A fault-free differential test of two pure computations; the fault and clock dependent part of the interpreter is C13 and C14.",
}
for p in props:
    if p['id'] not in claimed and p['id'] not in na: na[p['id']] = "Check under construction; not claimed yet."
json.dump({
 "version": 1,
 "setup_cmd": "bash /verif/build.sh",
 "hooks": {"guard": "none", "enable": "no hooks are needed: the seams are the system-call, libc and instruction-set boundaries", "source_commits": []},
 "checks": [{"property": c, "quick_cmd": f"bash /verif/check.sh {c} quick", "thorough_cmd": f"bash /verif/check.sh {c} thorough",
   "evidence_file": f"evidence/{c}.json", "technique": DST, "level": "exploration", "level_note": notes[c]} for c in claimed],
 "not_applicable": [{"property": k, "reason": v} for k, v in na.items()],
 "notes": "Seed from VERIF_SEED. DST_BUDGET overrides the exploration time in seconds."
}, open('/verif/MANIFEST.json', 'w'), indent=1)
