import json
T="deterministic simulation with fault injection: seeded random schedules and faults, "
tech={
"C01":T+"history checked operation by operation against a reference book",
"C02":T+"fresh processes racing for first use, checked against a reference chart of accounts",
"C03":T+"history with edits, crashes and restarts checked against a reference recalculation",
"C04":T+"history of accepted and refused writes checked against a reference book",
"C05":T+"history checked against a reference derivation and the cash reconciliation",
"C06":T+"history of edits and tax computations checked against a reference model",
"C07":T+"crash, torn and damaged images, chunked I/O, restart, compared with a reference book",
"C08":T+"system-call faults, full disk, crash and failing allocation inside exports",
"C09":T+"failing and chunked sinks, concurrent renderings, compared with a reference table",
"C10":T+"preemption inside calls, each call's result compared with the call alone in a fresh process",
"C11":T+"objectives that fail or answer wrongly for windows of evaluations, bounded-step liveness",
"C12":T+"snapshots interleaved with writers, checked against a reference book",
"C21":T+"period sets reached through histories and restarts, checked against a reference model",
}
note_book="Seeded search over client histories, schedules, hash seeds, clocks, injected faults and crash/restart; every operation's outcome and the whole book are compared with a small reference model. Evidence, not proof: runs are sampled. Trusts the reference chart and model in sim/src, the kernel's file system, and that preemption at allocations, libm calls, system calls, callbacks, sink writes and operation boundaries is fine enough (one task runs at a time: no weak-memory effects)."
note={
"C02":"Each run is a fresh process in which 2-5 threads race for first use; every thread's whole view is compared with the reference chart. Sampled, not exhaustive; sequentially consistent; preemption at allocations, libm and system calls (the lazy tables allocate throughout, so building them is preempted at will).",
"C10":"The oracle is the code itself run alone in a fresh process, so results need no model; what is wrong in the same way every time is out of its sight by construction. Sampled histories and schedules.",
"C11":"Step bounds and root conditions are checked against the recorded evaluation sequence; straight-line objectives with exactly known roots. Sampled fault windows.",
}
na={
"C13":"Pure functions of their arguments: no schedule, clock, fault, I/O or history for a simulator to vary. What of it meets interleavings (same result whatever runs beside or before) is C10.",
"C14":"Pure functions of two dates; nothing for a simulator to schedule or to fail. Isolation of the calls is C10.",
"C15":"Accuracy of a root for given cash flows is a pure function of the input; the fault-facing part of the searches (termination, misbehaving objective) is C11, isolation is C10.",
"C16":"Pure functions of a rate; no nondeterminism or fault surface. Isolation is C10.",
"C17":"Pure functions of a curve; no nondeterminism or fault surface. Isolation, also on shared curves, is C10.",
"C18":"Pure functions of a bond and a price or yield; the bounded work of the searches is C11, isolation is C10.",
"C19":"Pure formulas; no nondeterminism or fault surface. Isolation is C10.",
"C20":"Pure functions of a date; no nondeterminism or fault surface. Isolation is C10.",
}
m={"version":1,"setup_cmd":"bash build.sh",
"checks":[{"property":p,"quick_cmd":f"bash check.sh {p}","thorough_cmd":f"VERIF_TIER=thorough bash check.sh {p}","technique":tech[p],"level":"exploration","level_note":note.get(p,note_book)} for p in tech],
"not_applicable":[{"property":p,"reason":r} for p,r in na.items()],
"notes":"No hooks in /repo: all seams are libc symbols and the global allocator, owned by the simulator binary (sim/src/interpose.rs). Defects found and repaired are in known_findings.txt."}
json.dump(m,open("MANIFEST.json","w"),indent=1)
