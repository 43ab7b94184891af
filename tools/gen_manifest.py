#!/usr/bin/env python3
"""writes MANIFEST.json: one entry per implemented check"""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
SEARCH = "generated-input search against an explicit oracle; what was not generated is not covered. Trusts the harness model, proptest, rayon and the deterministic getrandom stand-in (seeds the level generator)."
C = {
 "C01": ("property-based testing: generated indexes and searches, validity invariant on every answer", "exploration", SEARCH),
 "C02": ("property-based testing: differential against a brute force scan in the exact regime", "exploration", SEARCH),
 "C03": ("property-based testing: filtered searches against filtered brute force, metamorphic all/none/list=closure", "exploration", SEARCH),
 "C04": ("model-based (stateful) property testing of insertion/search histories", "exploration", SEARCH),
 "C05": ("property-based testing: structural invariant over every neighbour list after generated batches", "exploration", SEARCH),
 "C06": ("property-based testing over generated thread schedules (deterministic scheduler substituted for parking_lot) plus real-thread stress", "exploration", SEARCH + " The scheduler interleaves at lock operations and distance evaluations; parking_lot is modelled by a stand-in (writer preference, no recursion)."),
 "C07": ("property-based testing: metamorphic batch=single, repeat=repeat, snapshot before=after", "exploration", SEARCH),
 "C08": ("property-based testing: dump/reload round trip, byte-level parse of the dump against the index", "exploration", SEARCH),
 "C09": ("property-based testing: differential mapped reload against plain reload over reload options", "exploration", SEARCH),
 "C10": ("stateful property testing of dump/reload/re-dump histories with file fingerprints", "exploration", SEARCH),
 "C11": ("property-based testing: differential graph-only reload and flattening against the dumped index", "exploration", SEARCH),
 "C12": ("property-based testing: round trip of vectors through the data map", "exploration", SEARCH),
 "C13": ("property-based testing: generated type/distance/file mismatches must be refused", "exploration", SEARCH),
 "C14": ("fault enumeration under property-based testing: every cut point of generated dumps, each evaluated in processes whose death is observed", "fault_enumeration", SEARCH + " Cut points are enumerated exhaustively for small dumps and sampled (biased to record boundaries) for larger ones."),
 "C15": ("fault injection under property-based testing: file size limit at generated byte, full device", "fault_enumeration", SEARCH + " Faults are real ones: RLIMIT_FSIZE in the worker process and /dev/full."),
 "C16": ("property-based differential testing of the exported C functions against the Rust API on the same graph", "exploration", SEARCH),
 "C17": ("statistical property-based testing of the level law (exact binomial tails at 1e-9) and round trip of the scale", "exploration", SEARCH),
 "C18": ("model-based (stateful) testing of reload/insert/search/dump histories", "exploration", SEARCH),
 "C19": ("property-based testing: dumps transcoded to earlier formats, reload compared with the original", "exploration", SEARCH),
 "C20": ("property-based testing: live counters of elements and Weak references after drop", "exploration", SEARCH),
 "C21": ("fuzzing of the description reader: structured and mutated bytes against an independent parser", "exploration", SEARCH),
 "C23": ("property-based testing: local optimality of every answer over the links, metamorphic search(k, ef) = beginning of search(max, max)", "exploration", SEARCH),
 "C24": ("model-based property testing: each insertion against a reference search and neighbour selection computed from the lists before it, and a frame condition on all other lists", "exploration", SEARCH),
 "C25": ("property-based testing over generated thread schedules (deterministic scheduler substituted for parking_lot) plus real threads: differential of each reading operation run together against run alone", "exploration", SEARCH + " The scheduler interleaves at lock operations and distance evaluations; parking_lot is modelled by a stand-in (writer preference, no recursion)."),
 "C22": ("statistical property-based testing of recall over seeded data sets with fixed margins", "exploration", SEARCH),
}
done = [i for i in sorted(C) if os.path.exists(os.path.join(here, "harness/src/bin", i.lower() + ".rs")) or os.path.exists(os.path.join(here, "sched/src/bin", i.lower() + ".rs"))]
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
                 "technique": C[i][0], "level": C[i][1], "level_note": C[i][2]} for i in done],
     "not_applicable": [{"property": i, "reason": "check under construction"} for i in sorted(C) if i not in done],
     "notes": "see DESIGN.md; no hooks are needed in /repo"}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(done), "checks")
