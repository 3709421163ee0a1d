#!/usr/bin/env python3
"""regenerates MANIFEST.json from the table below and the checks that exist"""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
X, F = "exploration", "fault_enumeration"
T = {
 "C01": (X, "runs of the real plotter judged by an independent plot reader and evaluator; kernel oracle at every k", "Held for every plot and kernel call observed. Trusts the reference implementation (ref/) and the crypto stand-ins; whole plots only at small k."),
 "C02": (X, "runs of the real plotter compared with a brute-force forward propagation", "Every entry of every table of every observed plot compared as multisets. Whole plots only at small k."),
 "C03": (X, "differential runs over configurations under schedule perturbation", "Sampled configurations and interleavings; equality of the whole decoded content."),
 "C04": (X, "independent format reader over published plots and synthetic large-k tables", "Every byte of every observed file is accounted for. Golden coding tables are part of the check."),
 "C05": (X, "online multiset/order/offset monitors on the real external sort under generated distributions and schedules", "Sampled distributions and interleavings."),
 "C06": (X, "event log of the real stage classes judged online under schedule perturbation and a stall detector", "Sampled interleavings (nine perturbation modes)."),
 "C07": (X, "injected failing jobs in the real stage classes; event log and stall detector", "Sampled fail points and interleavings; a hang is called only when all threads sleep without CPU use."),
 "C08": (F, "system-call fault injection into the real plotter (ptrace), exit status and files judged", "Fault points sampled per class over a whole run; each single fault exact."),
 "C09": (F, "kill and fault injection at every system call of a plot move, file contents judged at each point", "Exhaustive over the calls of each traced move; process crash, not power loss."),
 "C10": (F, "SIGKILL before chosen file operations of the real plotter, all *.plot verified; online order monitor", "All name-changing operations and a sample of the data operations of whole runs; process crash, not power loss."),
 "C11": (X, "traced create/unlink/rename history and directory snapshots with decoys", "Sampled configurations and histories."),
 "C12": (X, "real pruning phase on synthetic tables against a naive model", "Sampled tables up to 120k entries."),
 "C13": (X, "real forward phase against brute-force propagation; kernels against the definition at every k", "Whole tables at k 16..18, kernels up to k 34."),
 "C14": (X, "round-trip monitors with canaries on every record type and on table files, sparse beyond 4 GiB", "Field extremes and random values; all block and reader shapes sampled."),
 "C15": (X, "real compression phase on synthetic tables, decoded by an independent reader", "Sampled tables; line points over the full range up to k 34."),
 "C16": (X, "real checkpoint phase on synthetic sequences, decoded independently", "All residues of park and checkpoint sizes, offsets beyond 4 GiB, one case above 10^8 entries. Three known findings."),
 "C17": (X, "sanitized round-trip and hostile-input runs of the entropy coders", "Generated blocks and corrupted streams under ASan/UBSan."),
 "C18": (X, "keystream compared with an independent ChaCha8 at sampled positions of the 64-bit range", "Sampled keys, positions, batch splits."),
 "C19": (X, "model-based random operation sequences on the bit containers under sanitizers", "Every width and alignment, sampled values."),
 "C20": (X, "concurrent marking and exact rank comparison, also under ThreadSanitizer", "Sampled sizes, patterns and interleavings."),
 "C21": (X, "AddressSanitizer and UBSan over whole plots and all harnesses", "Errors on executed paths only."),
 "C22": (X, "ThreadSanitizer over whole plots and stage harnesses", "Happens-before races on executed paths only."),
 "C23": (X, "independent recomputation of id, memo and name for generated keys", "BLS replaced by a stand-in with the same algebra of calls; the binding is checked, not the curve."),
 "C24": (X, "generated command lines against an independent acceptance model; accepted ones run and verified", "Sampled argument grid."),
 "C25": (X, "multi-plot runs under options and timed interrupts, directory and event monitors", "Sampled option combinations and signal moments."),
 "C26": (X, "both builds run on the same ids and compared; wide records and phases at k 33, 34", "Whole plots at small k, wide records and phases at full width."),
 "C27": (F, "second run of the real plotter in the directories left by killed, failed or finished runs, or full of garbage under its own names; plot compared", "Kill and fault points sampled over whole runs; every name the run creates is met again."),
 "C28": (X, "groups of real plotter processes in shared directories, plots verified, directories listed", "Sampled groups, options and overlaps."),
}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 prebuild.py", "checks": [], "not_applicable": []}
for p in props:
    lv, te, no = T[p]
    if os.path.exists(os.path.join(V, "vf", "checks", p.lower() + ".py")):
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s thorough" % p,
                            "evidence_file": "evidence/%s.json" % p, "technique": te, "level": lv, "level_note": no})
    else:
        m["not_applicable"].append({"property": p, "reason": "check not built yet"})
m["notes"] = "No hooks in /repo: the real sources are compiled unchanged; instrumentation is interposed (LD_PRELOAD, ptrace, sanitizers, stand-in libraries)."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
