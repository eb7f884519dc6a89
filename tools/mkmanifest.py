#!/usr/bin/env python3
# Writes /verif/MANIFEST.json (kept in git; run by hand after a change).
import json
R = "seeded random search over schedules, message timings and rank faults; every rank runs the real code, MPI itself is simulated"
T = "seeded random search over thread schedules, stalls, spurious wake-ups and old memory contents; the real rayon pool runs under the simulator's scheduler"
note = {
 "C01": "Ranges read on every rank of the same job and judged for cover, order, balance and agreement across ranks; shapes sampled up to 16 ranks, plus direct evaluation of the layout rule for thousands of ranks per run.",
 "C02": R + ". Bitwise comparison with the block of a known global array; output guarded and poisoned.",
 "C03": R + ". Bitwise comparison with the known global array; non-root outputs must stay unaltered.",
 "C04": R + ". Bitwise comparison with the block of the root's array.",
 "C05": R + ". Compared with a dense-matrix reference model within a rounding bound.",
 "C06": R + ". Compared with a dense-matrix reference model within a rounding bound.",
 "C07": R + ". Compared with a dense-matrix reference model within a rounding bound.",
 "C08": R + ". The simulated MPI checks each collective for matching kind, root, counts, displacements, bounds and overlap, detects deadlock and bounds progress, under eager, rendezvous and fully synchronising implementations.",
 "C09": R + ". Compared with the value of the root and with the rank-order sum.",
 "C10": R + ". A call made wrongly by any subset of ranks must panic on each of them before reaching MPI, leaving its output as it was; the next correct call must work.",
 "C12": R + ". Chained programs compared step by step with one replicated reference state; rank crashes at any call, phase or instruction: what completed must still be right and nobody may deliver wrong data.",
 "C13": T + ". Compared with a dense-matrix reference model within a rounding bound.",
 "C14": T + ". Compared with a dense-matrix reference model within a rounding bound.",
 "C15": T + ". Compared with a dense-matrix reference model within a rounding bound.",
 "C16": T + ". 2-5 caller threads, inside and outside the pool, nested in rayon scopes and joins; every call judged as if alone.",
 "C17": T + ". Rejected and panicking calls among concurrent ones; arrays unaltered, the panic reaches its caller only, all later calls right.",
 "C18": T + ". Repeated calls must be bit-identical whatever happened before and whatever the memory held.",
 "C19": T + ". 1-D to 3-D spaces against the per-axis reference model, also the distributed kind of space on whole arrays.",
 "C20": T + ". Chains of operations against the reference model; boundary conditions and round trips follow from it at each link.",
}
na = {
 "C21": "diffmat and diffmat_pinv are pure functions of (base, size, order): there is no schedule, clock, fault or history to simulate.",
 "C22": "laplacian and laplacian_pinv are pure functions of (base, size): there is nothing nondeterministic to simulate.",
 "C23": "the stencil matrices are pure functions of (base, size): there is nothing nondeterministic to simulate.",
 "C24": "coordinates are pure functions of (base, size): there is nothing nondeterministic to simulate.",
}
checks = [{
  "property": i,
  "quick_cmd": f"./check.sh {i}",
  "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
  "evidence_file": f"evidence/{i}.json",
  "technique": "deterministic simulation with fault injection (seeded schedule and fault search over the real code)",
  "level": "exploration",
  "level_note": n,
} for i, n in note.items()]
json.dump({"version": 1, "setup_cmd": "./build.sh", "checks": checks,
  "not_applicable": [{"property": k, "reason": v} for k, v in na.items()]}, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
