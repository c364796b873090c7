#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = {
"C01": ("seeded simulation of call schedules (source/sink stalls, trickles, bursts, late EOF); differential against the one-call run", "Sampled schedules over all converters, channel counts and ratios; bit-exact for sinc. Trusts that the one-call run is right (C03 checks it against a model)."),
"C02": ("seeded simulation of pull, push and one-shot clients of one source; equality of histories", "Sampled read/block schedules; the push client does the documented pull loop. Ties of output instant and end of input may differ by one frame."),
"C03": ("seeded simulation of clock-skew trajectories; refinement against an executable reference model", "Every call of every run is compared with the model (own copy of the filter tables): counts, consumption, values within float accuracy. After a large ratio drop late in a stream the tolerance grows by what dropped history could contribute."),
"C04": ("seeded simulation of mixed histories on exact-size arrays under AddressSanitizer/UBSan or between canaries; contract checks on every call", "Memory errors are found only on executed paths; the optimised build is checked with canaries."),
"C05": ("seeded simulation of a client that rewrites, shortens and discards unread input; twin offered only what was consumed", "Sampled schedules; arrays are freed after each call."),
"C06": ("seeded simulation of every manner of ending a stream; conservation and tail law", "Sampled; constant ratio (the statement's scope). Totals N*r to within one frame, tail against the model."),
"C07": ("deterministic step budgets (executed blocks) and bounded-progress checks under stalling and misbehaving sources", "Liveness as bounded progress: block counts per call, callback requests per read, completion in bounded calls once the environment is fair."),
"C08": ("seeded simulation of checkpoint/crash/resume by src_clone; bit-exact against an uninterrupted run", "Sampled traffic, clone and deletion points."),
"C09": ("seeded simulation of resets at arbitrary points; bit-exact against a fresh converter", "Sampled traffic; also after refused calls, ends of input and clone swaps."),
"C10": ("fault injection: every n-th allocation of every creating call fails, inside random histories; undisturbed twin", "All allocation indices of the creating calls are enumerated at the sampled points; conversion runs with no memory available."),
"C11": ("seeded simulation of converter lifecycles with an ownership ledger in the allocator seam", "Every block has an owner; wrong, double, missing and late frees and growth are detected on sampled lifecycles."),
"C12": ("fault injection of invalid calls at random points; documented error texts and undisturbed twin", "24 kinds of invalid call at sampled points of push and pull streams."),
"C13": ("simulated threads preempted at scheduler-chosen blocks of library code; solo-run equality and happens-before race detection", "Sequentially consistent interleavings at basic-block granularity with every load and store checked by vector clocks; weak-memory effects are covered only through the race detector. Library code using thread-local storage or its own locks would need additional seams."),
"C14": ("seeded simulation: M-channel stream against one-channel streams under other schedules; corrupted-channel isolation", "Three sampled channels per run; values to 1e-6 of peak, isolation bit-exact."),
"C15": ("fault injection of corrupt samples; clean twin in lockstep", "Timing equal call by call; changes only inside the filter window (plus 1.5 frames), bit-exact outside."),
"C16": ("the same scenario in several simulated environments (heap contents, placement, recycling, stack, clock, environment); bit-exact", "Three environments per run. The libc math functions are the real ones."),
"C17": ("simulated hours of audio under constant and steered clocks; output positions measured from the signal against the exact sum of 1/ratio", "Position of outputs to 1e-3 frame (scaled by 1/ratio below one) on average and per sample; streams beyond 2^31 input frames and an hour of output for the cheap converters."),
"C18": ("callback protocol monitor in simulated pull streams with reclaimed blocks and nested converters", "Every request compared with the documented loop; sampled schedules."),
"C19": ("seeded simulation of src_set_ratio at random points in both interfaces; reference model", "Every call compared with the model; sampled histories."),
}
NA = {
"C20": "pure element-wise functions: no schedule, fault, clock, I/O or interleaving exists for a simulator to decide; exhaustive or symbolic checking would be the fitting family, not this one",
"C21": "a numerical quality figure of fixed filter tables for band-limited input; nothing about it depends on schedules, faults or time (that the tables are applied as the law says is C03)",
"C22": "constant lookup tables: total functions of one integer with no state, schedule or fault (the error texts actually returned are checked in C10 and C12)",
}
m = {"version": 1, "setup_cmd": "python3 sim/build.py",
     "checks": [{"property": p, "quick_cmd": "python3 run_check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 run_check.py " + p,
                 "evidence_file": "evidence/%s.json" % p, "technique": "deterministic simulation with fault injection: " + t, "level": "exploration", "level_note": n} for p, (t, n) in sorted(T.items())],
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())],
     "notes": "No hooks in /repo: the seams are the public API, the callback, symbol renaming of the compiled library objects and compiler-inserted block hooks. Replay: python3 run_check.py --replay replays/<file>. Determinism self-test: python3 run_check.py --determinism."}
json.dump(m, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json"), "w"), indent=1)
