#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. CLAIMED lists the properties with a working check; the others go to not_applicable."""
import json, os, subprocess
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
PBT = "property-based testing (proptest strategies, shrinking): "
T = {
 "C01": ("generated measurements vs. an independent reference classifier", "Random search over measurements and sizes, aimed at every band and its edges; verdicts within 1e-9 of an edge are not decided."),
 "C02": ("generated measurements vs. an independent reference classifier", "Random search over measurements and sizes, aimed at every band and its edges; verdicts within 1e-9 of an edge are not decided."),
 "C03": ("metamorphic relations between analyses of related measurements", "Random search over pairs of related inputs; no reference model involved."),
 "C04": ("stateful histories of allocator operations vs. a counting model", "Random histories on private allocator instances, real refusals by the system included."),
 "C05": ("stateful histories of save points, heap operations and reads vs. a level-history model", "Random histories, buffer capacities 1..1024, wrap-around included."),
 "C06": ("stateful histories over real blocks vs. a shadow of their contents", "Random histories on private instances and on the installed global allocator."),
 "C07": ("generated schedules over a model build with instrumented atomics, plus generated real-thread stress", "Random interleavings at single atomic accesses under an owned scheduler (sequentially consistent values, happens-before checked); real threads on top."),
 "C08": ("stateful histories of enqueue/consumer/dequeue/peek vs. a queue model", "Random histories over many buffer sizes and laps."),
 "C09": ("stateful histories driving consumers beyond capacity vs. a queue model with sticky failure", "Random histories over many buffer sizes, laps and offsets."),
 "C10": ("generated schedules over a model build with instrumented atomics, plus generated real-thread stress", "Random interleavings at single atomic accesses, spurious compare-exchange failures and happens-before checking included; real threads on top."),
 "C11": ("stateful histories with ownership-tracked elements over poisoned storage vs. a drop ledger", "Random histories; crashes of the worker process are caught and reported with their case."),
 "C12": ("generated configurations; exactly-once / contiguity / barrier oracle over the call log", "Random iteration and thread counts on real threads."),
 "C13": ("generated configurations; stage-sequence model over the call log", "Random configurations, including huge counts and zero threads or iterations."),
 "C14": ("generated cost assignments under a virtual clock; returned measurements vs. charged costs", "Random costs per operation, pass and stage; verdicts recomputed by the reference classifier."),
 "C15": ("generated histories of per-attempt costs under a virtual clock; decision model over the call log", "Random cost functions, limits and attempts; outcomes close to the edge of a band are not decided."),
 "C16": ("generated histories of per-attempt costs under a virtual clock; decision model", "Random costs, limits and retries; sleeps are intercepted."),
 "C17": ("generated histories of per-attempt costs under virtual & paused clocks; decision model", "Random costs, limits present or absent, retries."),
 "C18": ("generated builder configurations; data-flow model over the stage log", "Random subsets of stages, suspensions and retries; data tracked by identity."),
 "C19": ("generated sequences of time and heap steps under a virtual clock; parsed report / returned analysis vs. charged costs", "Random step sequences inside and outside of passes; multi-threaded passes included."),
 "C20": ("generated analyses; displayed text parsed back and compared (round-trip)", "Random measurements, sizes, verdicts and names."),
 "C21": ("generated fault positions; propagation, log and follow-up oracle", "Random panic positions over stages, elements, threads and attempts."),
 "C22": ("generated feature subsets, each compiled with a probe program; differential oracle over streams, tolerance and statistics", "Random subsets (all 128 in the thorough tier), each really built and run."),
 "C23": ("generated values, units and interleavings; displayed text parsed back (round-trip)", "Random values over the whole magnitude range and around every threshold."),
 "C24": ("generated sets of measurers and event sequences; call-log model", "Random measurers, suspensions and rounds, directly and through the measured run."),
 "C25": ("generated combinations of analyses (sequences, nesting, threads, joined futures, polled by one or several threads) under virtual clocks; decision model per analysis", "Random combinations and turns; heap verdicts only where a single analysis runs at a time."),
 "C26": ("generated analyses, panics and cancellations, executed repeatedly; drop counts, threads, files and heap level of the process compared before & after", "Random positions of panics and cancellations; leaks are only seen if the heap grows in every few of 7 to 40 runs."),
}
CLAIMED = open(os.path.join(here, "claimed.txt")).read().split()
NA = {}
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "cfg(big_o_verif)", "enable": "RUSTFLAGS='--cfg big_o_verif' cargo build (check.sh does it)", "source_commits": ["4850410dc14727b53abd28759a066f13c29711e7", "840bb17add9f42bcc8c31724a4eda93ea460b566"]},
     "checks": [], "not_applicable": [], "notes": "See DESIGN.md. ./check.sh <ID> builds everything it needs from /repo's working tree; ./check.sh replay <file> re-runs one saved case."}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        m["checks"].append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}", "evidence_file": f"evidence/{i}.json",
                            "technique": PBT + T[i][0], "level": "exploration", "level_note": T[i][1] + " Exploration: it shows presence, never absence, of violations."})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
