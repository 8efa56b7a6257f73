"""Writes MANIFEST.json from the registered checks."""
import json, os, sys
sys.path.insert(0, "sim")
import checks
props = [json.loads(l) for l in open("properties.jsonl")]
T = "deterministic simulation with fault injection: "
NOTE = {
 "C01": "seeded schedules (random, PCT, permuted) over the simulated OpenMP workers, preempting between instrumented memory accesses; bit-for-bit comparison with one worker",
 "C02": "vector-clock race detector inside the simulated OpenMP runtime over seeded schedules; every instrumented access of every worker",
 "C03": "the same seeded history in simulated surroundings: heap contents, clock, entropy, stack contents, parameter order, earlier activity",
 "C04": "save, simulated crash, load in another process over another model, both continue under one seed; compared operation by operation",
 "C05": "fault at every kind of stream operation and at seeded byte positions during save and load, process killed right after; success implies a complete, loadable file",
 "C06": "invariants after every operation and an independent numerosity account of every trial",
 "C07": "independent recomputation of every vote, covering and action choice",
 "C08": "independent recomputation of every update from a forked copy of the process",
 "C09": "independent account of when evolution is due, of the offspring and of every removed rule",
 "C10": "store/retrieve inside seeded histories against the recorded state; callbacks against a reference model",
 "C11": "simulated processes sharing one directory, interleaved at file operations by the seeded scheduler, with file faults; unpickled model compared and continued",
 "C12": "interleaved calls on several models in one process against each model alone",
 "C13": "seeded histories under the address sanitizer with poisoned fresh memory; all allocations and files accounted for at the end",
 "C14": "spy between the program and its environments: every reset, step and reward judged against an independent model of the problem",
 "C15": "input files delivered in seeded chunks, with read errors at seeded bytes and with seeded inconsistencies",
 "C16": "export and import between simulated processes; rules and predictions compared",
 "C17": "the same history with and without evaluations inserted at seeded places",
 "C18": "simulated step budgets for every operation, over accepted configurations including extreme ones, with all random draws seeded",
 "C22": "every returned error, printed line, metric and statistic in seeded histories against the same trials run one by one from a forked copy, and against the exported rules",
 "C23": "rules and networks before and after each restructuring anywhere in seeded histories, with saving, loading, storing and retrieving around it, heap contents adversarial; predictions of converted models must be probabilities",
 "C24": "every rule against the bounds of its configuration after each call of seeded histories over all combinations of evolvable traits; chains of crossover and mutation on rules of the reached populations in a forked copy of the process",
 "C25": "the same history with and without refused calls and calls failing on injected disk errors, inserted at seeded places between and within operations; all later results compared bit for bit",
}
NA = {
 "C19": "a pure function of its arguments: no schedule, clock, I/O, crash or history for simulation to vary; input generation against formulas would be a different technique",
 "C20": "a pure geometric predicate of one condition and one input, without concurrency, time, I/O or history",
 "C21": "a pure function of prediction and target, without concurrency, time, I/O or history",
}
out = {"version": 1, "setup_cmd": "python3 check.py setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        out["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough", "technique": T + NOTE[i], "level": checks.CHECKS[i].level, "level_note": "seeded search over simulated histories, schedules and faults; clean runs are evidence over what was sampled, not a proof"})
    else: out["not_applicable"].append({"property": i, "reason": NA.get(i, "its simulation is not built yet")})
json.dump(out, open("MANIFEST.json", "w"), indent=1); open("MANIFEST.json", "a").write("\n")
