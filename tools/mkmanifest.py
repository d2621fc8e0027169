#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)) + "/..")
T = "deterministic simulation with fault injection: seeded search over "
COMMON = (" Sampling, not proof: a clean batch is evidence for the schedules, faults and inputs explored. Real code: rphonetic, "
          "lazy_static, regex, std (threads, once, files) run unmodified; simulated: scheduler, futex, file system calls, clock, "
          "randomness, allocator. Preemption points are the basic blocks, loads and stores of the instrumented crates under "
          "sequential consistency (weak memory orders are not simulated).")
C = {
 "C01": ("storage error sequences during loads", "Every operation class of a load is failed with every errno class, singly, in windows and for good; success is compared with an undisturbed load in another process on generated and on the shipped (commons-codec) rules."),
 "C02": ("listing orders, read splits, interruptions, metadata lies and decoy entries during loads", "Loads of complete directories under harmless storage behaviour must succeed and give the codes of a plain load in another process."),
 "C03": ("histories and interleavings of failing, repaired, repeated and concurrent loads", "Each load and build is compared with the same files loaded alone in a fresh process."),
 "C04": ("storage changes and failures after a load, with concurrent encodings", "Every storage operation of an encoding is a violation; codes are compared with an undisturbed process."),
 "C05": ("storage errors and include structures during loads, over the recorded operation log", "Mutating calls, open handles, live heap and the number of operations are checked for each load."),
 "C06": ("damaged lines in served files", "The location in the error is compared with the line map of the damaged text."),
 "C07": ("disk damage (torn, stale, misdirected, flipped, duplicated, changed while read) in served files", "Acceptance and codes are compared with an independent model of the rule language and engine."),
 "C08": ("thread interleavings of calls through shared, cloned and separately built encoders", "Every call is compared with the same call alone in a fresh process."),
 "C09": ("thread interleavings of very first calls and loads in a cold process", "Every call is compared with the same call alone in a fresh process; deadlock and livelock are violations."),
 "C10": ("call histories with panics, failed allocations, thread churn, rebuilds and clock jumps", "Every call is compared with the same call alone in a fresh process."),
 "C11": ("stalls, hangs and deaths of threads inside calls and loads", "All other threads and newcomers must finish within a step bound (bounded liveness) with their values right."),
 "C12": ("crash points, torn writes and restarts of saved settings", "Restored values are compared with the values saved; torn snapshots must be refused or equal a saved state."),
 "C13": ("replica configurations (hash keys, memory layout, clock, listing order, threads, previous work)", "Codes of replicas are compared with each other."),
 "C14": ("long call histories with panics, failures, reloads and thread churn", "The live heap of the library is measured between rounds; sustained growth is a violation."),
}
NA = {
 "C15": "Pure function of the input string (and settings): no schedule, clock, fault, storage or second party takes part, so there is nothing to simulate. Where panics interact with state it is covered by C08 and C10.",
 "C16": "Length and alphabet of a code are a pure function of the input; no interleaving, fault or history to explore.",
 "C17": "Agreement with another implementation is a pure function of the input; there is no Java here to compare with and nothing to simulate.",
 "C18": "Relation between results of pure functions; no fault, schedule or history in it.",
 "C19": "Metamorphic relation between two inputs of a pure function; no fault, schedule or history in it.",
 "C20": "Algebra of values in memory; no fault, schedule or history in it.",
 "C21": "Pure function of a string and a range; no fault, schedule or history in it.",
 "C22": "Pure function of rules and input; the comparison with the rule model in C07 touches it on damaged rules only.",
 "C23": "Pure function of rules, settings and input; the comparison with the rule model in C07 touches it on damaged rules only.",
 "C24": "Equivalence of two matchers over strings, a pure function; no fault, schedule or history in it.",
}
props = [json.loads(l) for l in open("properties.jsonl")]
ids = [p["id"] for p in props]
assert sorted(ids) == sorted(list(C) + list(NA)), ids
m = {"version": 1, "setup_cmd": "./run.sh build", "checks": [], "not_applicable": []}
for i in ids:
    if i in C:
        t, n = C[i]
        m["checks"].append({"property": i, "quick_cmd": f"./run.sh {i} --tier quick", "thorough_cmd": f"./run.sh {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json", "technique": T + t, "level": "exploration", "level_note": n + COMMON})
    else:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
m["notes"] = ("No hooks in /repo: the seams are LLVM coverage callbacks (a RUSTC_WRAPPER of the harness build only), interposed libc calls and "
              "the global allocator. Replay: ./run.sh --replay FILE. Findings: known-findings.txt.")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
