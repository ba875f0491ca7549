#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LEVEL = "Seeded sampling of schedules, faults and inputs of the real library code under a deterministic simulator: a clean run is evidence over the runs it reports, not a proof. Trusts the simulator, g++'s instrumentation, libstdc++ and glibc (not preempted inside)."
TECH = {
    "C01": "deterministic simulation: seeded preemption at every library memory access, race detection, reference model",
    "C02": "deterministic simulation: seeded interleaving of readers of shared objects, write protection and race detection",
    "C03": "deterministic simulation with injected allocation failures, reference model",
    "C04": "deterministic simulation with injected allocation failures, conservation of memory over identical rounds",
    "C05": "deterministic simulation with all allocations failing, reference model",
    "C06": "deterministic simulation of object histories with freed-memory tracking, reference model",
    "C07": "deterministic simulation of histories and interleavings with held results compared after every operation",
    "C08": "deterministic simulation of long histories with faults and dirty memory, reference model",
    "C09": "deterministic simulation with locale changes as environment faults, reference model",
    "C10": "deterministic simulation with errno, FP flags and rounding mode as environment faults, reference model",
    "C11": "deterministic simulation with signal handlers delivered at arbitrary steps, reference model",
    "C12": "deterministic simulation with threads stalled for ever at arbitrary steps, progress within a step budget",
    "C13": "deterministic simulation of the process's life: seeded link orders and stages before main and during exit, reference model",
    "C14": "deterministic simulation with dirty, red-zoned memory and bounds of static and stack objects checked at every access",
    "C15": "deterministic simulation with rejected texts and allocation failures, conservation of memory, reference model",
    "C16": "deterministic simulation of senders and receivers of texts under changing locales and faults, round-trip oracle",
    "C17": "deterministic simulation of extractor histories with spoiled texts and concurrent readers, race detection, reference model",
    "C18": "deterministic simulation with a stack limit checked at every access and by canaries, long arguments, allocation failures, reference model",
    "C19": "deterministic simulation of threads that start and end, their memory gone afterwards, held results compared, reference model",
    "C20": "deterministic simulation with conversions abandoned at arbitrary steps, conservation of memory, reference model",
    "C21": "deterministic simulation with conversions made by the allocator and new-handler at seeded allocations and releases, reference model",
    "C22": "deterministic simulation with trapped floating-point exceptions as environment faults, reference model",
    "C23": "deterministic simulation with the system-call seam closed: every system call, clock, environment variable and random number intercepted",
    "C24": "deterministic simulation with the steps, bytes and memory of each call counted, bounded by its argument and compared with earlier calls of the same run",
}
NA = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
for p in props:
    if p["id"].startswith("N"):
        NA[p["id"]] = {
            "N07": "Decided by build-time configuration and the input alone; no schedule, fault, time or environment takes part, so there is nothing for a simulator to decide.",
            "N08": "A pure function of its operands, in internal code that no conversion calls; there is no schedule, fault or environment for a simulator to vary.",
        }.get(p["id"], "A pure function of its argument: no schedule, fault, history or environment takes part, so simulation would only be input generation. Its independence of those is what C01, C03 and C08 to C11 decide, with a reference model of the result.")
m = {
    "version": 1,
    "setup_cmd": "python3 tools/selftest.py",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "python3 check.py check " + p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py check " + p["id"],
        "technique": TECH[p["id"]],
        "level": "exploration",
        "level_note": LEVEL,
    } for p in props if p["id"].startswith("C")],
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "No hooks in /repo: the seams are compiler instrumentation callbacks, operator new/delete and link-time wrapping, all in /verif/sim. Repairs are listed in known-findings.txt. A replay file is run again with: python3 check.py replay FILE",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
