#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTE = {
 "C01": "value sequence of every coroutine compared with the reference model after every transfer; seeded schedules, threads, faults, all value kinds and ways of passing",
 "C02": "identity and payload of 16 referred objects compared with a model after every read and write; any copy, move or destruction of one is a violation",
 "C03": "every control transfer must be the one the model predicts (token per transfer), frames carry canaries at every depth, entry counted, stack region checked",
 "C04": "validity of every handle compared with the model after every operation, inside and outside, in every state",
 "C05": "45 dynamic exception types with identity; model predicts the operation that throws and the exception; __cxa_eh_globals compared around every operation",
 "C06": "locals of every frame booked; order, completeness and time of unwinding checked against the model, with nested ownership, destruction from handlers, from unwinding and from other threads",
 "C07": "every stack booked from allocation to release (once, right allocator, right context, after the function was left, no live object inside), with failing user allocator, malloc and mmap",
 "C08": "red zones, guard pages, poisoned and reused stacks at odd alignments and sizes; usable size probed; alignment of stored values checked",
 "C09": "every value object booked; conservation at every release of a handle and at the end, with copies and moves that throw",
 "C10": "every copy of the callable booked, checked at every resume; 18 forms of callable; copying may throw",
 "C11": "handles moved, assigned over and self-assigned in every state; model checks source, target and the coroutine replaced",
 "C12": "iterators of both directions compared with the model at every step and at the end, inside and outside of coroutine functions",
 "C13": "faults injected into stack allocation, operator new, copies and moves inside library operations; model checks the exception, that nothing was entered, and that the next push delivers",
 "C14": "up to three real threads under a seeded scheduler, pre-emption and nested operations in the middle of library operations, pre-emption at single memory accesses of library code; the complete oracle of the model applies",
 "C15": "random observation sequences between resumes must leave event log and values unchanged; one known finding (get() moves the value out)",
 "C16": "random compositions of generators, filters, sinks and recursion against a coroutine-free evaluation, cut off at random points by destruction, overwriting, exceptions and failing stacks",
 "C18": "built with split stacks and the ucontext backend: frames of 40 B to 1.2 MB entered, suspended, resumed by other threads, left, thrown through and unwound in a seeded order; a ledger of all memory mappings says whose segment every frame lies in and that none is left",
}
NA = {
 "C17": "a type-level fact (copyability, noexcept, explicitness) with no schedule, fault or interleaving in it: nothing to simulate",
}
m = {
 "version": 1,
 "setup_cmd": "python3 check.py build quick",
 "checks": [],
 "not_applicable": [],
}
for p in props:
    i = p["id"]
    if i in NA:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
        continue
    m["checks"].append({
        "property": i,
        "quick_cmd": "python3 check.py %s --tier quick" % i,
        "thorough_cmd": "python3 check.py %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "deterministic simulation with fault injection (seeded schedule and fault search, lock-step reference model)",
        "level": "exploration",
        "level_note": NOTE[i],
    })
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
