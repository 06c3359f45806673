#!/usr/bin/env python3
"""Writes MANIFEST.json. The ids in CLAIMED have checks; the reasons in NA cover the rest."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
T = "deterministic simulation with fault injection: "
CLAIMED = {
 "G01": ("seeded multi-editor sessions over a simulated network, invariants after every delivered request",
         "Every request delivered in tens of thousands of seeded sessions is followed by a full well-formedness and query-against-list check. Sampling, not exhaustive."),
 "G02": ("seeded multi-editor sessions, planarity invariant in double precision after every delivered request",
         "Planarity of the whole drawing is recomputed from the observed lists after every request. Requests whose geometry is neither coincident nor clearly separated are left out, so behaviour in that band is not judged."),
 "G03": ("seeded multi-editor sessions, each addition checked against a reference planner in double precision",
         "Each addition is compared with what an independent planner says the drawn linework must become. The unclear geometric band is left out."),
 "G04": ("seeded multi-editor sessions, each removal checked against a reference model, invariant to renumbering",
         "Each removal's result is compared, as a set of positions and drawn edges, with a reference. Indices may be renumbered in any way."),
 "G05": ("seeded sessions with views following change reports over a network that delays, duplicates, loses and reorders",
         "A mirror refreshed from each report alone must equal the graph at once; late views must equal it once all reports have arrived."),
 "G06": ("seeded sessions with stale, redundant and out-of-range requests, bit-for-bit comparison of the state before and after",
         "Every request that must be refused or do nothing is compared bit for bit, order included, and so is every query."),
 "G07": ("replicated log over simulated threads, preemption inside library calls, crash and restart from copies, standard-output faults",
         "Replicas on threads of their own (own hash seeds, own schedules) are compared bit for bit at every log position. Executions are sequentially consistent."),
 "G08": ("seeded multi-editor sessions, payload of every node and edge traced through every edit",
         "Payloads carry unique tags, so each surviving or new element is attributable to one request."),
 "G09": ("seeded branching histories over up to six live copies, bit-for-bit comparison of all unedited copies after every call",
         "Copies that have had the same history must also behave the same afterwards; sampling of histories."),
 "F01": ("loads on a simulated disk: short reads, interruptions, wrong sizes, slow devices, two concurrent loaders; field-by-field reference",
         "The document written by the harness is compared field by field with the one loaded; real serde_json and std file code run."),
 "F02": ("loads on a simulated disk with hard errors at every call position, followed by a fault-free load",
         "The injected errno must be the one returned. Sampling over call positions and errnos."),
 "F03": ("loads of documents torn, zeroed, bit-flipped and mistyped by a simulated storage, judged by an independent reading of the bytes",
         "Trusts serde_json's untyped parser as the reference for what bytes are valid JSON; the typed interpretation is our own."),
 "F04": ("save/load generations with crashes of the saver at any system call on a simulated disk with un-synced state",
         "Documents with finite numbers; the saver (temporary file, fsync, rename) is the harness's, serialisation and loading are the library's."),
 "F05": ("loads scheduled against atomic replacements of the file on a simulated disk",
         "Every version is unique, so each load is attributable to one version and its life time in the simulated event order."),
 "F06": ("loads on a simulated disk under every fault kind, with descriptor accounting and modification recording",
         "All libc file entry points the standard library uses are intercepted; a raw syscall instruction in the library would be missed."),
 "S01": ("scripts over the whole library run with healthy and with faulty standard output, results compared bit for bit",
         "Faults at the write system call, with the real buffering and locking of the standard library above it."),
 "T01": ("scripts on two to four real threads under a seeded scheduler preempting inside library calls, against sequential execution",
         "Sequentially consistent interleavings at basic-block granularity; Send and Sync are checked at compile time by a probe."),
 "E01": ("scripts over the whole library in seeded surroundings (clock jumps, environment, memory contents and places, other work in between), against a fresh process",
         "The reference is the library itself in a forked process that has done nothing before; what is wrong everywhere alike is for the other properties."),
 "R01": ("scripts repeated for up to 2048 rounds with output and storage faults, resources accounted at every doubling",
         "Growth is judged over eight or more doublings; what grows more slowly than once in every doubling, or starts later, is not seen."),
 "X01": ("scripts over the whole library in seeded surroundings with failing storage and output, calls with effects outside recorded at the seams and process-wide state compared after every step",
         "Effects made through libc entry points are seen as calls, others only if they change the compared state; a change undone within the same call is seen only at the seams."),
}
NA = {
 "M01": "a pure function of its arguments: no schedule, clock, fault or interleaving can affect it; generating inputs would be property testing, not simulation",
 "M02": "a pure function of its arguments: no schedule, clock, fault or interleaving can affect it",
 "M03": "a pure function of two integers: nothing for a simulator to decide",
 "P01": "a pure function of the polygon: nothing for a simulator to decide (that its result is the same under stdout faults and threads is S01 and T01)",
 "P02": "a pure function of the polygon: nothing for a simulator to decide (that its result is the same under stdout faults and threads is S01 and T01)",
 "U01": "pure functions of a few points: nothing for a simulator to decide (as used by graph edits they are covered through G02 and G03)",
 "F07": "a statement about the document type, decided by reading the field list against the format: no schedule or fault is involved",
}
import sys
have = [p["id"] for p in props]
claimed = [i for i in have if i in CLAIMED and i not in sys.argv[1:]]
m = {
 "version": 1,
 "setup_cmd": "./check.sh --build",
 "checks": [{"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
             "evidence_file": f"evidence/{i}.json", "technique": T + CLAIMED[i][0], "level": "exploration",
             "level_note": CLAIMED[i][1]} for i in claimed],
 "not_applicable": [{"property": i, "reason": NA.get(i, "check under construction")} for i in have if i not in claimed],
 "notes": "No hooks in /repo: every seam is at link time (libc entry points, global allocator, compiler-inserted block counters) in the harness executable. See DESIGN.md.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
