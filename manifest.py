#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per explorer in mc/src/bin; properties without one are listed as not applicable."""
import json, os
D = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(D, "properties.jsonl"))]
BFS = "explicit-state model checking of the implementation: breadth-first enumeration of real trees, lock-step with a reference model"
N = {
 "C01": (BFS, "Exhaustive within bounds: the complete reachable state space over 10-13 keys for eight node configurations, plus every operation sequence up to a depth from tall, ragged and emptied trees. Trusts the fingerprint used to merge states (equal comparison traces of linear lookups) and that values are opaque."),
 "C02": (BFS, "In every explored tree: every pair of bounds over every key and gap, and for each the full grid of front/back steps. Same state spaces and trust as C01."),
 "C03": (BFS, "In every explored tree: every pair of bounds, grids of front/back steps, and writes checked against a model. Same state spaces and trust as C01."),
 "C04": (BFS + "; consuming iteration from every state", "In every explored tree: every number of front and back steps in both orders, every interleaving for short maps, exact lengths, and release of the rest through counted elements."),
 "C05": (BFS + "; every ordered pair of states merged", "Every pair of trees from complete small state spaces, and tall trees with each other, through every merging operation; the merging iterator over every pair of small ascending sequences; every input sequence up to a length for loading, collecting and extending; the results then undergo every operation sequence up to a depth."),
 "C06": (BFS + "; life-cycle ledger and allocation balance monitored on every execution", "Every history within the bounds is rebuilt with elements that record their birth and death; stray use, double destruction, early destruction and leaks of elements and of allocations are counted exactly. Stray reads that never surface as an element are left to the poisoned allocator."),
 "C07": ("exhaustive enumeration of histories over several handles on real maps, against one reference model per handle", "From every explored tree: every operation on either side of a clone, and every sequence of clone/modify/drop over up to three handles to a depth, all other handles compared in full after each step."),
 "C08": (BFS + "; state space explored through entries", "In every explored tree, every key's entry through every method and chains of them. Same trust as C01."),
 "C09": (BFS + "; all configurations and element layouts in lock-step", "Every operation sequence up to a depth runs in lock-step over configurations, ownership modes and element layouts, from empty and tall trees; results must agree with each other and the model."),
 "C10": (BFS + "; all pairs of states compared", "All pairs of trees with the same contents, and of trees with different contents, against the standard library's map; also maps of floats."),
 "C11": (BFS + "; every invalid argument in every state", "Every pair of bounds, valid and not, in every explored tree; every sequence up to a length for bulk loading in both build profiles."),
 "C12": ("fault enumeration: a panic injected at every call into user code of every operation in every explored state", "Every panic point of every operation from every state within bounds; ledger, poisoned allocator and follow-up operations decide. Memory errors that neither crash, surface as an element nor unbalance the ledger would be missed."),
 "C13": ("controlled scheduler: every interleaving within a preemption bound of threads over clones of real maps; trait matrix decided by the compiler", "Interleavings are at the granularity of operations and of calls into user code (comparison, cloning, destruction); within code that makes no such call, memory shared with clones is watched after every machine instruction (only atomic ones may write to it) and a preemption is placed between any two instructions of short scenarios. std's Arc and sequential consistency are trusted."),
 "C14": ("exhaustive sweep over sizes and growth/drain orders of the real map", "Every size up to a bound for every growth and drain order and configuration, plus sizes around every level boundary up to more than sixteen levels."),
 "C15": ("fault enumeration: every placement of one or two wrong comparison answers in every operation of every explored state", "Every single wrong answer, and pairs of them, with ledger, aliasing and termination monitors. Same trust as C12."),
 "C17": (BFS + "; bytes held counted on every state, and in exhaustive sweeps over sizes, growth and drain orders, moving windows and reading operations", "Bytes are counted exactly by the allocator; the bounds allow a small constant factor over half-full nodes, so waste below that is not reported."),
 "C16": (BFS + "; cost counters monitored on every transition", "Comparisons and clones are counted exactly on every transition; the bound allows a constant factor, so only a growth beyond it is reported."),
}
N["C18"] = ("exhaustive enumeration of client programs up to a number of statements against a state model of live borrows; every verdict of the model compared with the compiler's on the real crate",
  "Every program of 2 and 3 statements over the whole public interface, of 4 over its representatives (thorough: 4 and 5), each accepted or refused by the model and by the compiler. Trusts rustc's borrow checker; longer programs, and signatures the operation table does not name, are not tried.")
N["C19"] = ("exhaustive enumeration of trees, operations, faults and thread orders on the real code, each executed under an interpreter that checks every access to memory",
  "Smaller bounds than elsewhere, as the interpreter is slow: every tree over 3-4 keys (thorough: 5-7) and tall seeds, every fault of single operations, every order of two steps each of two and three threads. Trusts Miri; its experimental aliasing models are not part of the property.")
done = {f[:-3].upper() for f in [x for c in ("mc", "programs") for x in os.listdir(os.path.join(D, c, "src/bin"))]}
LEVEL = {"C12": "fault_enumeration", "C15": "fault_enumeration"}
m = {"version": 1, "setup_cmd": "python3 check.py setup",
     "checks": [{"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                 "technique": N[i][0], "level": LEVEL.get(i, "model_checking"), "level_note": N[i][1]} for i in ids if i in done],
     "not_applicable": [{"property": i, "reason": "no check yet: its explorer is still being built"} for i in ids if i not in done],
     "notes": "No hooks in /repo are needed: everything is observed through the public API, instrumented element types and an allocator of the harness."}
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
