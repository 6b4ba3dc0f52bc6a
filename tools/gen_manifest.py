#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = "exhaustive bounded enumeration of operation histories on the real crate against a set model"
claimed = {
 "C01": (H, "every layer of every commit tree in the bound, all query forms incl. the whole id cube; bounded by alphabet, depth and size sweeps"),
 "C02": (H, "bijection and stability of ids on every layer of every commit tree in the bound"),
 "C03": (H, "all delta query forms on every layer of every commit tree in the bound"),
 "C04": ("exhaustive enumeration of builder request sequences and of thread schedules on the real crate", "all request sequences in the bound"),
 "C05": (H, "all placements of rollups (pairs, triples on selected chains) in commit chains"),
 "C06": (H, "all squashes of all chains in the bound"),
 "C07": (H, "all pairs and triples of base layers in the bound, all orders"),
 "C08": (H, "all export/import subsets of a five layer tree across store kinds"),
 "C09": (H, "all ordered pairs of layers in the bound"),
 "C10": (H, "all operation sequences in the bound on every store kind, canonical states compared, also in a second process"),
 "C11": ("exhaustive exploration of thread schedules up to a preemption bound on the real crate under a controlled scheduler; linearizability decided by search", "2-3 threads, scripts of 1-4 label operations, three label stores, bounds 1-3"),
 "C15": ("exhaustive exploration of thread schedules up to a preemption bound on the real crate under a controlled scheduler; exhaustive crash points of rollups", "rollups against readers and writers, shared and separate stores; all crash points with all admissible post-crash states"),
 "C19": ("exhaustive exploration of thread schedules up to a preemption bound on the real crate under a controlled scheduler", "pairs of all store operations at every operation order and blocking choice; preemptions in selected pairs and triples"),
 "C12": ("exhaustive enumeration of head update histories and schedules on the real crate", "all histories in the bound on all label stores"),
 "C13": ("exhaustive enumeration of crash points and admissible post-crash file system states of recorded histories of the real crate", "all crash points of the last operation of every history in the bound; unsynced subsets exhaustive when few, else bounded deviations"),
 "C14": ("exhaustive enumeration of crash points and admissible post-crash file system states of recorded histories of the real crate", "as C13, with the interrupted operation repeated and further operations run after every crash state"),
 "C16": ("exhaustive enumeration of single fault placements (thorough: pairs) over every file system call of every operation of the real crate", "every call of 23 operations on four store kinds, all error kinds per call"),
 "C17": ("exhaustive exploration of poll orders, backend answers, errors and dropped reads of the archive cache of the real crate; thread schedules up to a preemption bound", "2-4 readers of 1-3 layers over a scripted backend; every poll order, answer order, failure and abandonment in the bound"),
 "C18": ("exhaustive exploration of poll orders, backend answers, errors and dropped reads of the archive cache of the real crate; all operation sequences compared with an LRU model", "as C17 with a limit; all operation sequences up to the depth against a model of the cache"),
 "C20": (H, "handles and iterators re-observed after every later operation"),
 "C21": (H, "all label/layer histories in the bound with listings, stray files, reopening"),
 "C23": ("exhaustive exploration of the suspension points at which an operation of the real crate is dropped, and of the order in which its left-over blocking tasks and other operations go on", "27 operations on five store kinds, dropped at every suspension point (quick: one per class of points without visible change between them), preemptions in selected pairs"),
 "C22": (H, "all tree shapes in the bound, all pairs of layers"),
}
extra = os.path.join(root, "tools", "manifest_extra.py")
na = {}
hooks = ["73c27f0750879c56ead4a9c56afb7a0fa116a9f9", "029e2e6241c837c9ce759933d71a7ba93b977669"]
if os.path.exists(extra):
    exec(open(extra).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "bash setup.sh",
 "hooks": {
  "guard": "cfg(terminus_mc)",
  "enable": "mc/.cargo/config.toml passes --cfg terminus_mc in rustflags when building /repo as a path dependency",
  "source_commits": hooks,
 },
 "checks": [],
 "not_applicable": [],
}
for i in ids:
    if i in claimed:
        t, n = claimed[i]
        m["checks"].append({
         "property": i,
         "quick_cmd": f"bash check.sh {i}",
         "thorough_cmd": f"bash check.sh {i} --thorough",
         "evidence_file": f"evidence/{i}.json",
         "technique": t,
         "level": LEVELS.get(i, "model_checking") if "LEVELS" in globals() else "model_checking",
         "level_note": n,
        })
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, "machinery not built yet (see DESIGN.md)")})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
