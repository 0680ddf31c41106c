#!/usr/bin/env python3
"""Writes MANIFEST.json: which properties are claimed, and why the others are not."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(f"{here}/properties.jsonl") if l.strip()]
done = set(re.findall(r'id: "(C\d\d)"', open(f"{here}/sim/src/runs/mod.rs").read()))
NOTE = {
    "C01": "Seeded runs of the real MetadataCommand::exec (and std::process under it) against simulated cargo processes that fail, die, stall and garble; the outcome is compared with what the process did.",
    "C02": "Seeded runs of the real exec against simulated processes over bounded pipes; hangs are found by the simulated kernel (nothing can run any more), leaks by its tables of descriptors and processes.",
    "C03": "What reaches posix_spawn, as the simulated kernel sees it, against what was asked for, in two orders of the settings, with other clients running.",
    "C04": "The same world reported in different emission orders, and with declarations in different order, must give equal graphs.",
    "C05": "A ledger of every package, node and edge value, in runs in which callbacks panic at a drawn point.",
    "C06": "Crates and kept dependencies against a small fixpoint model, over histories of edits, faults and concurrent builds.",
    "C07": "Enabled features against a small fixpoint model, over histories of edits, faults and concurrent builds.",
    "C08": "A cargo that loses features and an index that is complete, partial, stale or wrong, against the model.",
    "C09": "Root selection against the model with a simulated filesystem whose links, contents and failures are drawn, also while clients run.",
    "C10": "Decoding from simulated streams that are cut, interrupted, fail, end early or are damaged, against an independent reading of the document.",
    "C11": "A simulated disk with short, failing and torn writes and crashes; what is reloaded against what was stored.",
    "C12": "Concurrent clients on one graph, with open iterators, against a sequential model made from the raw nodes and edges.",
    "C13": "Each build of a run with interference against the same build in a pristine process.",
    "C14": "Which error each build that can not give a graph gives, and that no callback ran.",
    "C16": "The links between crates and features of a graph against the model, over histories of edits, faults and concurrent builds.",
    "C17": "Documents acquired from simulated processes, texts and streams, shared by clients, and asked while the workspace, its files and the cargo change; every answer against the document cargo printed.",
    "C15": "Graphs of the same world as reported by different generations of cargo.",
}
NA = {
    "N01": "A pure function of a string: no schedule, time, I/O or second party takes part, so there is nothing to simulate. (Specs the grammar allows are used, and their effect on the graph is decided, in C06 and C14.)",
    "N02": "Slicing a string at positions computed from it: a pure function, no schedule, time, I/O or second party takes part. (That identifiers of every generation of cargo are understood is decided as part of C15.)",
    "N03": "A pure function of a built graph and a kind; no schedule, fault or second party takes part. (That its answer agrees with the edges of the graph, under concurrent use, is part of C12.)",
}
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [
        {
            "property": p,
            "quick_cmd": f"./check {p} quick",
            "thorough_cmd": f"./check {p} thorough",
            "technique": "deterministic simulation with fault injection: seeded search over schedules, faults and worlds",
            "level": "exploration",
            "level_note": NOTE[p] + " Sampling, not proof. Trusted: the simulated kernel, the simulated cargo (calibrated against the real one) and the reference model.",
        }
        for p in props
        if p in done
    ],
    "not_applicable": [
        {"property": p, "reason": NA.get(p, "Decidable by simulation; its check is not built yet.")} for p in props if p not in done
    ],
    "notes": "No hooks in /repo: the seams are the system calls of the process (interposed in the simulator's executable) and the callbacks and streams of the public API. See DESIGN.md.",
}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
open(f"{here}/MANIFEST.json", "a").write("\n")
