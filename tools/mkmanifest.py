#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = ("Explicit TLA+ specification: implementation-shaped design models checked with TLC (refinement, invariants), walks over "
     "their state graphs replayed in the real code, recorded executions validated against the specification with TLC")
NOTE = {
    "StoreTrace": "Every recorded execution of the real store (debug and release builds) must be a behaviour of spec/Store.tla; "
                  "TLC evaluates the specification at every event. Exhaustive only over the explored histories; trusts the "
                  "harness's recording, the Rust toolchain and TLC.",
    "HandlesTrace": "Ids, versions, capacities and held bytes recorded from the real code must be a behaviour of spec/Handles.tla. "
                    "Covers the explored histories; trusts the harness's recording, its counting allocator and TLC.",
    "ResTrace": "Recorded executions of real resource stores (six kinds of values) must be behaviours of spec/Resources.tla. "
                "Covers the explored histories; trusts the harness's recording, its counting allocator and TLC.",
    "BorrowTrace": "spec/Borrows.tla models the signatures and what results rely on; every program of its state graph (all of one "
                   "result and a call, samples of two) is given to the compiler and the verdict must be what the specification "
                   "allows; places of references held by running programs must be apart. Covers programs of these calls; trusts "
                   "rustc's borrow checker, the harness and TLC.",
    "DeriveTrace": "Every definition that spec/Derive.tla builds (up to two, thorough three, fields) is given to the compiler; its "
                   "verdict must be the specification's. Trusts rustc and TLC.",
    "Memory": "Histories run with an allocator that puts every block against an inaccessible page, unmaps what is freed and fills "
              "fresh blocks with chosen bytes; the recorded executions must be behaviours of spec/Store.tla, Resources.tla, "
              "ArchTrace.tla without stray accesses. A stray access within the same page but past the canaries' reach is not "
              "seen; covers the explored histories.",
    "Several": "Interleaved histories of several stores, moved between calls: the recorded events of each store must be a "
               "behaviour of spec/Store.tla and equal, event by event, to those of a run of its own (spec/TwinTrace.tla). "
               "Covers the explored histories.",
    "Unknown": "Design: spec/HandlesImpl.tla (UnknownDead: every id and version never issued, also beyond the arrays). Code: "
               "histories with handles of other stores and the null handle in every call, half of them in memory between "
               "inaccessible pages, must be behaviours of spec/Store.tla and Resources.tla. Covers the explored histories.",
    "Refused": "Design: every capacity and every refusal of a scaled-down machine (spec/Memory.tla). Code: histories in which one "
               "allocation is refused, each of them in turn, and capacities beyond the address space; events up to there must be "
               "behaviours of Store, Resources and ArchTrace, and then the call must not come back. Covers the explored histories.",
    "TwinTrace": "Design: self-composition of the models of ids and pages (Twins, TwinPages). Code: two stores at different "
                 "addresses, in a debug and a release build, given the same calls must agree event by event (spec/TwinTrace.tla). "
                 "Covers the explored histories.",
    "ArchTrace": "Recorded constructions and answers of real archetypes must be explained by set algebra in spec/ArchTrace.tla. "
                 "Covers the explored histories; trusts the harness's recording and TLC.",
}
MOD = {"C01": "HandlesTrace", "C20": "HandlesTrace", "C16": "ResTrace", "C17": "ResTrace", "C18": "ArchTrace", "C26": "BorrowTrace", "C27": "DeriveTrace", "C28": "Memory", "C29": "Several", "C30": "TwinTrace", "C31": "Unknown", "C32": "Refused"}
checks = []
for i in range(1, 33):
    p = "C%02d" % i
    checks.append(dict(property=p, quick_cmd="python3 check.py %s" % p,
                       thorough_cmd="VERIF_TIER=thorough python3 check.py %s" % p,
                       technique=T, level="model_checking", level_note=NOTE[MOD.get(p, "StoreTrace")]))
m = dict(version=1,
         setup_cmd="cd harness && CARGO_NET_OFFLINE=true cargo build --offline -q && CARGO_NET_OFFLINE=true cargo build --offline -q --release",
         checks=checks,
         not_applicable=[],
         notes="check.py --replay <file> runs a reported history again. DESIGN.md describes the specifications.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
