"""Writes MANIFEST.json from properties.jsonl and the tables below."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
TECH = {}
NOTE = {}
scope = "TLA+ scope state machine (Indexing.tla) checked by TLC; every TLC-enumerated call, simulated behaviour and random session is run through the crate and its event log validated by TLC (IndexingTrace.tla)"
scope_note = ("Exhaustive for single calls on containers up to the stated length with every position, offset class and closure script; "
              "bounded random exploration for longer sessions and larger containers. Trusts TLC, rustc and the crate's own integer()/start()/end()/ptr() accessors.")
SCOPE = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C13", "C14", "C15"]
for p in SCOPE:
    TECH[p], NOTE[p] = scope, scope_note
UNB = "; Apalache proves the induction step of the position algebra for all integers (UnboundedStep.tla, linked to the operational specification by TLC)"
WIDE = "; random sessions on containers of any length up to isize::MAX are judged by TLC with 64 bit numbers (WideTrace.tla)"
for p in ["C01", "C03", "C04", "C05", "C06", "C14"]:
    TECH[p] += UNB
for p in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C13"]:
    TECH[p] += WIDE
algo = "TLA+ contracts of the algorithms (AlgoSpec.tla): TLC enumerates every small input (AlgoCases.tla, which also checks the contracts are satisfiable and functional); the crate runs them and larger generated ones, and TLC judges every recorded call (AlgoTrace.tla); the algorithms are explored comparison by comparison with honest, lying and panicking user code (Algorithms.tla); millions of further calls are screened and the suspicious ones judged by TLC"
algo_note = "Exhaustive for slices up to 5 elements over 3 keys (6 thorough), every comparison-panic position on selected inputs; seeded generation up to a few thousand elements. Of the screened calls only suspicious ones and a sample reach TLC."
for p in ["C16", "C17", "C19", "C20", "C21"]:
    TECH[p], NOTE[p] = algo, algo_note
for p in ["C18", "C22"]:
    TECH[p], NOTE[p] = scope + "; " + algo, scope_note + " " + algo_note
RUNS = "; Apalache proves inductive invariants of the algorithms for slices of every length (UnboundedRuns.tla, which moves by the same transitions as Algorithms.tla)"
for p in ["C16", "C17", "C18", "C19", "C20", "C21"]:
    TECH[p] += RUNS
typing = "TLA+ specification of what the types have to accept and reject (Typing.tla), shown by TLC to be sufficient and each rule necessary for safe access (Brands.tla, every rule dropped in turn); every situation TLC enumerates (TypingCases.tla) becomes a program and rustc's verdict on /repo's current tree is compared with the specification's"
typing_note = "All operations x storages x modes x proofs x brands x held borrows of one call, plus two-container programs; TLC's safety argument is bounded (2-3 containers, 6 steps). Trusts rustc and the list of operations."
for p in ["C11", "C12"]:
    TECH[p], NOTE[p] = typing, typing_note
CLAIMED = sorted(TECH)
NA = {}
for p in props:
    if p["id"] not in TECH:
        NA[p["id"]] = "check still under construction"
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "checks": [{"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p,
                 "technique": TECH[p], "level": "model_checking", "level_note": NOTE[p]} for p in CLAIMED],
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]}
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
