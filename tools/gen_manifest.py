#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EX = "stateless model checking of the real code: exhaustive enumeration of "
T = {
 "Q01": EX + "systems, witnesses, prover coins and oracle answers (exact model of group and random oracle)",
 "Q02": EX + "unsatisfied systems and oracle answers; every acceptance is counted",
 "Q03": EX + "single and paired changes of proof, statement and history",
 "K01": EX + "commitment layouts, openings, coins and oracle answers",
 "K02": EX + "mismatches between commitments and witness, changes of mapping and proof",
 "K03": "exhaustive enumeration of layouts against a reference function, on the real code",
 "K04": "exhaustive enumeration of index sets and messages in the formal-generator model",
 "I01": EX + "vector pairs, coins and challenges",
 "I02": EX + "false claims, proof changes and bounded adversary strategies over all challenges",
 "L01": EX + "matrices, pre-images, coins and challenges",
 "L02": EX + "false images, proof changes and bounded adversary strategies over all challenges",
 "L03": EX + "shapes, splitting factors, pre-images, coins and challenges",
 "L04": EX + "false images, proof changes and bounded adversary strategies over all challenges",
 "Z01": "exhaustive enumeration of all prover coins: exact equality of proof distributions over pre-images",
 "Z02": "exhaustive enumeration of all prover coins: exact joint distributions of messages and of revealed scalars",
 "Z03": "exhaustive enumeration of all coins of the sampler against the exact projection",
 "F01": EX + "message, oracle-answer and history changes; dependence of oracle queries",
 "F02": EX + "sequences of protocol runs on a shared transcript, with omissions, repetitions and swaps",
 "F03": EX + "statement changes; dependence of the first oracle query",
 "T01": EX + "malformed proof shapes (single faults and pairs) for every protocol",
 "T02": "the same enumerations in child processes whose output channels are watched",
 "S01": EX + "sizes, witnesses and oracle answers; the proof's form against the promised one",
 "M01": "exhaustive enumeration of shapes and small-field entries against reference functions",
}
NOTE = ("Exhaustive within the bounds stated in DESIGN.md and counted in the evidence file; the code explored is /repo's own source, "
        "linked against an exact model of the group (formal generators over small primes, and the real order with known discrete "
        "logarithms) and a lazily sampled random oracle. Model traces are compared component by component with runs on the real curve "
        "library, and scenarios are run on the unpatched build. Trusts: shims/ (self-tested), the harness's reference functions, "
        "merlin as a random oracle, rand as uniform. ")
EXTRA = {
 "T02": "Only standard output and standard error are watched; timing and memory are out of scope.",
 "Z01": "Distributions are exact for small primes; the code is generic in the field, which the conformance run at full size ties down.",
 "Z02": "Joint distributions are exact for generic fixed challenges at small primes.",
 "Q02": "Soundness is checked for the library's own prover run on false statements and for enumerated deviations, not for every conceivable adversary.",
}
checks = []
for l in open(V + "/properties.jsonl"):
    i = json.loads(l)["id"]
    checks.append({"property": i, "quick_cmd": "./check %s" % i, "thorough_cmd": "./check %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": T[i], "level": "model_checking",
                   "level_note": (NOTE + EXTRA.get(i, "")).strip()})
m = {"version": 1, "setup_cmd": "./check --setup",
     "hooks": {"guard": "qesa_verif", "enable": "RUSTFLAGS='--cfg qesa_verif' (set by ./check when it builds the harness crates in harness/*)",
               "source_commits": ["e64a693c"]},
     "checks": checks, "not_applicable": [],
     "notes": "KNOWN_FINDINGS lists the defects found: repaired ones (fixed:) and those still present (known:)."}
import subprocess
try:
    m["hooks"]["source_commits"] = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep", "hooks", "--author=verif"],
                                              capture_output=True, text=True, check=True).stdout.split()
except Exception:
    pass
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
