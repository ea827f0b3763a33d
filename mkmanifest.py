#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl.
import json
notes = {
 "C01": "all obligations of Add, its callees and the structure invariant on all 17 set types, for all inputs, heights and interleavings under rely/guarantee; sequential consistency, the mutex and z3 are trusted",
 "C11": "strict weak order, NaN first, direction and zeros as obligations over z3's IEEE floating-point theory, on the comparison functions the constructors really pass on",
 "C12": "constructor postconditions plus the lemma that the constructed state is an empty well-formed set; orders through the comparison obligations of every type",
 "C14": "height contract and the skip obligation at every traversal step; that these give logarithmic expected cost is the textbook argument, not machine-checked",
 "C15": "all obligations again on sources regenerated from the template in a scratch copy on every run",
}
default = "contracts, structure invariant and rely/guarantee obligations discharged for all inputs, tower heights and interleavings on all 17 set types; sequential consistency, the mutex, the engine and z3 are trusted"
checks = []
for l in open("properties.jsonl"):
    p = json.loads(l)["id"]
    checks.append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
      "technique": "contract-based deductive verification of the Go sources (own verification-condition generator over go/ssa, rely/guarantee, z3)",
      "level": "proof", "level_note": notes.get(p, default)})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": []}, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
