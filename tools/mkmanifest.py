#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, sys
claimed = sys.argv[1:] or ["C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C11","C12","C13"]
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
na = {
 "N01": "Residue arithmetic of a single pure function: no schedule, fault, time or party for a simulator to vary; its input space calls for exhaustive or symbolic methods. What it means for users (correct products, rotations, key equations) is decided under C01, C02, C08, C09 and C10.",
 "N02": "A computational-indistinguishability claim about all efficient adversaries; no execution, simulated or not, can show it. The observable prerequisites (fresh non-zero noise, no repeated randomness, refusal without all shares) are C03, C10 and C13.",
 "N03": "A sequential value type without concurrency, time, I/O or several parties; the places where it matters (which parties a ciphertext involves) are checked after every operation under C01, C02, C03, C05 and C08.",
}
note = {
 "C01": "reference evaluation on plaintext vectors with a running noise bound",
 "C02": "reference evaluation modulo t, exact coefficient noise against a predicted bound",
 "C03": "joint, partial and refused decryptions against the model and bit-for-bit unchanged ciphertexts",
 "C04": "every deterministic operation repeated on newly created objects, compared as ring elements",
 "C05": "content hashes of every live object and key after every operation, and address ranges of storage",
 "C06": "each thread's results alone against its results under seeded interleavings at statement granularity",
 "C07": "key-set histories against a versioned model of the collections; refusals and their retries",
 "C08": "hoisted against ordinary operations and the plaintext model; hoisted forms hashed",
 "C09": "rotations and conjugations against the model under partial key availability",
 "C10": "every generated key opened with its secret: exact residues of the error, distribution, repetition",
 "C11": "definition-level model of scale and level; values decoded at the recorded scale",
 "C12": "whole encrypted inferences and their layers against plaintext layers, on workers that crash and retry",
 "C13": "encryptions opened with the secret key and under a transparent public key that shows their randomness",
}
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in claimed:
        m["checks"].append({
            "property": i,
            "quick_cmd": f"bash bin/check.sh {i} quick",
            "thorough_cmd": f"bash bin/check.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "deterministic simulation with fault injection: seeded search over operation histories, interleavings and faults on the real code, " + note[i],
            "level": "exploration",
            "level_note": "Sampled executions, not a proof: no violation in the runs listed in the evidence. Trusts lattigo's ring arithmetic and encoders (used by the oracles) and heuristic noise bounds with a stated margin; parameter sets are small to medium.",
        })
    elif i in na:
        m["not_applicable"].append({"property": i, "reason": na[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check yet"})
m["notes"] = "No hooks in /repo: yield points and seeded map iteration are put into copies of the sources at build time (go build -overlay), entropy is taken over through crypto/rand.Reader. bin/replay.sh FILE repeats a recorded violation."
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open("/verif/MANIFEST.json", "a").write("\n")
