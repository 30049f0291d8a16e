#!/usr/bin/env python3
# Writes /verif/MANIFEST.json.
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the real Go code (go/ssa) decided by SMT (z3, cvc5), counterexamples replayed natively"
COMMON = (" Holds for all values within the stated bounds (sizes, counts, type shapes and kinds are enumerated as paths; field"
  " contents are symbolic). Trusts the interpreter's model of Go, reflect, fmt and sync (natively re-checked on sampled paths) and the SMT solvers.")
NOTE = {
 "C01": "Every supported kind in 17 hand-made type shapes (nesting to depth 3); element counts to 3 (lengths near prefix limits with concrete contents).",
 "C02": "Arbitrary input bytes up to 10-14 bytes per shape (quick), all shapes of C01; allocation counted against the input length.",
 "C03": "All type shapes of C01 and all wire types, against the bytes actually produced.",
 "C04": "Every position of an unencodable part in the shapes; lengths around each prefix limit; every invalid top-level argument.",
 "C05": "Blocks with up to 3 interlink entries, 2 transactions and 2 prune entries; interlink bit patterns symbolic; arbitrary bytes for decoding up to the stated length.",
 "C06": "Both formats, all field values, data and proof up to a few bytes plus the 16-bit length limits.",
 "C07": "All account kinds and values; comparisons between all kinds.",
 "C08": "Every message type, symbolic contents with up to 2-3 list elements.",
 "C09": "All address types, symbolic IP bytes, host names up to 4 bytes.",
 "C10": "Idealised Ed25519 (injective signatures); all services, timestamps, net addresses.",
 "C11": "Idealised BLAKE2b (injective); Merkle paths up to 3-4 nodes with all side patterns.",
 "C12": "All 32-bit compact values and all 256-bit targets (big.Int on symbolic words, idealised long division).",
 "C13": "Paths up to 6-8 bytes, arbitrary contents and arbitrary characters for decoding.",
 "C14": "All 64-bit balances, values and fees; all heights.",
 "C15": "All contract fields symbolic; heights symbolic; idealised proof verification; product of step and amount decided by non-linear bit-vector queries.",
 "C16": "All contract fields symbolic, hash chains up to 3 steps, all three proof phases, Merkle paths up to 1 node.",
 "C17": "Creation data of all lengths around the legal ones, all contents.",
 "C18": "Blocks with up to 2 transactions (3 thorough) among up to 4-5 accounts up to renaming, all values and fees; idealised BLAKE2b.",
 "C19": "Blocks with arbitrary transactions (types, flags, data, proofs), missing parts, failures in every phase.",
 "C20": "One or two contracts, every content quoted in the prune list, up to two entries.",
 "C21": "Compared with a reference for the protocol's phase order: up to 2 transactions, all kinds, types and flags.",
 "C22": "All account kinds and values, sequences of writes at up to 3 addresses that share prefixes of every length class.",
 "C23": "Up to 4 (5) operations on up to 4 keys with shared prefixes chosen to reach every node shape; values symbolic.",
 "C24": "Up to 4 entries in every order, compared with an independent computation of the root hash (idealised BLAKE2b).",
 "C25": "Up to 4 (5) operations over 2-3 keys and two overlay levels, compared with maps.",
 "C26": "All 32-bit heights; one step of the supply recursion symbolic, the chain of steps summarised by an uninterpreted function with its defining recursion.",
 "C27": "All interleavings of two threads at synchronisation points (data races detected separately), symbolic heights, any cache state reachable by up to 3 queries.",
 "C28": "Every digit symbolic for a family of letter/digit patterns (12 quick, 200 thorough), windows of symbolic kinds, inserted spaces.",
 "C29": "Windows of arbitrary bytes anywhere in valid texts, every length up to 59, all country codes and check characters, all-symbolic texts for letter/digit patterns, every single replacement.",
 "C30": "Idealised Ed25519 and BLAKE2b; every seed and every field value of both formats.",
 "C31": "Idealised BLAKE2b; every field value of both formats; data up to a few bytes.",
 "C33": "Files in a modelled working directory: configurations with symbolic digits, characters and hash digits in TOML layouts chosen as paths (the real TOML decoder is executed symbolically), any small block and up to 3 accounts, truncated and over-long files, the embedded profiles.",
 "C34": "The command's main function, tar reader included, executed symbolically on archives with up to 2 blocks (3 thorough) with symbolic contents, broken in every stated way, on top of a small genesis profile; replayed by running the built command.",
 "C35": "Two goroutines, one call (or short sequence of calls) each on values of its own, all interleavings at synchronisation points; data races found by happens-before on every access of the interpreted code and confirmed by the race detector.",
 "C32": "Profiles with up to 3 accounts of all kinds and a genesis block with up to 1 transaction; all balances and header hashes.",
}
NA = {}
import glob, re
have = set()
for f in glob.glob(V + "/harness/props/*.go"):
    have |= set(re.findall(r"^func (C\d\d)_\w+\(\)", open(f).read(), re.M))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in have:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
          "evidence_file": f"evidence/{i}.json", "technique": TECH, "level": "model_checking", "level_note": NOTE[i] + COMMON})
    else:
        na.append({"property": i, "reason": NA.get(i, "harness not finished yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo. Repairs of genuine defects are listed in known-findings.txt."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
