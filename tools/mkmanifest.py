#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = {
 "C01": "reference model of every one-time artefact, per call and over the history of calls",
 "C02": "reference model of lifetimes against each node's skewed, jumping clock",
 "C03": "reference model of grants: who may get which code and token",
 "C04": "independent recomputation of each credential (JWT and mdoc) from the data source",
 "C05": "reference model of nonces per token, independent check of proofs",
 "C06": "reference model of deferred transactions and of when data becomes ready",
 "C07": "every fault-free valid request must succeed; honest flows must finish once faults stop",
 "C08": "reference model of requests and an independent check of every presentation, credential, descriptor and constraint",
 "C09": "every fault-free valid presentation must be accepted; hand-built and wallet-library flows must finish once faults stop; what the wallet offers is recomputed",
 "C10": "every message compared with what was meant after crossing the simulated network; generated messages of all types",
 "C11": "independent evaluation of paths and filters over generated constraints and credentials, in the wallet, in the verifier and side by side",
 "C12": "panic and hang guard around every task, store journal of refused calls, provider failures at every call",
 "C13": "reference model of causes, form check of every error",
 "C14": "reference model of wallet flows and of what the issuer sent, against the wallet's store and every request it sends",
 "C15": "form and uniqueness of every secret, spread over whole batches, twin runs that differ only in randomness, restarts",
 "C16": "requests written with the macros against the decoded JSON, and flows that send them",
}
CLAIMED = list(ORACLE)
NA = {
 "C17": "a pure function of a log and a configuration: no schedule, clock, I/O or peer takes part, and no endpoint, wallet or verifier flow calls it (the lookup is a stub in /repo), so there is nothing to simulate",
}
PENDING = "not claimed yet: the scripts that drive it are still being built"
props = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
m = {
 "version": 1,
 "setup_cmd": "./check.sh setup",
 "checks": [{
   "property": p,
   "quick_cmd": f"./check.sh {p} quick",
   "thorough_cmd": f"./check.sh {p} thorough",
   "technique": "deterministic simulation with fault injection: seeded search over schedules and faults; " + ORACLE[p],
   "level": "exploration",
   "level_note": "Sampled seeds, not a proof: issuer, verifier and wallet code of the working tree runs unmodified in one simulated process; network, stores, clocks, randomness, keys and DID documents are the simulator's. Trusts the stand-ins for crates this sandbox lacks (DID, JOSE, COSE, QR, uuid) and the oracle.",
 } for p in props if p in CLAIMED],
 "not_applicable": [{"property": p, "reason": NA.get(p, PENDING)} for p in props if p not in CLAIMED],
 "notes": "No hooks in /repo: the provider traits, clock_gettime, getrandom and the fastrand seed are the seams. KNOWN_FINDINGS.txt lists findings and fixes. A replay file is run with .build/target/debug/vsim replay FILE.",
}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
