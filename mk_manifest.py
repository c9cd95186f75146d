#!/usr/bin/env python3
# Writes MANIFEST.json from the table below (run by hand after edits)
import json, sys
T = "deterministic simulation: seeded search over schedules and faults of the real program on a simulated ledger, "
NOTE = " Samples, does not enumerate: a clean batch is evidence, not proof. Trusts simkit's ledger (atomicity, CPI, rent, write checks as in Solana 1.10) and the reference model in sim/src."
C = {
 "C01": ("sim", "reference model of spent nullifiers", "Every finalization of every run is compared with the model's set of spent notes; superseded, concurrent, replayed and same-transfer double spends are generated on purpose."),
 "C02": ("sim", "conservation oracle after every transaction", "Pool, fee collector, payers and recipients are accounted to the lamport and token after every transaction, and once more when all operations have completed."),
 "C03": ("sim", "Groth16 reference oracle", "Verdicts are compared with a trapdoor reference of the Groth16 equation; a seeded share of verifications runs every step of the real computation, the rest is advanced to its end by writing the reference's result."),
 "C04": ("sim", "sequential Merkle tree model", "Stored tree, root, root history, commitment metadata compared with a sequential Poseidon tree after every hashing."),
 "C05": ("sim", "root history model", "Accepted and refused roots at the start of verifications are compared with the roots the tree really had."),
 "C06": ("sim", "deposit history model", "Each deposit is followed from the paid store to its one queued commitment, under tampering, loss, duplication and competing relayers."),
 "C07": ("sim", "FIFO queue model", "The queue is compared with a FIFO reference after every transaction."),
 "C08": ("sim", "tree switch model", "Resets at every fill and in-flight situation are compared with the model's preconditions, and old tree, nullifiers and queue are compared after the switch."),
 "C09": ("sim", "payout reference model", "Every payout is compared with what the proof's public inputs commit to; hostile relayers tamper with every argument and account, merge and split payouts."),
 "C10": ("sim", "bounded progress after faults stop", "After the fault phase an honest relayer drives everything to completion within the documented number of transactions."),
 "C11": ("sim", "reference price and fee schedule", "Fees, limits, price conversions are recomputed and compared, with moving, stalled, malformed, negative and foreign prices and changed fee versions. The age check of pyth prices is compiled out off-chain, so recency is decided through the price's trading status."),
 "C12": ("sim", "reference model of the key lifecycle", "Histories of create, set data, update, freeze, hand over by authority and strangers are compared with a model of the lifecycle."),
 "C13": ("sim", "account substitution against the genuine operation", "Accounts of valid operations are replaced by forged, foreign, wrong-index, read-only or unsigned ones; any acceptance has to have the genuine effect."),
 "C14": ("sim", "setup-once model", "Repeated and competing setups at every point of the history are compared with the model."),
 "C15": ("sim", "exact set model", "The stored nullifier set is decoded and compared with the model's set after every insertion."),
 "C16": ("wsim", "reference model of the registry", "Histories of registrations and updates by wardens and strangers on the real warden network are compared with a model."),
 "C17": ("wsim", "reference model of the counters", "Tracked operations, in all positions of a transaction and at clock jumps, are compared with a model."),
 "C18": ("wsim", "reference model of genesis, operators, attesters, proposals", "Histories of the governance instructions by authorised and unauthorised actors are compared with a model."),
 "C19": ("sim", "per-verification reference model", "Concurrent verifications interleave step by step; each is compared with a reference of its own request alone."),
 "C20": ("sim", "rejection model", "Rejected and superseded transfers are followed to their closure; funds, notes, accounts are compared."),
}
NA = {}
for a in sys.argv[1:]:
    NA[a] = "no check yet"
json.dump({
 "version": 1,
 "setup_cmd": "./check.sh sim build" + (" && ./check.sh wsim build" if "C16" not in NA else ""),
 "checks": [{
   "property": p,
   "quick_cmd": f"./check.sh {s} {p}",
   "thorough_cmd": f"./check.sh {s} {p} --tier thorough",
   "technique": T + t,
   "level": "exploration",
   "level_note": n + NOTE,
 } for p, (s, t, n) in C.items() if p not in NA],
 "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
 "notes": "No hooks in /repo: the program's entry points, sysvars and account data are already seams. ./replay.sh FILE reproduces a reported violation.",
}, open("/verif/MANIFEST.json", "w"), indent=1)
