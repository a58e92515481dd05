#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
T = {
 "C01": ("round-trip property testing of generated blocks against an independent encoder", "random blocks of every kind with boundary-biased fields"),
 "C02": ("round-trip property testing of generated transactions", "random transactions with boundary-biased fields and payloads"),
 "C03": ("structured fuzzing of decoders (mutated, truncated, spliced and random bytes) with overflow and unsafe-precondition checks on", "panics, aborts and out-of-bounds are seen through debug assertions and bounds checks, not a memory sanitizer"),
 "C04": ("round-trip property testing against an independent integer encoder", "boundary-biased 256-bit and big integers"),
 "C05": ("property testing with adversarial mutations of signed transactions (other keys, flipped fields, malleated signatures)", "trusts libsecp256k1 to produce signatures; forging by computation is out of scope"),
 "C06": ("property testing against a reference Merkle tree", "lists up to a few hundred hashes with special values"),
 "C07": ("adversarial property testing of proofs and roots, one listed finding", "collisions caused by the AND-based node (K1) are recognised by a reference computation and listed; anything else is a violation"),
 "C08": ("differential property testing of proof of work and leading zeros against a reference", "hashes with chosen zero prefixes through found nonces, difficulties next to the achieved count"),
 "C09": ("differential property testing of retargeting and fee against a reference", "difficulties of every bit count, boundary and reversed timestamps, arbitrary difficulty values"),
 "C10": ("property testing of validation with generated valid successors and single and multiple flaws, against a reference validator", "pairs of all kinds, with and without predecessor"),
 "C11": ("stateful model-based testing of main-chain emission", "random histories against a model of the chain, refused emissions compared state for state"),
 "C12": ("stateful model-based testing of derivative-chain emission by several owners", "random histories with several handles against a model"),
 "C13": ("stateful model-based testing of main-chain storage with flushes, unflushed closes and reopens", "random histories against a model; heights can be started near epoch and encoding boundaries"),
 "C14": ("stateful model-based testing of derivative-chain storage with flushes, unflushed closes and reopens", "random histories against a model"),
 "C15": ("stateful model-based testing of the transaction store", "random histories against a model; duplicates, batches and reopens"),
 "C16": ("stateful metamorphic testing: snapshots before closing and after one and several reopens are compared", "random histories, also across epoch boundaries"),
 "C17": ("randomised crash-point injection (a preloaded shim ends the process at a chosen file operation) with a differential oracle against an uncrashed run", "kill of the process, not power loss; kill points are sampled, directed at flushes, reopens and epoch changes"),
 "C18": ("stateful model-based testing of coin and gas operations against exact arithmetic", "random histories with boundary amounts, any addresses"),
 "C19": ("randomised concurrent histories checked for linearizability by exhaustive search for an explaining order", "schedules are those of the operating system; interleavings of operations are searched exhaustively per round"),
 "C20": ("stateful model-based testing of transaction submission with invalid signatures, poor senders and overflows, one listed finding", "resubmission (K2) is listed; every other deviation is a violation"),
 "C21": ("stateful testing across epoch boundaries against a reference summary root and balances", "boundaries are reached by rewriting the stored height, then adding a block through the library"),
 "C22": ("model-based testing of the pool against a reference queue; order laws on generated pairs and triples", "random histories with equal timestamps and equal hashes"),
 "C23": ("differential testing of two trees given the same history", "one of the two is flushed and reopened at random points"),
 "C24": ("property testing of fresh directories and of the genesis after random histories, against fixed expected values", "directory names and histories are random"),
 "C25": ("stateful model-based testing of the funds store with processes ended after or inside a change", "kill of the process, not power loss"),
 "C26": ("round-trip property testing of the compressor and of directory copies, with truncation at every kind of offset", "corruption inside a stream other than truncation is not claimed (no checksums are written)"),
 "C27": ("randomised concurrent appends and readers with an invariant and final-state oracle", "schedules are those of the operating system"),
 "C28": ("randomised concurrent changes of the funds store checked for linearizability by exhaustive search for an explaining order", "schedules are those of the operating system; interleavings of operations are searched exhaustively per round"),
 "C29": ("randomised concurrent submissions checked against a sequential model by exhaustive search for an explaining order", "schedules are those of the operating system; while submissions run, balances are otherwise only increased"),
 "C30": ("property testing of comparison laws on generated pairs and lists of blocks", "lists of up to 16 blocks of all kinds"),
 "C31": ("fault-injecting stateful testing: openings of busy directories and of chains with damaged configuration, with snapshots compared before and after", "damage is truncation of the configuration or a directory in its place"),
 "C32": ("randomised fault injection into file operations (a preloaded shim fails or shortens chosen writes, creations, renames and syncs) with a differential oracle against an undisturbed run", "failing reads are not injected; points are sampled, directed at flushes, reopens and epoch changes"),
 "C33": ("randomised fault injection into file operations (a preloaded shim) with verification of everything that reported success, against a model of possible balances", "failing reads are not injected; points are sampled"),
}
ids = [json.loads(l)["id"] for l in open("properties.jsonl") if l.strip()]
na = []
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": na,
     "notes": "One harness crate (harness/) with a module per property; check.sh rebuilds it against /repo. No hooks are needed in /repo. Replay: ./check.sh ID --replay FILE."}
for i in ids:
    t, n = T[i]
    m["checks"].append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                        "technique": t, "level": "exploration",
                        "level_note": "No violation among the generated cases counted in the evidence file; " + n + "."})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
