#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (run in /verif)."""
import json
T = {
 "C01": ("reference-model oracle over generated databases", "Every answer of 20,000 generated ipdb files (about 10 million queries through all entry points) equals an independently written reference lookup. Trusts the reference encoder and lookup in harness/ipdbenc.go."),
 "C02": ("reference-model oracle over generated databases", "Every answer of 15,000 generated awdb files equals an independent reference. Trusts harness/awdbenc.go."),
 "C03": ("history monitor: reference oracle after every operation", "Random operation histories with result edits; every answer is compared with the history-free reference."),
 "C04": ("Go race detector plus sequential-equivalence oracle", "Race detector on hundreds of concurrent runs, results compared with those computed alone. Only the schedules that occurred are covered."),
 "C05": ("error oracle over generated bad requests", "Bad text, lengths, families, languages and files must give an error and no result."),
 "C06": ("crash, CPU, allocation and memory monitors over corrupted files", "Structure-aware corruption in supervised worker processes."),
 "C07": ("crash and resource monitors plus strict reference parser", "Malformed and mutated text files in supervised worker processes; accepted ones are compared with a reference parser."),
 "C08": ("pack/query round-trip oracle", "Packed tables are opened and queried; answers are compared with the table."),
 "C09": ("coverage monitor over dumped rows", "Dumped rows are checked offline to partition the source's address space and to carry its records."),
 "C10": ("reference pipeline oracle over conversions", "Converted and chained outputs compared with an independent implementation of every documented step."),
 "C11": ("round-trip oracle", "Scan output dumped again must equal the table."),
 "C12": ("reference parser and partition monitor for memip", "Written lines are parsed by an independent parser and compared with the table, and dumped again."),
 "C13": ("reference rule evaluator", "Each dumped row is compared with an independent evaluation of the rule."),
 "C14": ("reference normaliser over generated tables", "Field-wise comparison with an independent reading of the normalisation tables; columns that must stay are monitored."),
 "C15": ("reference merge and minimality monitor", "Merged tables are compared address-wise and for size with a reference."),
 "C16": ("reference attachment oracle", "District and line columns are compared row by row with a reference."),
 "C17": ("deep-snapshot non-interference monitor", "Tables are snapshot before and after packing, outputs of repeated and interleaved packs compared."),
 "C18": ("fault injection at write calls and bytes with an error oracle", "Writers failing at a chosen call or byte, full devices, closed pipes."),
 "C19": ("refuse-or-answer oracle over defective tables", "Packing must fail or the result must answer as the table does."),
 "C20": ("exact-cover and minimality monitor with 128-bit reference arithmetic", "Every list of networks is checked to cover the range exactly with the least count."),
 "C21": ("reference arithmetic oracle", "Results compared with 128-bit integer sets."),
 "C22": ("metadata oracle", "Version information compared with what the reference encoder wrote, across open, dump and pack."),
 "C23": ("race-detector server under concurrent hostile clients, reply oracle", "Every reply of the built server is compared with the library; only the schedules that occurred are covered."),
 "C24": ("differential oracle over built commands", "Outputs of the built commands compared with the library pipeline; crash monitor."),
 "C25": ("cross-implementation oracle, Rust overflow checks on", "Each Rust answer compared with the Go library's on generated and packed databases."),
 "C26": ("cross-implementation oracle", "Each Java answer compared with the Go library's. JSON parsing by a stand-in for Gson, which is not installed."),
 "C27": ("crash and exception monitors over corrupted files", "Rust with overflow checks and Java in supervised processes. JSON parsing in Java by a stand-in for Gson."),
 "C28": ("reference oracle for the sanity probes", "CheckV4 and CheckV6 compared with the reference answers at their probe addresses."),
 "C29": ("guard pages and read-only memory around every input", "Inputs are laid in read-only pages that end at (or begin after) an inaccessible page, so a write or an access outside faults; each case proves its guards work."),
 "C30": ("leak monitors: live heap, goroutines, descriptors, directory contents", "Histories are repeated and what is held afterwards is compared; a leak below the thresholds stays unseen."),
 "C31": ("stress of shared Java objects with a sequential oracle", "Only the schedules that occurred are covered; Java has no race detector here."),
 "C33": ("refusal oracle over cut, padded and misnamed files", "Cuts and paddings of generated databases are offered to all four readers."),
 "C32": ("recording formats as monitors of what the stages pass on", "Registered recorder formats note bytes, rule, table and order of operations; built-in formats are compared with running the stages by hand."),
 "C34": ("cost monitor: thread CPU time and allocation at two sizes", "Growth is judged between two sizes with a generous limit, so only clearly superlinear work is found."),
 "C35": ("cross-implementation oracle over the built command, crash monitor", "Printed results are compared with the Go library's answers."),
 "C36": ("reference-model oracle over typed records and generated Go types", "Generated values are decoded into types made by reflection and compared with what was encoded. Trusts harness/awval.go."),
 "C37": ("differential monitoring of four builds: plain, 32 bit, unoptimised with checkptr, address sanitizer", "Some 15,000 requests (opening, querying, dumping, operations, packing, typed decoding, ranges; damaged inputs too) are answered by four builds under different environments and compared as text; a process that dies or a sanitizer report is a violation. Big-endian machines cannot be run here."),
 "C38": ("crash, stack, CPU and allocation monitors over hostile records read into many Go types", "Damaged and self-containing records; agreement between the ways to read an address is checked as well. Records that grow exponentially when written out are excluded."),
}
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
m = {"version": 1,
 "setup_cmd": "bash setup.sh",
 "checks": [{"property": i, "quick_cmd": f"bash check.sh {i}", "thorough_cmd": f"bash check.sh {i}",
   "technique": T[i][0], "level": "fault_enumeration" if i == "C18" else "exploration", "level_note": T[i][1]} for i in ids if i in T],
 "not_applicable": [],
 "notes": "No hooks in /repo: the checks use the exported API, the built commands and the Rust and Java libraries. VERIF_TIER selects the tier, VERIF_SEED the seed."}
assert set(ids) == set(T), set(ids) ^ set(T)
json.dump(m, open("MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open("MANIFEST.json", "a").write("\n")
