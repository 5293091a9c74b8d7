#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, subprocess
NOTE = {
  "C01": "seeded workloads killed after chosen prefixes of their file operations (after acknowledgements, inside commits, checkpoints, evictions, VACUUM and recovery), reopened and compared with the transactions acknowledged by then",
  "C02": "the same with open, rolled-back, failed and half-done transactions at the moment of death and caches so small that their pages reach the disk; the contents must be those acknowledged, or those and all of the commit in progress",
  "C08": "deaths in workloads, checkpoints, VACUUM and in the recoveries after them, up to three deep; each opening must succeed, give the same contents, pass a page-by-page audit and carry on, and closing and opening again must change nothing",
 "C10": "seeded histories of tree operations over page sizes, fan-outs, caches and key types, with page evictions, reopens and disk errors; compared with an ordered map and a full structural walk",
 "C11": "the same histories audited page by page: each page has exactly one owner, or is on the free list; nothing leaks when trees are dropped",
 "C17": "seeded appends, forces, truncations, reopens, disk errors, and process death after every file operation of a force or truncation; compared with the list of appended records",
  "C03": "seeded histories of several sessions in which transactions roll back, sessions are dropped, statements and batches fail (by constraint, by error, by exhausted cache); every later answer compared with a model in which they never ran",
 "C04": "seeded interleavings of several sessions; every read compared with a multi-version model of the transaction's snapshot and own writes, every commit checked against concurrent changes of the same rows",
 "C06": "the same queries with and without indexes, before and after ANALYZE, with seeded join orders and predicates, on changing tables; every answer compared with a nested-loop evaluation of the query as written, and the indexes with their tables",
 "C07": "seeded concurrent histories rich in colliding keys, deletes, roll-backs and key changes; committed states checked for duplicates and NULLs, rejections checked for a reason",
 "C09": "seeded histories with flush, drop, reopen under other configurations and work in between; everything compared with the model after each reopen",
 "C12": "one seeded history under several configurations (page and cache sizes, workers, fan-outs): the same answers under each, and those of the model",
 "C13": "seeded histories with VACUUM between and during transactions, comparing every later answer with a model that has no VACUUM",
 "C14": "seeded programs of several client threads sharing one database, preempted at seeded synchronisation points; every call must return, and the answers and final contents must be those of some order of the transactions under snapshot isolation, searched exhaustively",
 "C15": "seeded schema changes inside committed, rolled-back and failing transactions with readers of old snapshots; answers and catalog compared with the model",
 "C16": "seeded streams of malformed, hostile and deeply nested statements mixed with good ones and I/O faults: each ends in a result or an error, the data stays that of the model",
 "C20": "seeded conversations over simulated connections that deliver in pieces, late, cut or damaged; both ends run the real framing and codecs, with the memory of the receiver bounded",
 "C18": "seeded transaction histories over one row, decoded under snapshots of every moment and compared with a list of versions",
}
NA = {
 "C05": "a query's answer is a function of the statement and the table contents: no schedule, time, I/O or fault takes part in it, so deterministic simulation has nothing to decide here",
 "C19": "comparison, hashing and casts of values are pure functions: no schedule, time, I/O or fault takes part in them",
}
PENDING = "not claimed yet: its workload family is under construction"
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
hooks = [l.split()[0] for l in subprocess.run(["git","-C","/repo","log","--format=%H %s","--reverse"],capture_output=True,text=True).stdout.splitlines() if l.split(" ",1)[1].startswith(("hooks:", "verif:"))]
m = {"version": 1, "setup_cmd": "./check.sh build",
 "hooks": {"guard": "axmos_verif", "enable": "RUSTFLAGS --cfg axmos_verif (harness/.cargo/config.toml); the harness crate depends on /repo/crates/axmos-db by path", "source_commits": hooks},
 "checks": [{"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
   "technique": "deterministic simulation with fault injection: seeded search over histories, schedules and faults against a reference model",
   "level": "exploration", "level_note": NOTE[i], "evidence_file": f"evidence/{i}.json"} for i in ids if i in NOTE],
 "not_applicable": [{"property": i, "reason": NA.get(i, PENDING)} for i in ids if i not in NOTE],
 "notes": "see DESIGN.md; findings in known_findings.txt"}
json.dump(m, open("/verif/MANIFEST.json","w"), indent=1)
