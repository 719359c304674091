#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "differential round-trip monitor over generated schemas and histories",
 "C02": "replica-convergence monitor over recorded change logs",
 "C03": "online size-versus-bytes monitor over histories",
 "C04": "differential monitor against an independent encoder and decoder",
 "C05": "hostile-input stress with panic, CPU and allocation monitors",
 "C06": "differential monitor with injected unknown and foreign fields, schema pairs",
 "C07": "differential monitor against a reference model of merging",
 "C08": "address-invariant walker over histories of live trees",
 "C09": "exactly-once log monitor against predicted entries",
 "C10": "fault injection in the logger and callbacks with replay oracle",
 "C11": "stress with data-race sanitizers (Miri, ThreadSanitizer) and an offline log checker",
 "C12": "online verdict-and-state monitor over hostile logs",
 "C13": "compile-verdict monitor over generated valid and invalid schemas",
 "C14": "metamorphic monitor of == and hash over pairs and triples",
 "C15": "server/client convergence monitor running the generated sources",
 "C16": "monitor of the generator's output over schemas and settings",
 "C17": "model-based monitor of every operation's result and effect",
 "C18": "crash-point enumeration with prefix oracle",
 "C19": "I/O fault injection with byte-prefix oracle",
 "C21": "trace-specification monitor of the client's events and paths, running the generated sources",
 "C22": "fault-injection monitor of the client on torn, changed and misplaced log entries, running the generated sources",
 "C23": "monitor of the client on encodings with unknown, foreign and permuted fields, running the generated sources",
 "C24": "monitor of how often instrumented leaves are measured, written, read and moved",
 "C25": "twin-replica monitor of the client while its handlers throw, read, remove handlers or replay, running the generated sources",
 "C26": "model-based monitor of all handles of a runtime and their logger",
 "C20": "model-based monitor of the loggers' contents",
}
NOTE = ("Held on the executions listed in the evidence, produced by seeded workloads over generated schemas; says nothing "
        "about schemas, inputs or histories never generated. Trusts the harness's reference model, rustc and std.")
SPECIAL = {}
CLAIMED = [l.strip() for l in open(os.path.join(V, "tools/claimed.txt")) if l.strip()]
NA = {}
checks = []
for p in CLAIMED:
    checks.append(dict(property=p, quick_cmd="python3 run_check.py %s" % p, thorough_cmd="python3 run_check.py %s --thorough" % p,
                       evidence_file="evidence/%s.json" % p, technique=T[p], level="exploration", level_note=SPECIAL.get(p, NOTE)))
for p in sorted(T):
    if p not in CLAIMED:
        NA.setdefault(p, "check not built yet")
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks,
         not_applicable=[dict(property=p, reason=r) for p, r in sorted(NA.items())],
         notes="All checks run from /verif against /repo's working tree; VERIF_SEED and VERIF_TIER are read from the environment. No hooks in /repo are needed.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
