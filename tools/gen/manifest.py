#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..")
DST = "deterministic simulation with fault injection: "
LIB = "Seeded search, not a proof. Real code: every package under /repo/yaml (instrumented copy of the current tree, one scheduling point per statement) and its dependencies. Simulated: scheduler, clock, map order, entropy, "
RUN = "Seeded search, not a proof. Real code: linter, compiler, transforms and drone-runtime; simulated: docker host (containers, images, volumes), time, secret provider, tenants. Trusts the reference model in sim/run. "
CLI = "Seeded search, not a proof. Real code: the drone-yaml binary (and ParseFile) built from the current tree; simulated: every file and stdio system call, disk with a durability model, process scheduling and crashes. Trusts the disk model in sim/cli. "
C = {
 "C01": ("reads delivered by a simulated stream with seeded fragmentation, compared with the one-piece result", LIB + "io.Reader."),
 "C02": ("seeded read failures and over-long lines in a simulated stream", LIB + "io.Reader."),
 "C03": ("stalling, failing and trickling simulated streams, progress bounded in reads and statements", LIB + "io.Reader."),
 "C05": ("seeded map order, process, clock, call order; outputs of repeated conversions compared", LIB + "environment."),
 "C06": ("seeded map order, entropy, process, clock, call order; canonical specifications compared", LIB + "environment."),
 "C07": ("seeded map order, process, clock, call order; outputs compared", LIB + "environment."),
 "C08": ("seeded statement-level interleavings of concurrent callers under the race detector, results compared with serial runs", LIB + "package sync. Interleavings inside dependencies are not explored."),
 "C09": ("seeded call histories with deep comparison of all inputs after each call", LIB + "callbacks."),
 "C10": ("seeded call histories and interleavings with deep comparison of all earlier results", LIB + "callbacks."),
 "C11": ("seeded entropy faults and interleavings; identifiers checked for form, uniqueness, bias, origin", LIB + "crypto/rand.Reader."),
 "C12": ("seeded storage corruption between signing and verification, judged by an independent splitter", LIB + "storage. One known finding (document boundaries)."),
 "C04": ("simulated kernel with seeded system-call faults; descriptor table checked", CLI),
 "C13": ("seeded process kills and power loss on a simulated disk with lost and reordered writes", CLI),
 "C14": ("seeded system-call failures, full disk and invalid inputs", CLI),
 "C15": ("seeded short, interrupted and failing system calls; output compared with the fault-free run", CLI),
 "C16": ("seeded interleavings of the system calls of concurrent processes", CLI),
 "C17": ("seeded command histories with faults and crashes refined against whole commands", CLI),
 "C18": ("simulated kernel records every mutating system call under seeded faults", CLI),
 "C19": ("compiled pipelines executed by the real runtime on a simulated host, seeded latencies and failures", RUN),
 "C20": ("compiled pipelines executed by the real runtime on a simulated host, seeded latencies and failures", RUN),
 "C21": ("compiled pipelines executed by the real runtime on a simulated host, seeded latencies and failures", RUN),
 "C22": ("seeded exit codes, OOM kills and engine errors, history compared with a reference model", RUN),
 "C23": ("seeded graphs, latencies and failures; bounded liveness and exactly-once on the history", RUN),
 "C24": ("simulated container file systems carrying tokens between steps", RUN),
 "C25": ("several simulated tenants on one simulated host, seeded interleavings", RUN),
 "C26": ("simulated secret provider with seeded delays and refusals; container environments checked", RUN),
 "C27": ("seeded selections and conditions, history compared with the model", RUN),
 "C28": ("seeded service lifetimes and failures, history checked", RUN),
 "C29": ("a simulated server and agents on several hosts with seeded crashes, reboots, partitions and message loss execute all pipelines of a configuration", RUN + "Server, agents and their network are simulated. "),
 "C33": ("containers created on the simulated host compared with the declarations, over seeded pipelines, operator settings, shared compilers, latencies and failures", RUN),
 "C35": ("files in other formats converted and executed on the simulated host under seeded latencies and failures, history compared with the model of the pipeline they were rendered from", RUN + "The semantics of the foreign formats are those of the renderer in sim/run/conv.go. "),
 "C38": ("generated scripts executed by real shells on simulated images, stand-in programs fail, are killed or missing by seed; calls compared with a reference interpreter", "Seeded search, not a proof. Real code: parser, linter, compiler, transforms; dash and bash. Simulated: the programs and the file system of the image. Trusts the reference interpreter in sim/run/script.go. Windows scripts are not covered: no PowerShell here."),
 "C39": ("a simulated server handles concurrent requests for configurations damaged by seeded faults (bytes, cuts, replaced values); panics, unbounded work and influence on other requests are violations", "Seeded search, not a proof. All of drone-yaml is real code, statements instrumented; server, storage, scheduler, clock and randomness are simulated. Expansion of nested aliases and extreme nesting inside the YAML package are not generated."),
 "C31": ("each configuration executed twice under one seed, as written and as stored after formatting, signing and encoding; the two histories compared", RUN + "One known finding (strings that look like YAML tags)."),
}
have = {"lib": ["C01","C02","C03","C05","C06","C07","C08","C09","C10","C11","C12","C39"],
        "cli": ["C04","C13","C14","C15","C16","C17","C18"],
        "run": ["C%d" % i for i in range(19, 30)] + ["C31", "C33", "C35", "C38"]}
claimed = []
for rig, ids in have.items():
    if os.path.exists(os.path.join(root, "sim", rig, "READY")) or rig == "lib":
        claimed += ids
claimed.sort()
PURE = {
 "C30": "pure function of one configuration: no schedule, time, I/O, fault or second party can influence the verdict, so seeded schedules and faults add nothing to an input sample (its determinism, isolation and agreement with the runtime are C07, C08, C23, C25)",
 "C32": "pure predicate over two strings and pattern lists; its effect on execution is C27",
 "C34": "pure string function; its consequences for privileges and image aliases are C25",
 "C36": "pure combinatorial function (its determinism is C05)",
 "C37": "pure function of one document (stream faults are C01 to C03)",
}
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
checks = []
for p in claimed:
    t, note = C[p]
    checks.append({"property": p, "quick_cmd": "./check " + p, "thorough_cmd": "./check " + p + " -tier thorough",
                   "evidence_file": "evidence/%s.json" % p, "technique": DST + t, "level": "exploration", "level_note": note})
na = []
for p in props:
    if p in PURE:
        na.append({"property": p, "reason": PURE[p]})
    elif p not in claimed:
        na.append({"property": p, "reason": "rig not built yet"})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: seams are installed at build time through go build -overlay (patched standard library files and instrumented copies of the current sources). Replay: ./replay FILE."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
