#!/usr/bin/env python3
"""Writes MANIFEST.json for the checks that the harness registers."""
import json, os, subprocess
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = {json.loads(l)["id"]: json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))}
ids = subprocess.check_output([os.path.join(root, ".build/vh"), "list"], text=True).split()
tech = {
 "C20": "runtime monitoring: Go race detector over concurrent stress workloads with online result comparison",
 "C22": "runtime monitoring: generated packages built and run, outcomes compared with an independent reference interpreter",
 "C23": "runtime monitoring: online trace checker over the callbacks of generated walkers",
 "C24": "runtime monitoring: accessors of generated packages called on random parses, compared with the AST they wrap",
 "C28": "runtime monitoring: the built command run on random and faulty files, streams and exit codes judged by an oracle",
}
checks = []
for i in ids:
    checks.append({
        "property": i, "quick_cmd": "./run.sh %s quick" % i, "thorough_cmd": "./run.sh %s thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": tech.get(i, "runtime monitoring: oracle over executions of the real code on seeded random, derived and hostile workloads"),
        "level": "exploration",
        "level_note": "Held on every execution observed (counts in the evidence file); says nothing about executions not run. Trusts the Go toolchain and the oracle in harness/.",
    })
json.dump({
    "version": 1, "setup_cmd": "./run.sh --setup", "checks": checks,
    "not_applicable": [{"property": p, "reason": "no check built yet"} for p in props if p not in ids],
    "notes": "One Go harness (harness/) linked against /repo's working tree through a replace directive; no hooks in /repo.",
}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
