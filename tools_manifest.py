#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the tables below."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
TECH = {
    "C06": "metamorphic property-based testing: the same generated history under several segmentations of the reply stream must give the same results",
    "C23": "property-based testing: generated valid statistics responses against a reference decoder, shrunk replay file",
    "C24": "property-based testing with mutated and truncated statistics responses against a reference decoder, shrunk replay file",
    "C25": "property-based testing: generated key dumps against a reference decoder, shrunk replay file",
    "C26": "property-based testing: generated authentication exchanges in virtual time against the expected outcome, shrunk replay file",
    "C28": "property-based testing: generated lives of several clients in one process, each judged by the history oracle of its own model server, shrunk replay file",
    "C29": "property-based testing: generated cycles of uses and failures repeated in phases of equal work, metamorphic oracle (no phase may leave more goroutines, connections or live heap than the one before), shrunk replay file",
    "C30": "property-based testing: generated option lists against a reference evaluation of them (last value wins), observed on in-memory and real TCP connections, shrunk replay file",
    "C31": "property-based testing: generated sicknesses of some connections next to well ones under perturbed scheduling, latency of every command on a well connection bounded in virtual time, shrunk replay file",
    "C32": "property-based testing: generated sequences of failures whose errors name the connection and call or the dial they are from, every failed command's error traced back to it, shrunk replay file",
    "C27": "randomised concurrency testing: generated concurrent uses with injected faults and perturbed schedules; the oracle is the Go race detector, failing cases are shrunk",
}
DEFAULT = "property-based testing: rapid-generated histories against a model memcached in virtual time, oracle over the recorded history, shrunk replay file"
NA = {}
NOTE = ("Randomised search (seeded, 8 shards): assurance is what the generated cases reach, counted in the evidence file. "
        "Trusts the model server, the in-memory network, testing/synctest and the oracle in harness/.")
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py build",
     "checks": [{"property": i, "quick_cmd": f"python3 check.py {i} quick", "thorough_cmd": f"python3 check.py {i} thorough",
                 "technique": TECH.get(i, DEFAULT), "level": "exploration", "level_note": NOTE} for i in ids if i not in NA],
     "not_applicable": [{"property": i, "reason": r} for i, r in NA.items()],
     "notes": "See DESIGN.md. No hooks in /repo: the harness instruments scratch copies through go build -overlay."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
