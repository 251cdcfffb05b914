#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {"C22": "src/win.rs is compiled on Windows only and is a thin layer over SSPI, which does not exist in this sandbox: nothing of it can be run here, so no specification could be bound to it"}
NOTE = ("TLC checks the specification in spec/ (design model, exhaustive within small constants) and judges every recorded operation of the real crate "
        "against it: histories and values generated from the specification by TLC, plus seeded random and boundary scenarios. Within what was run the "
        "verdict is exact (expected bytes are computed by the specification); beyond it, it is a sample. Trusts the JDK's MD5, HMAC, DES, RC4 and "
        "upper-casing, an MD4 of RFC 1320 in java/NtlmPrims.java, TLC, and the recording harness.")
checks = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in NA:
        continue
    checks.append({"property": p, "quick_cmd": "bin/check " + p, "thorough_cmd": "VERIF_TIER=thorough bin/check " + p,
                   "technique": "TLA+ specification checked with TLC; TLC trace validation of the real crate's executions",
                   "level": "model_checking", "level_note": NOTE})
m = {"version": 1, "setup_cmd": "bin/setup",
     "hooks": {"guard": "cfg(http_ntlm_verif)", "enable": "RUSTFLAGS=\"--cfg http_ntlm_verif\" (the harness crate has a path dependency on /repo)",
               "source_commits": [subprocess.run(["git", "-C", "/repo", "rev-parse", "f2d9491"], capture_output=True, text=True).stdout.strip()]},
     "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
