#!/usr/bin/env python3
"""Rewrites MANIFEST.json from properties.jsonl and checks.py."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import checks

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C26": "DhtStorage::tick is unimplemented!() at this commit (peer, immutable and mutable expiry): there is no behaviour to bind a specification to.",
    "C27": "DhtStorage::get_infohashes_sample is unimplemented!() at this commit: there is no behaviour to bind a specification to.",
}
NOTES = {}
exec(open(os.path.join(ROOT, "bin", "notes.py")).read())
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif hooks"], capture_output=True, text=True).stdout.split()
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bin/setup",
     "hooks": {"guard": "rustc cfg torrent_verif", "enable": "RUSTFLAGS=\"--cfg torrent_verif\"", "source_commits": hook},
     "checks": [], "not_applicable": [],
     "notes": "TLA+ specifications in spec/, checked with TLC; bin/check ID runs one check. See DESIGN.md."}
for p in props:
    i = p["id"]
    if i in NA:
        m["not_applicable"].append({"property": i, "reason": NA[i]})
    elif not hasattr(checks, i):
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
    else:
        m["checks"].append({
            "property": i, "quick_cmd": "bin/check " + i, "thorough_cmd": "VERIF_TIER=thorough bin/check " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "TLA+ specification checked with TLC; conformance by TLC trace validation of recorded calls and replay of TLC-generated behaviours",
            "level": "model_checking",
            "level_note": NOTES.get(i, NOTES[""])})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
