"""Writes MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "cd harness && CARGO_TARGET_DIR=$PWD/target cargo build --offline --quiet",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p['id']}",
        "technique": "TLA+ specification checked with TLC; conformance of the real code decided by TLC trace validation of recorded histories (random and generated from the specification)",
        "level": "model_checking",
        "level_note": "The abstract machine and the algorithm models are explored exhaustively within small bounds; the real code is bound to the specification by validating every recorded call of many histories, so the claim for the code is bounded by the histories executed.",
    } for p in props],
    "not_applicable": [],
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
