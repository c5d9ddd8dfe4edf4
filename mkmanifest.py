#!/usr/bin/env python3
"""Writes MANIFEST.json from suites.py and properties.jsonl."""
import json
from suites import PROPS
NOTES = {
 "C08": "TLC explores every descriptor and data placement of the bounded model; every multiproof the driver hands to the real code (all descriptors up to 11 bits, random trees, mutations, 64-bit deep spines) is judged by the specification. Trusts collision freedom of SHA-256.",
}
DEFAULT = "Bounded exhaustive model checking of the TLA+ design plus validation of recorded behaviour of the real code (exhaustive small cases and seeded larger ones) against the TLA+ specification; beyond the generated cases it is a sample. Trusts the stand-ins for the unavailable git dependencies."
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks = [dict(property=i, quick_cmd=f"./check.py {i}", thorough_cmd=f"./check.py {i} thorough",
    technique="TLA+ specification checked with TLC; TLC trace validation of the real code's recorded behaviour",
    level="model_checking", level_note=NOTES.get(i, DEFAULT)) for i in ids if i in PROPS]
m = dict(version=1, setup_cmd="cd harness && RUSTUP_TOOLCHAIN=1.88 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/harness/target cargo build --offline --locked",
    checks=checks,
    not_applicable=[dict(property=i, reason="under construction: its specification and conformance driver are not finished yet") for i in ids if i not in PROPS],
    notes="No hooks in /repo: the drivers use public APIs and serialization only.")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
