#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NOTE = ("TLC checks the property on the specification for every token sequence of the property's alphabet up to the bound and on every "
        "transition of the abstracted control-state graph; every emitted behaviour is run in the real code and compared with the result the "
        "specification gives (as a digest), and TLC checks the recorded results of a sample of them, of all that differ, and of generated "
        "sources against the specification. Bounded: sources outside of the explored and generated ones are not covered. "
        "Trusts TLC, the harness's reading of the public API, and the htmlentity crate as environment.")
HIST = ("TLC checks the design of the specified histories for every call sequence up to the bound and emits them; they, and longer random ones, are "
        "replayed in the real code, and TLC checks every recorded answer against the specification. Bounded: longer histories are sampled. "
        "Trusts TLC and the harness's reading of the public API.")
TECH = {
    "C27": "TLA+ specification of building histories, TLC; histories replayed in the code and checked in TLC",
    "C28": "TLA+ specification of histories on several documents, TLC; histories replayed in the code, also in parallel threads, and checked in TLC",
    "C29": "TLA+ specification of ownership, TLC; histories replayed in the code with weak references and checked step by step in TLC",
    "C30": "TLA+ specification of composition, TLC; pairs of sources run in the code, apart, together and nested, and checked as a relation in TLC",
    "C03": "TLA+ specification, TLC; render-reparse runs of the code checked as a relation in TLC",
    "C13": "TLA+ specification, TLC; pairs of runs of the code checked as a relation in TLC",
    "C20": "TLA+ specification of clone/edit histories, TLC; histories replayed in the code and checked step by step in TLC",
    "C22": "TLA+ specification of line reading, TLC; file and in-memory runs of the code checked as a relation in TLC",
    "C25": "TLA+ specification of the rules, TLC; complete sweep of the code's answers checked in TLC",
}
m = {
    "version": 1,
    "setup_cmd": "python3 check.py setup",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "python3 check.py %s quick" % p["id"],
        "thorough_cmd": "python3 check.py %s thorough" % p["id"],
        "technique": TECH.get(p["id"], "TLA+ specification, TLC exploration, trace validation of the real code in TLC"),
        "level": "model_checking",
        "level_note": HIST if p["id"] in ("C20", "C27", "C28", "C29", "C30") else NOTE,
    } for p in props],
    "not_applicable": [],
    "notes": "No hooks: everything the checks observe is public. Repairs of defects are listed in KNOWN_FINDINGS.txt.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
