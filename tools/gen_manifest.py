#!/usr/bin/env python3
"""Single source of /verif/MANIFEST.json (run by hand when a check is added)."""
import json, os
ROOT = os.path.join(os.path.dirname(__file__), "..")
props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
IMPL = "model_checking"
# id -> (technique, level note)
C = {
 "C05": ("bounded exhaustive enumeration of grammars and token strings, every parse of the real runtime compared with a reference derivation",
         "all grammars of the listed families and all token strings up to the stated length; not beyond"),
 "C06": ("bounded exhaustive enumeration of grammars, token strings and prediction modes on the real runtime",
         "all grammars of the listed families and all token strings up to the stated length, three modes"),
 "C08": ("bounded exhaustive enumeration of operator grammars and expressions against a precedence-climbing model",
         "all operator tables and expressions within the stated bounds"),
 "C10": ("bounded exhaustive enumeration of grammars and token strings, first error compared with the viable-prefix model",
         "all grammars of the listed families and all token strings up to the stated length"),
 "C11": ("bounded exhaustive enumeration of grammars and erroneous token strings with a step-limit and tree monitor",
         "all grammars of the listed families and all token strings up to the stated length"),
 "C12": ("bounded exhaustive enumeration of grammars and token strings under the bail strategy against the reference recognizer",
         "all grammars of the listed families and all token strings up to the stated length"),
 "C13": ("explicit-state exploration of all operation histories of the real stream against a list model",
         "all token sequences and operation histories within the stated bounds, to closure of the reached states"),
 "C14": ("explicit-state exploration of all operation histories of the real stream against a list model, and exhaustive parser comparison on both stream kinds",
         "all token sequences and operation histories within the stated bounds"),
 "C15": ("exhaustive exploration of all strings, cursor positions and moves of the real streams against a cursor model",
         "all strings up to the stated length over an alphabet of every encoded width"),
 "C16": ("explicit-state exploration: every set over a bounded universe, every operation, against mathematical sets",
         "all sets over the stated universe and all operations, each followed by every single-element operation"),
}
EXTRA = {}
try:
    exec(open(os.path.join(ROOT, "tools", "manifest_more.py")).read())
except FileNotFoundError:
    pass
NA = {}
checks = []
for i in props:
    if i in C:
        t, n = C[i]
        checks.append({"property": i, "quick_cmd": f"./check {i} --tier quick", "thorough_cmd": f"./check {i} --tier thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": t, "level": IMPL, "level_note": n})
na = [{"property": i, "reason": NA.get(i, "check not built yet")} for i in props if i not in C]
m = {"version": 1, "setup_cmd": "./setup", "hooks": {"guard": "cfg(antlr_verif)", "enable": "RUSTFLAGS=--cfg antlr_verif (set in /verif/hooked/.cargo/config.toml)", "source_commits": ["a7f68fc"]},
     "checks": checks, "not_applicable": na}
m.update(EXTRA)
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
