#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and props.py."""
import json
import props

HOOK = "121fbd80e9da7f02d3de6f44261d04baab1d5387"

ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": "python3 check.py %s quick" % i,
            "thorough_cmd": "python3 check.py %s thorough" % i,
            "technique": p.get("technique", "symbolic execution of the compiled code (LLVM IR) with Z3 deciding every assertion"),
            "level": "model_checking",
            "level_note": "Bounds: " + (p["bounds"]("quick") if callable(p["bounds"]) else p["bounds"]) + ". Outside: " + p.get("outside", "-")
            + ". Trusts rustc's IR, the executor (explored paths are replayed natively) and Z3.",
        })
    else:
        na.append({"property": i, "reason": props.NOT_APPLICABLE.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "python3 setup_check.py", "checks": checks, "not_applicable": na,
     "hooks": {"guard": "--cfg husk_verif", "enable": "check.py passes RUSTFLAGS=--cfg husk_verif when it compiles /repo for C09 (no other check needs it)",
               "source_commits": [HOOK]},
     "notes": "Every check builds the executor and recompiles /repo itself (about 15 s)."}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
