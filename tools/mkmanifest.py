#!/usr/bin/env python3
"""Write /verif/MANIFEST.json from the table below and properties.jsonl."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LOCKNOTE = ("Exploration by runtime monitoring: holds on every execution observed (counts in the evidence), nothing beyond. Trusts "
            "native/iss.h as reading of the ISA and documentation, the netlist compiler (cross-validated every run against Amaranth's "
            "simulator) and the documented environment: acknowledge no earlier than the second cycle of a transfer.")
LOCK = "online lock-step monitor (reference model vs bus trace) over the elaborated core under hostile random and systematic workloads"
C = {i: (LOCK, LOCKNOTE) for i in "C01 C02 C03 C04 C05 C06 C07 C08 C09 C11 C12".split()}
exec(open(os.path.join(V, "tools", "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="./setup.sh",
         hooks=dict(guard="none", enable="No hooks: checks observe the unmodified core at its ports.", source_commits=[]),
         checks=[dict(property=p["id"], quick_cmd=f"./check {p['id']}", thorough_cmd=f"./check {p['id']}",
                      technique=C[p["id"]][0], level="exploration", level_note=C[p["id"]][1]) for p in props if p["id"] in C],
         not_applicable=[dict(property=p["id"], reason=NA.get(p["id"], "check under construction")) for p in props if p["id"] not in C],
         notes="See DESIGN.md. VERIF_TIER selects the depth; VERIF_SEED every random choice.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
