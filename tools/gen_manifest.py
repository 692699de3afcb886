#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of claimed properties."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
AI = "static analysis: path-sensitive abstract interpretation of the compiler's MIR (linear inequalities, sequence terms, loop summaries)"
NOTE = ("Every obligation is decided on the MIR of the current source by abstract interpretation over all inputs, random draws and paths; "
        "trusts rustc's MIR, the models of std/rand/rayon/object-pool calls and the interpreter itself. Obligations whose values the interpreter "
        "cannot represent are reported as undecided and raise no alarm (none on the current tree).")
CLAIMED = {
    "P15": (AI, None), "P26": (AI, None), "P29": (AI, None), "P30": (AI, None), "P34": (AI, None), "P35": (AI, None),
    "P01": (AI, None), "P02": (AI, None), "P03": (AI, None), "P04": (AI, None), "P05": (AI, None), "P14": (AI, None), "P16": (AI, None), "P17": (AI, None), "P18": (AI, None), "P41": (AI, None),
    "P06": (AI, None), "P07": (AI + "; visibility and type queries over the exported items", None), "P08": (AI, None), "P09": (AI, None), "P10": (AI, None),
    "P11": (AI, None), "P12": (AI, None), "P13": (AI, None), "P19": (AI, None), "P23": (AI, None), "P24": (AI, None), "P27": (AI, None),
    "P28": (AI, None), "P31": (AI, None), "P20": (AI, None), "P21": (AI, None), "P22": (AI, None), "P33": (AI, None), "P42": (AI, None), "P43": (AI, None), "P44": (AI, None),
    "P39": (AI + "; ranking arguments for every loop and repeatability of every path through its body", None), "P45": (AI + "; decoding of the compiled format templates", None),
    "P25": ("effect analysis over the resolved call graph (ambient sources, hash order, statics); " + AI + " for the generator each draw uses", None),
    "P32": ("unsafety, static and captured-state query over the type-checked program; " + AI + " for the generator each parallel task uses", None),
}
NA = {
    "P36": "termination time of a run is a runtime quantity no static argument in reach can bound",
}
NA.update(json.load(open(os.path.join(HERE, "tools", "not_applicable.json"))))
checks = []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, n = CLAIMED[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "python3 check.py " + i, "technique": t, "level": "other", "level_note": n or NOTE})
na = [{"property": p["id"], "reason": NA.get(p["id"], "not claimed yet: its static check is still under construction")} for p in props if p["id"] not in CLAIMED]
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "All checks share one analysis (analysis/) of the MIR exported by driver/ from /repo's current tree; see DESIGN.md."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
