#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py"""
import json, os
from props import PROPS, NOT_APPLICABLE
D = os.path.dirname(os.path.abspath(__file__))
TECH = "symbolic execution of the compiled code (LLVM IR) with SMT (z3)"
with open(os.path.join(D, "properties.jsonl"), "w") as f:
    for pid, p in sorted(list(PROPS.items()) + [(n["id"], n) for n in NOT_APPLICABLE]):
        assert len(p["title"]) <= 80, pid
        f.write(json.dumps({"id": pid, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["qtext"]},
                            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": p["mechanism"]}}) + "\n")
m = {"version": 1, "setup_cmd": "python3 run.py setup",
     "hooks": {"guard": "vh_native", "enable": "no hooks in /repo are needed: the checks copy /repo/iOverlay/src into a scratch crate and add harness modules there; --cfg vh_native selects the native replay build of that crate", "source_commits": []},
     "checks": [{"property": pid, "quick_cmd": "python3 run.py check %s quick" % pid, "thorough_cmd": "python3 run.py check %s thorough" % pid, "technique": TECH,
                 "level": "model_checking", "level_note": "bounded: " + p["note"] + ". Trusts rustc/LLVM up to the emitted IR, irsym and z3; counterexamples are replayed natively, witnesses of every path class are compared with the native run.",
                 "evidence_file": "evidence/%s.json" % pid} for pid, p in sorted(PROPS.items())],
     "not_applicable": [{"property": n["id"], "reason": n["reason"]} for n in NOT_APPLICABLE],
     "notes": "see DESIGN.md; i_overlay as pinned does not compile offline, vendor/i_shape holds a stand-in for the missing module"}
json.dump(m, open(os.path.join(D, "MANIFEST.json"), "w"), indent=1)
with open(os.path.join(D, "PROPERTIES.md"), "w") as f:
    f.write("# Properties, how each is decided, bounds\n\nGenerated by mk.py from props.py.\n")
    for pid, p in sorted(PROPS.items()):
        f.write("\n## %s %s\n\n%s\n\nOver: %s. %s\n\nBounded by: %s.\n\n" % (pid, p["title"], p["statement"], p["qtext"], "", p["note"]))
        for a in p["assumptions"]:
            f.write("Assumes: %s.\n\n" % a)
        f.write("| harness | what | bounds | tier |\n|---|---|---|---|\n")
        for h in p["harnesses"]:
            f.write("| %s | %s | %s | %s |\n" % (h["name"], h["what"], h["bounds"], "thorough" if h.get("thorough_only") else "quick"))
    f.write("\n# Not applicable\n")
    for n in NOT_APPLICABLE:
        f.write("\n## %s %s\n\n%s\n\n%s\n" % (n["id"], n["title"], n["statement"], n["reason"]))
