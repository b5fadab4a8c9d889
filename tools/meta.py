#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 tools/meta.py rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "neuralcompression/models/"
L = "neuralcompression/layers/"
FN = "neuralcompression/functional/"
PROPS, NA = [], []


def P(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, (id, len(title))
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                  "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})


def N(id, title, statement, over, text, why, files, mech, reason):
    P(id, title, statement, over, text, why, files, mech)
    NA.append({"property": id, "reason": reason})


exec(open(os.path.join(HERE, "tools", "props.py")).read())

TECH = "value-flow analysis of the source: every path reduced to a normal form and compared with the contract (no execution)"
NOTE = ("Holds for all inputs, configurations and paths of the analysed functions, given that library functions (PyTorch, CompressAI, "
        "torchmetrics) are deterministic functions of their arguments; a construct the extractor cannot reduce is reported as undecided in the evidence.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    na = {n["property"] for n in NA}
    man = {"version": 1, "setup_cmd": "python3 run_check.py --selftest",
           "checks": [{"property": p["id"], "quick_cmd": "python3 run_check.py " + p["id"], "thorough_cmd": "python3 run_check.py " + p["id"],
                       "technique": TECH, "level": "other", "level_note": NOTE} for p in PROPS if p["id"] not in na],
           "not_applicable": NA}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
