#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + per-property sections generated from properties and contracts: python3 tools/design.py"""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    out = [open(os.path.join(HERE, "tools", "design_head.md")).read().rstrip(), "", "## Properties and how each is decided", ""]
    man = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    na = {n["property"]: n["reason"] for n in man["not_applicable"]}
    seeds = {}
    sd = os.path.join(HERE, "seeded")
    for s in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, s, "meta.json")))
        seeds.setdefault(m["property"], []).append((s, m["what_it_breaks"], m.get("caught", True)))
    for line in open(os.path.join(HERE, "properties.jsonl")):
        p = json.loads(line)
        out.append("### %s  %s" % (p["id"], p["title"]))
        out.append("")
        if p["id"] in na:
            out.append("Not applicable: " + na[p["id"]])
            out.append("")
            continue
        tree = ast.parse(open(os.path.join(HERE, "contracts", p["id"] + ".py")).read())
        consts = {}
        for f in tree.body:
            if isinstance(f, ast.Assign):
                try:
                    consts[f.targets[0].id] = eval(compile(ast.Expression(f.value), "c", "eval"), {}, consts)
                except Exception:
                    pass
        n = 0
        for f in tree.body:
            if isinstance(f, ast.FunctionDef):
                for d in f.decorator_list:
                    if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "contract":
                        t = eval(compile(ast.Expression(d.args[0]), "c", "eval"), {}, consts)
                        out.append("- `%s` against contract `%s`: %s" % (t, f.name, (ast.get_docstring(f) or "whole behaviour").replace("\n", " ")))
                        n += 1
        if p["id"] in seeds:
            out.append("- planted bugs: " + "; ".join("`%s` (%s%s)" % (a, b, "" if c else "; NOT caught") for a, b, c in seeds[p["id"]]))
        out.append("")
    open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out) + "\n")


if __name__ == "__main__":
    main()
