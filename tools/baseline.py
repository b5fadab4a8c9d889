#!/usr/bin/env python3
"""Records the private names of the repository (ncsa/baseline.json), so that a later rename of a private
function, method or attribute is recognised as such: python3 tools/baseline.py"""
import ast
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from ncsa import repo as R      # noqa: E402


def main():
    r = R.Repo()
    out = {}
    for proj, root in R.PROJECT_ROOTS.items():
        base = os.path.join(r.root, root)
        for d, ds, fs in os.walk(base):
            ds[:] = [x for x in ds if not x.startswith(".") and x not in ("tests", "projects", "build", "__pycache__")]
            for f in fs:
                if f.endswith(".py"):
                    name = os.path.relpath(os.path.join(d, f), base)[:-3].replace(os.sep, ".")
                    name = name[:-9] if name.endswith(".__init__") else name
                    try:
                        m = r.module((proj + ":" if proj else "") + name)
                    except SyntaxError:
                        continue
                    if m is None:
                        continue
                    e = out.setdefault(m.name, {"funcs": {}, "classes": {}})
                    for n, b in m.names.items():
                        if b[0] == "func":
                            e["funcs"][n] = R.param_names(b[1])
                        elif b[0] == "class":
                            c = r.entity(m, n)
                            e["classes"][n] = {"methods": {k: R.param_names(v.node) for k, v in c.methods.items()}, "attrs": c.own_stored()}
    with open(os.path.join(HERE, "ncsa", "baseline.json"), "w") as f:
        json.dump(out, f, indent=0, sort_keys=True)
    print(len(out), "modules")


if __name__ == "__main__":
    main()
