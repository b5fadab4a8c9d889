#!/usr/bin/env python3
"""Decide one property: python3 run_check.py <ID> [--verbose].

Reads /repo's current source, reduces every function named by the property's contracts
to normal form, compares it with the contract, reports each differing construct."""
import json
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

from ncsa import contract as C          # noqa: E402
from ncsa import terms as T             # noqa: E402
from ncsa.repo import Repo              # noqa: E402


CONTRACT_S, TOTAL_S = 90, 600       # beyond these a contract is reported as undecided


class Late(Exception):
    pass


def known_findings():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#") and not line.startswith("fixed:"):
                out.append(json.loads(line))
    return out


def selftest():
    """setup: every contract file parses"""
    repo, n = Repo(), 0
    for f in sorted(os.listdir(os.path.join(HERE, "contracts"))):
        if f.endswith(".py"):
            n += len(C.load(repo, os.path.join(HERE, "contracts", f), f[:-3]))
    print("%d contracts loaded" % n)
    return 0


def main():
    pid = sys.argv[1]
    if pid == "--selftest":
        return selftest()
    verbose = "--verbose" in sys.argv
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    path = os.path.join(HERE, "contracts", pid + ".py")
    if not os.path.exists(path):
        print("no contracts for", pid)
        return 2
    C.TIER = tier
    C.EVERY_CASE |= set((k["property"], k["contract"]) for k in known_findings())
    repo = Repo()
    contracts = C.load(repo, path, pid)
    if not contracts:
        print("no contracts in", path)
        return 2
    viol, undecided, anchors = [], [], []
    tot = {"obligations": 0, "nodes": 0, "callsites": 0}
    functions, bounded, rules = set(), set(), []
    def late(*_):
        raise Late("no normal form within the time limit")
    signal.signal(signal.SIGALRM, late)
    for c in contracts:
        left = TOTAL_S - (time.time() - t0)
        try:
            signal.alarm(max(1, int(min(CONTRACT_S, left))))
            fs, st = C.check(repo, c)
            signal.alarm(0)
        except C.AnchorError as e:
            signal.alarm(0)
            anchors.append("%s: %s" % (c.name, e))
            undecided.append({"contract": c.name, "target": c.target, "why": "anchor: %s" % e})
            continue
        except (SyntaxError, OSError):
            raise
        except Exception as e:      # out of time, or a construct the extractor does not model
            signal.alarm(0)
            T._on_make.clear()
            if verbose:
                traceback.print_exc()
            undecided.append({"contract": c.name, "target": c.target, "why": "extractor: %s: %s" % (type(e).__name__, e)})
            continue
        for k in ("obligations", "nodes", "callsites"):
            tot[k] += st[k]
        functions |= {f for f in st["functions"] if not f.startswith("spec:")}
        bounded |= st["bounded"]
        rules.append({"rule": c.name, "target": c.target, "obligations": st["obligations"], "text": c.doc[:200]})
        for f in fs:
            d = {"contract": c.name, "target": c.target, "facet": f.facet, "case": f.case, "where": f.where(), "detail": f.detail[:3000], "rule": c.doc}
            (viol if f.verdict == "DIFFERENT" else undecided).append(d)
    known = [k for k in known_findings() if k["property"] == pid]
    fresh = []
    for v in viol:
        hit = [k for k in known if k["contract"] == v["contract"] and k["facet"] == v["facet"] and k.get("code", "") in v["detail"]]
        if hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, hit[0]["what"]))
        else:
            fresh.append(v)
    discharged = tot["obligations"] - len(viol) - len(undecided)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": "Static value-flow analysis: each contract's target and its specification are reduced to gated value "
                           "graphs over all paths (helpers expanded at call sites) and compared for identity after normalisation. "
                           "No repository code is executed.",
            "obligations": tot["obligations"], "discharged": discharged, "contracts": len(contracts),
            "functions_analysed": sorted(functions), "call_sites": tot["callsites"], "graph_nodes_compared": tot["nodes"],
            "rules": rules, "undecided": undecided, "loops_compared_up_to_3_iterations_only": sorted(bounded),
            "samples": rules[:3], "anchors_missing": anchors,
        },
        "assumptions": ["PyTorch / CompressAI / torchmetrics functions are uninterpreted: equal arguments give equal results",
                        "tensors passed under different names do not alias unless one is derived from the other in the analysed code"],
        "violations": len(fresh), "wall_s": round(time.time() - t0, 3),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for u in undecided:
        print("UNDECIDED %s %s: %s" % (u["contract"], u.get("facet", ""), (u.get("why") or u["detail"])[:400 if not verbose else 4000]))
    if fresh:
        os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
        rp = os.path.join(HERE, "evidence", "replay", pid + ".json")
        with open(rp, "w") as f:
            json.dump(fresh, f, indent=1)
        for v in fresh:
            print("%s: [%s/%s] %s facet=%s case=%s\n    rule: %s\n    %s" % (
                v["where"], pid, v["contract"], v["target"], v["facet"], v["case"], v["rule"], v["detail"][:600 if not verbose else 4000]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("OK property=%s obligations=%d discharged=%d functions=%d undecided=%d (%.1fs)" % (
        pid, tot["obligations"], discharged, len(functions), len(undecided), time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
