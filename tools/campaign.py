#!/usr/bin/env python3
"""Self-test of the analysis (not a check): rewrites functions of /repo in memory, one site at a time, and
re-runs the contracts that analyse them.

  campaign.py refactor [filter]   behaviour-preserving rewrites: lists every alarm (there should be none)
  campaign.py mutate [filter]     behaviour-changing edits: lists every edit no contract notices

OUT, ONLY (kinds), CAP, SEED, LIKE (file of an earlier run: only its edits whose verdict is in VERDICT) are
taken from the environment. Nothing is executed or written to /repo; results go to the file named by OUT (default /tmp/campaign.jsonl)."""
import ast
import builtins
import copy
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, "tools")]
sys.setrecursionlimit(20000)
from ncsa import contract as C          # noqa: E402
from ncsa import repo as R              # noqa: E402
from ncsa import terms as T             # noqa: E402
C.EVERY_CASE.add(("P16", "support"))

OVERLAY = {}
_open = builtins.open


class _Src:
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def read(self):
        return self.s


def fopen(p, *a, **k):
    if p in OVERLAY:
        return _Src(OVERLAY[p])
    return _open(p, *a, **k)


R.open = fopen


class Late(Exception):
    pass


def late(*_):
    raise Late()


def run(contract_ids, limit=60):
    """[(pid, name)] -> {(pid, name): verdict}"""
    repo = R.Repo()
    out = {}
    by = {}
    for pid, n in contract_ids:
        by.setdefault(pid, []).append(n)
    signal.signal(signal.SIGALRM, late)
    for pid, names in by.items():
        for c in C.load(repo, os.path.join(HERE, "contracts", pid + ".py"), pid):
            if c.name not in names:
                continue
            try:
                signal.alarm(limit)
                fs, st = C.check(repo, c)
                signal.alarm(0)
                v = "ok"
                if any(f.verdict == "UNDECIDED" for f in fs):
                    v = "undecided: " + [f.facet + " " + f.detail[:300] for f in fs if f.verdict == "UNDECIDED"][0]
                if any(f.verdict == "DIFFERENT" for f in fs):
                    v = "DIFFERENT: " + [f.facet + " " + f.detail[:700] for f in fs if f.verdict == "DIFFERENT"][0]
                if pid == "P16" and c.name == "support" and all(f.facet == "attrs._cdf_offsets" for f in fs):
                    v = "ok"
            except Exception as e:
                signal.alarm(0)
                T._on_make.clear()
                v = "undecided: %s %s" % (type(e).__name__, str(e)[:200])
            out["%s/%s" % (pid, c.name)] = v
    return out


def analysed(pid):
    repo = R.Repo()
    out = []
    for c in C.load(repo, os.path.join(HERE, "contracts", pid + ".py"), pid):
        try:
            fs, st = C.check(repo, c)
        except Exception as e:
            print("!!", pid, c.name, e)
            continue
        out.append((pid, c.name, sorted(f for f in st["functions"] if not f.startswith("spec:"))))
    return out


def funcs_of(tree):
    """{qualname: (class node or None, function node)}"""
    out = {}
    for s in tree.body:
        if isinstance(s, ast.FunctionDef):
            out[s.name] = (None, s)
        elif isinstance(s, ast.ClassDef):
            for m in s.body:
                if isinstance(m, ast.FunctionDef):
                    out.setdefault(s.name + "." + m.name, (s, m))
    return out


def gen_worker(a):
    kind, modname, q = a
    import refactor
    import mutate
    m = R.Repo().module(modname)
    out = []
    if q not in funcs_of(m.tree):
        return a, out
    only = os.environ.get("ONLY", "")
    for name, detail, tree in {"refactor": refactor.sites, "mutate": mutate.sites}[kind](m, q):
        if only and name not in only.split(","):
            continue
        try:
            src = ast.unparse(ast.fix_missing_locations(tree))
            ast.parse(src)
        except Exception as e:
            print("bad rewrite", name, q, e)
            continue
        out.append((name, detail, src))
    return a, out


def task(t):
    path, src, ids, meta = t
    OVERLAY.clear()
    OVERLAY[path] = src
    t0 = time.time()
    r = run(ids)
    OVERLAY.clear()
    return meta, r, time.time() - t0


def main():
    kind = sys.argv[1]
    flt = sys.argv[2] if len(sys.argv) > 2 else ""
    only = os.environ.get("ONLY", "")
    pids = sorted(f[:-3] for f in os.listdir(os.path.join(HERE, "contracts")) if f.endswith(".py"))
    random.seed(int(os.environ.get("SEED", "1")))
    with mp.Pool(8, maxtasksperchild=1) as pool:
        maps = pool.map(analysed, pids, chunksize=1)
    users = {}
    for m in maps:
        for pid, name, fs in m:
            for f in fs:
                users.setdefault(f, []).append((pid, name))
    repo = R.Repo()
    tasks = []
    mods = {}
    for q in sorted(users):
        parts = q.split(".")
        for i in range(len(parts) - 1, 0, -1):
            m = repo.module(".".join(parts[:i]))
            if m is not None:
                if not flt or flt in m.path:
                    mods[(kind, m.name, ".".join(parts[i:]))] = (m, users[q])
                break
    with mp.Pool(8) as pool:
        for a, out in pool.imap_unordered(gen_worker, sorted(mods), chunksize=1):
            m, ids = mods[a]
            for name, detail, src in out:
                tasks.append((m.path, src, ids, {"kind": name, "file": m.relpath, "func": a[2], "detail": detail}))
    like = os.environ.get("LIKE")
    if like:
        key = lambda d: (d["kind"], d["file"], d["func"], d["detail"])     # noqa: E731
        want = {key(d) for d in map(json.loads, _open(like)) if d["verdict"] in os.environ.get("VERDICT", "alarm,undecided").split(",")}
        tasks = [t for t in tasks if key(t[3]) in want]
    random.shuffle(tasks)
    cap = int(os.environ.get("CAP", "0"))
    if cap and len(tasks) > cap:
        tasks = random.sample(tasks, cap)
    print(len(tasks), "edits", flush=True)
    t0 = time.time()
    outp = os.environ.get("OUT", "/tmp/campaign.jsonl")
    stat = {}
    with mp.Pool(8, maxtasksperchild=25) as pool, _open(outp, "w") as f:
        for meta, r, dt in pool.imap_unordered(task, tasks, chunksize=1):
            bad = [k for k, v in r.items() if v.startswith("DIFF")]
            und = [k for k, v in r.items() if v.startswith("undec")]
            v = "alarm" if bad else "undecided" if und else "quiet"
            s = stat.setdefault(meta["kind"], {"alarm": 0, "undecided": 0, "quiet": 0})
            s[v] += 1
            meta.update(verdict=v, results={k: x for k, x in r.items() if x != "ok"}, s=round(dt, 1))
            f.write(json.dumps(meta) + "\n")
            f.flush()
    for k in sorted(stat):
        print(k, stat[k])
    print("%.0f s" % (time.time() - t0))


if __name__ == "__main__":
    main()
