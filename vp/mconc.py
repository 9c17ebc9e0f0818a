"""Guarded buffers and split secrets shared by threads (modules GuardConc, ShardConc, BoxedAlg, ShardAlg)."""
import json, random
from . import lib, lin
from .lib import Tlc, ToolError, log

CONFS = ["nc.ram", "nc.file", "nc.mixed", "nc.map", "nc.direct", "nc.hybrid"]


def g_threads(r, t, k, nb):
    out = []
    for _ in range(t):
        ops = []
        for _ in range(k):
            b = r.randint(1, nb)
            ops.append(r.choice([["borrow", b]] * 5 + [["clone"]] * 3 + [["drop"]] * 4 + [["dropold"]] * 2 + [["read"]] * 3 +
                                [["refeq"], ["eq", b, r.randint(1, nb)], ["eq", b, b], ["copy", b], ["copy", b], ["serde", b], ["probe", b], ["probe", b], ["give"], ["take"]]))
        out.append(ops)
    return out


def bufs(r, nb):
    v = [dict(val=r.choice("aab"), len=r.choice([1, 5, 5, 33, 5000])) for _ in range(nb)]
    if nb > 1 and r.random() < .6:
        v[1]["len"] = v[0]["len"]
    return v


def g_pairs():
    """Two threads with short sequences on one buffer, and a third that looks at it."""
    seqs = [[["borrow", 1], ["read"], ["drop"]], [["borrow", 1], ["clone"], ["drop"], ["read"]], [["copy", 1]], [["eq", 1, 2]], [["eq", 1, 1]], [["serde", 1]],
            [["borrow", 1], ["give"]], [["take"], ["read"]], [["borrow", 1], ["drop"], ["borrow", 1], ["read"]]]
    out = []
    for i, a in enumerate(seqs):
        for j, b in enumerate(seqs):
            if i <= j:
                out.append(dict(kind="g", bufs=[dict(val="a", len=9), dict(val="ab"[(i + j) % 2], len=9)], threads=[a, b, [["probe", 1]]]))
    return out


def g_rand(r, n, sizes):
    out = []
    for _ in range(n):
        t, k = r.choice(sizes)
        nb = r.choice([1, 1, 2, 3])
        out.append(dict(kind="g", bufs=bufs(r, nb), threads=g_threads(r, t, k, nb)))
    return out


def n_ops(r, k):
    w = lambda: r.choice(["", "", "own"])
    return [r.choice([["unlock", w()]] * 4 + [["refresh", w()]] * 4 + [["look", w()]] * 4 + [["clone", w()]] * 3 + [["serde", w()], ["wipe"], ["drop"], ["update"]]) for _ in range(k)]


def n_pairs():
    seqs = [[["unlock"]], [["refresh"]], [["clone"]], [["look"], ["refresh"], ["look"]], [["serde"]], [["clone"], ["wipe"], ["unlock"]], [["clone"], ["refresh", "own"], ["look", "own"]]]
    seqs = [[o + [""] if len(o) == 1 else o for o in q] for q in seqs]
    out = []
    for c in CONFS:
        for i, a in enumerate(seqs):
            for j, b in enumerate(seqs):
                if i <= j:
                    out.append(dict(kind="n", conf=c, val="ab"[i % 2], threads=[a, b]))
    return out


def n_rand(r, n, sizes):
    out = []
    for _ in range(n):
        t, k = r.choice(sizes)
        out.append(dict(kind="n", conf=r.choice(CONFS), val=r.choice(["a", "b", "c", "zero"]), threads=[n_ops(r, k) for _ in range(t)]))
    return out


def stages(prop, tier, seed):
    """(name, mode, programs, cap, bound)"""
    r = random.Random(f"mconc{prop}{tier}{seed}")
    q = tier == "quick"
    many, free = ((2, 3), (2, 6), (3, 3), (3, 5), (4, 3), (5, 2)), ((4, 6), (3, 9), (8, 3))
    if prop == "C15":
        return [("pairs", "dfs", g_pairs(), 400 if q else 5000, 3),
                ("random", "random", g_rand(r, 300 if q else 12000, many), 12 if q else 60, 0),
                ("free", "free", g_rand(r, 80 if q else 3000, free), 10 if q else 40, 0)]
    return [("pairs", "dfs", n_pairs(), 150 if q else 4000, 3),
            ("random", "random", n_rand(r, 200 if q else 8000, many), 10 if q else 60, 0),
            ("free", "free", n_rand(r, 64 if q else 2500, free), 6 if q else 30, 0)]


WHAT = {"C15": "the protection of a buffer's memory does not follow its borrows", "C16": "the shards that were seen are not those of a memory that is re-split as a whole"}


def run(prop, tier, seed, cov, only=None):
    """Adds to the coverage; returns the violations."""
    work = lib.workdir(prop + "-threads")
    rdir = lib.replay_dir(prop)
    q = tier == "quick"
    alg = "BoxedAlg" if prop == "C15" else "ShardAlg"
    t = Tlc(work / alg, f"{alg}.tla", f"{alg}.cfg" if q else f"{alg}Deep.cfg", {}, workers=2 if q else 8, heap="8g", timeout=600 if q else 7200, name=alg)
    vh = lib.build(hooks=True)()
    viol = []
    limit = 60 if q else 2 * 3600
    for name, mode, progs, cap, bound in stages(prop, tier, seed):
        if only and name not in only:
            continue
        d = work / name
        d.mkdir()
        params = dict(machine="mconc", mode=mode, cap=cap, bound=bound, hist=str(d / "hist"))
        viol += lin.stage(prop, name, d, rdir, vh, progs, params, seed, limit, cov, "GuardConc" if prop == "C15" else "ShardConc", {}, WHAT[prop], tier)
        if viol:
            t.p.kill()
            return viol
    x = t.wait()
    log(f"{alg}: {x}")
    cov["runs"].append(dict(run=alg, tlc=x))
    cov["states"] += x.get("states", 0)
    cov["transitions"] += x.get("transitions", 0)
    return viol
