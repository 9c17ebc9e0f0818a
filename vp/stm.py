"""Checks decided by modules Stm and TL2: programs of concurrent transactions."""
import itertools, json, random, subprocess
from . import lib, lin
from .lib import Tlc, ToolError, log


def tx(ops, ro=False, fail=0):
    return {"ro": ro, "ops": ops, "fail": fail}


def small(vals, nv=2):
    """Small transactions over nv variables; vals: iterator of values to write."""
    R, W = (lambda x: ["r", x]), (lambda x: ["w", x, next(vals)])
    xs = range(nv)
    out = []
    for x in xs:
        y = (x + 1) % nv
        out += [tx([R(x), W(x)]), tx([R(x), W(y)]), tx([W(x), R(y), W(y)]), tx([R(x), R(y), W(x), R(x)]), tx([W(x), W(y)])]
        out += [tx([R(x), R(y)], True)]
    out += [tx([R(0), R(1), R(0)], True), tx([W(0), R(0), R(1)], True), tx([R(0), W(0), W(1)], fail=1)]
    return out


def counter():
    return itertools.count(100)


def pairs():
    out = []
    n = len(small(counter()))
    for i in range(n):
        for j in range(i, n):
            c = counter()
            a, b = small(c)[i], small(c)[j]
            out.append(dict(vars=2, types=(i + j) % 5, setup=[], threads=[[a], [b]]))
    return out


def rand(r, n, sizes):
    out = []
    for _ in range(n):
        c = counter()
        t, k = r.choice(sizes)
        nv = r.choice([1, 2, 2, 3, 3, 5])
        threads = []
        for _ in range(t):
            txs = []
            for _ in range(k):
                ops = []
                for _ in range(r.randint(1, 5)):
                    x = r.randrange(nv)
                    ops.append(["r", x] if r.random() < .5 else ["w", x, next(c)])
                txs.append(tx(ops, r.random() < .25, r.choice([0, 0, 0, 0, 1, 2])))
            threads.append(txs)
        out.append(dict(vars=nv, types=r.randrange(5), setup=[tx([["w", 0, next(c)]])] if r.random() < .5 else [], threads=threads))
    return out


def stages(tier, seed, prop):
    r = random.Random(f"stm{prop}{tier}{seed}")
    q = tier == "quick"
    many = ((2, 1), (2, 2), (3, 1), (3, 2), (2, 3), (4, 1))
    free = ((4, 6), (6, 4), (3, 10), (2, 20))
    return [("pairs", "dfs", pairs(), 120 if q else 4000, 2 if q else 3),
            ("random", "random", rand(r, 500 if q else 12000, many), 30 if q else 120, 0),
            ("free", "free", rand(r, 48 if q else 1500, free), 8 if q else 30, 0)]


def algorithm(prop, work, tier):
    """TLC on the algorithm itself (modules TL2 and TL2Solo)."""
    d = work / "tl2"
    d.mkdir()
    q = tier == "quick"
    if prop == "C18":
        cfgs = [("TL2", "MCTL2.tla", "TL2.cfg")] + ([] if q else [("TL2Deep", "MCTL2.tla", "TL2Deep.cfg")])
    else:
        cfgs = [("TL2Solo", "TL2Solo.tla", "TL2Solo.cfg")] + ([] if q else [("TL2SoloDeep", "TL2Solo.tla", "TL2SoloDeep.cfg")])
    return [(n, Tlc(d / n, m, c, {}, workers=3 if q else 8, heap="8g", timeout=600 if q else 7200, name=n)) for n, m, c in cfgs]


def run(prop, tier, seed, only=None):
    work = lib.workdir(prop)
    rdir = lib.replay_dir(prop)
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, counts={}, operations={}, runs=[])
    alg = algorithm(prop, work, tier)
    vh = lib.build(hooks=True)()
    viol = []
    limit = 100 if tier == "quick" else 4 * 3600
    for name, mode, progs, cap, bound in stages(tier, seed, prop):
        if only and name not in only:
            continue
        d = work / name
        d.mkdir()
        params = dict(machine="stm", mode=mode, cap=cap, bound=bound, hist=str(d / "hist"))
        viol += lin.stage(prop, name, d, rdir, vh, progs, params, seed, limit, cov, "Stm", dict(check=prop), "the transactions are not serializable, read inconsistent states, or were repeated without a conflict", tier)
        if viol:
            break
    for n, t in alg:
        if viol:
            t.p.kill()
            continue
        x = t.wait()
        log(f"{n}: {x}")
        cov["runs"].append(dict(run=n, tlc=x))
        cov["states"] += x.get("states", 0)
        cov["transitions"] += x.get("transitions", 0)
    return cov, viol
