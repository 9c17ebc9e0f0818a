"""Check decided by module Rlu: programs of sections over read-log-update variables."""
import itertools, random
from . import lib, lin
from .lib import log

ALL = ["moments", "abort", "late"]


def sec(ops, fail=0):
    return {"ops": ops, "fail": fail}


def singles(nv, c):
    """Sections with one guard."""
    out = []
    for x in range(1, nv + 1):
        out += [sec([["g", x]]), sec([["m", x], ["s", x, next(c)]]), sec([["m", x]]),
                sec([["m", x], ["s", x, next(c)], ["s", x, next(c)]])]
    return out


def one_guard():
    out = []
    n = len(singles(2, itertools.count()))
    for i in range(n):
        for j in range(i, n):
            c = itertools.count(100)
            a, b, e = singles(2, c), singles(2, c), singles(2, c)
            out.append(dict(vars=2, setup=[], threads=[[a[i]], [b[j]]], after=[{"get": 1}, {"get": 2}, e[1], {"get": 1}]))
            out.append(dict(vars=2, setup=[e[5]], threads=[[a[i], e[0], e[4]], [b[j]]], after=[sec([["g", 1]]), sec([["g", 2]]), {"get": 1}, {"get": 2}]))
    return out


def section(r, nv, c, most, fails):
    """Guards are asked for in the order of the variables, so that sections cannot wait for each other in a circle."""
    ops, last, held = [], 0, 0
    for _ in range(r.randint(1, most)):
        free = [x for x in range(1, nv + 1) if x > (last if held else 0)]
        if not free:
            break
        last = x = r.choice(free)
        held += 1
        if r.random() < .5:
            ops.append(["g", x])
        else:
            ops.append(["m", x])
            for _ in range(r.randint(0, 2)):
                ops.append(["s", x, next(c)])
        while held and r.random() < .3:
            ops.append([r.choice("dddo")])
            held -= 1
    return sec(ops, r.choice([0, 0, 0, 1]) if fails else 0)


def rand(r, n, sizes, most, fails, strategies=("abort",)):
    out = []
    for _ in range(n):
        c = itertools.count(100)
        nv = r.choice([1, 2, 2, 3])
        t, k = r.choice(sizes)
        mk = lambda: section(r, nv, c, most, fails)
        gets = [{"get": x} for x in range(1, nv + 1)]
        out.append(dict(vars=nv, strategy=r.choice(strategies), setup=[mk()] if r.random() < .5 else [],
                        threads=[[mk() for _ in range(k)] for _ in range(t)],
                        after=gets + [mk(), mk()] + gets))
    return out


def alone(r, n):
    """Sections one after another, with strategies that repeat."""
    out = []
    for p in rand(r, n, ((0, 0),), 3, True, ("abort", "retry", "breaker")):
        p["after"] = p["after"] + p["after"]
        out.append(p)
    # one section that takes and releases many guards
    for strategy in ("abort", "retry"):
        c = itertools.count(100)
        ops = [o for i in range(40) for o in (["m", i % 2 + 1], ["s", i % 2 + 1, next(c)], ["d"])]
        out.append(dict(vars=2, strategy=strategy, setup=[], threads=[], after=[sec(ops), {"get": 1}, {"get": 2}]))
    return out


def stages(tier, seed):
    r = random.Random(f"rlu{tier}{seed}")
    q = tier == "quick"
    two = ((2, 1), (2, 2), (3, 1))
    more = ((2, 3), (3, 2), (4, 1), (3, 3))
    return [("guards", "dfs", one_guard(), 150 if q else 3000, 2 if q else 4, ["late"]),
            ("guard", "random", rand(r, 250 if q else 6000, two, 1, False), 20 if q else 80, 0, ["late"]),
            ("alone", "free", alone(r, 150 if q else 2000), 1, 0, ["moments", "abort"]),
            ("sections", "random", rand(r, 160 if q else 8000, two + more, 3, False), 10 if q else 80, 0, ALL),
            ("fails", "random", rand(r, 140 if q else 6000, two + more, 3, True), 10 if q else 80, 0, ALL),
            ("free", "free", rand(r, 40 if q else 2000, more, 2, True), 10 if q else 40, 0, ALL)]


def run(prop, tier, seed, only=None, vh=None):
    work = lib.workdir(prop)
    rdir = lib.replay_dir(prop)
    vh = vh or lib.build(hooks=True)()
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, counts={}, operations={}, runs=[])
    viol = []
    limit = 100 if tier == "quick" else 4 * 3600
    for name, mode, progs, cap, bound, allow in stages(tier, seed):
        if only and name not in only:
            continue
        d = work / name
        d.mkdir()
        params = dict(machine="rlu", mode=mode, cap=cap, bound=bound, hist=str(d / "hist"))
        viol += lin.stage(prop, name, d, rdir, vh, progs, params, seed, limit, cov, "Rlu", dict(allow=allow),
                          "sections that do not read one committed state, or whose changes are not committed as a whole", tier)
        dev, seen = {}, set()
        for k in ("clean", "late", "moments", "abort", "several"):
            ids = set(x for f in d.glob(f"v*/out_{k}") for x in f.read_text().split()) - seen
            dev[k] = len(ids)
            seen |= ids
        log(f"{name}: explained as {dev}")
        cov["runs"][-1]["explained_as"] = dev
        if viol:
            break
    return cov, viol
