"""Checks decided by modules FileSys, CommitFS, CommitRace and Register: commits under faults, kills, losses of power and concurrency."""
import json, random
from . import lib, lin
from .lib import Tlc, ToolError, log


def stages(tier, seed):
    r = random.Random(f"commit{tier}{seed}")
    q = tier == "quick"
    sizes = [10, 5000, 300000]
    c = lambda api, size: dict(api=api, size=size)
    sweep = []
    for path in ["plain", "sub", "dot"]:
        for api in ["kp", "stored"]:
            for before in ([], [10], [5000, 10]):
                for size in (sizes if not q else sizes[:2]):
                    sweep.append(dict(path=path, steps=[c("kp" if api == "kp" else r.choice(["kp", "stored"]), s) for s in before] + [c(api, size)]))
    if q:
        sweep = sweep[:12] + r.sample(sweep[12:], 6)
    rand = [dict(path=r.choice(["plain", "plain", "sub", "dot"]), steps=[c(r.choice(["kp", "stored"]), r.choice(sizes)) for _ in range(r.randint(2, 8))])
            for _ in range(400 if q else 20000)]
    race = []
    for i in range(80 if q else 1500):
        ths = [dict(k="commit", n=r.randint(2, 5)) for _ in range(r.choice([1, 2, 2, 3, 4]))]
        ths += [dict(k="load", n=r.randint(10, 25)) for _ in range(r.choice([1, 2]))]
        if i % 2:
            ths += [dict(k="child", n=50, kill=r.randint(2000, 120000)) for _ in range(r.choice([1, 2, 3]))]
            if i % 4 == 1:
                ths = [t for t in ths if t["k"] != "commit"]
        race.append(dict(threads=ths))
    return [("sweep", "sweep", sweep, "CommitFS"), ("random", "random", rand, "CommitFS"), ("race", "race", race, "Register")]


def races(work, tier, cov, rdir, prop):
    """The recorded operations of undisturbed commits, interleaved by TLC."""
    tr = []
    for h in map(json.loads, open(work / "sweep" / "all.ndjson")):
        if h["key"] == "none":
            ev = h["ev"]
            i = max(k for k, e in enumerate(ev) if e["k"] == "begin")
            j = next(k for k in range(i, len(ev)) if ev[k]["k"] in ("ok", "err"))
            ops = []
            for e in ev[i + 1:j]:
                if not (ops and e["k"] == "write" and ops[-1]["k"] == "write" and ops[-1]["fd"] == e["fd"]):
                    ops.append(e)
            tr.append(dict(ev=ops))
    n = 12 if tier == "quick" else 40
    tr = tr[:n]
    f = work / "traces.ndjson"
    f.write_text("".join(json.dumps(t) + "\n" for t in tr))
    viol = []
    for k in ([2, 3] if tier == "quick" else [2, 3]):
        if k == 3:
            f.write_text("".join(json.dumps(t) + "\n" for t in tr[:4 if tier == "quick" else 8]))
        t = Tlc(work / f"race{k}", "CommitRace.tla", f"CommitRace{k}.cfg", {"VP_TRACES": f}, workers=4, heap="6g", timeout=600 if tier == "quick" else 3600,
                name=f"CommitRace {k}")
        x = t.wait(may_fail=True)
        log(f"{k} commits at the same time: {x}")
        cov["runs"].append(dict(run=f"interleavings of {k} recorded commits", tlc=x))
        cov["states"] += x.get("states", 0)
        cov["transitions"] += x.get("transitions", 0)
        if not x["complete"] and "is violated" not in t.text:
            raise ToolError(f"TLC on the recorded commits failed: {t.text[-2000:]}")
        if not x["complete"]:
            p = rdir / f"{prop}-interleaving-{k}.json"
            p.write_text(json.dumps(dict(property=prop, error="interleaved commits", traces=tr, tlc=t.text[-8000:])))
            viol.append((str(p), f"recorded file operations of {k} commits at the same time leave a partial or mixed snapshot"))
    return viol


def run(prop, tier, seed, only=None):
    work = lib.workdir(prop)
    rdir = lib.replay_dir(prop)
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, counts={}, operations={}, runs=[])
    vh = lib.build(hooks=False)()
    viol = []
    limit = 120 if tier == "quick" else 3 * 3600
    for name, mode, progs, module in stages(tier, seed):
        if only and name not in only:
            continue
        d = work / name
        d.mkdir()
        params = dict(machine="commit", mode=mode, hist=str(d / "hist"))
        viol += lin.stage(prop, name, d, rdir, vh, progs, params, seed, limit, cov, module, {}, "the path may be left with something else than a complete old or new snapshot, or the commit reported the wrong result", tier)
        if name == "sweep" and not viol:
            viol += races(work, tier, cov, rdir, prop)
        if viol:
            break
    return cov, viol
