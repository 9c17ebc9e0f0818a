"""Checks decided by module Lin: programs of several threads run on the code under a controlled
scheduler; the recorded histories must be explained by the specification."""
import hashlib, itertools, json, random, subprocess
from . import lib
from .lib import Tlc, ToolError, log

PLEN = {"k1": 32, "k2": 32, "s1": 64, "x1": 24, "y1": 160}
PARAMS = dict(machine="lin", vaults=["v1", "v2"], recs=["r1", "r2"], skeys=["a", "b"], paths=["p1", "p2", "p3"],
              files=["f1", "f2"], badfiles=[], keys=["K1", "K2"], svals=["u", "w"], kinds=[], plen=PLEN)
L = lambda r, v="v1": [v, r]


def st(p, s=(), d=(), a=""):
    return {"p": p, "s": [list(x) for x in s], "d": list(d), "a": a}


def ex(h, step):
    return {"k": "exec", "o": 0, "h0": h, "st": step}


def chain(h, *steps):
    return {"k": "chain", "o": 0, "h0": h, "sts": list(steps)}


def op(k, h, **f):
    return {"k": k, "o": 0, "h0": h, **f}


def client_ops(h, val="u", pay="k1", pay2="k2"):
    """A catalogue of calls on one client."""
    r1, r2, w1 = L("r1"), L("r2"), L("r1", "v2")
    return [
        op("vwrite", h, l=r1, a=pay2), op("vwrite", h, l=r2, a="x1"), op("vwrite", h, l=w1, a=pay),
        op("vrevoke", h, l=r1), op("vdelete", h, l=r1), op("vcleanup", h, v="v1"),
        op("rexists", h, l=r1), op("vexists", h, v="v2"), op("rexists", h, l=w1),
        ex(h, st("hmac", [r1], a="h256")), ex(h, st("pub_ed", [r1])), ex(h, st("cmp", [r1], a=pay)),
        ex(h, st("copy", [r1], r2)), ex(h, st("copy", [r1], w1)), ex(h, st("concat", [r1, r2], r1)),
        ex(h, st("hkdf", [r1], r1, "h256")), ex(h, st("revoke", [], r1, "gc")), ex(h, st("gc", [], [], "v1")),
        ex(h, st("copy", [w1], r1)),
        chain(h, st("copy", [r1], w1), st("hmac", [w1], a="h256")),
        chain(h, st("write", [], r2, "k2"), st("copy", [["v9", "r9"]], r1)),
        op("sput", h, key="a", val=val, life=1000), op("sget", h, key="a"), op("sdel", h, key="a"), op("skeys", h),
        op("sput", h, key="b", val=val, life=1000),
    ]


def vault_setups(h="A"):
    c = [{"k": "create", "o": 0, "p": "p1", "h": h}]
    w1 = [op("vwrite", h, l=L("r1"), a="k1")]
    return [c, c + w1 + [op("sput", h, key="a", val="w", life=1000)],
            c + w1 + [op("vwrite", h, l=L("r2"), a="k2"), op("vrevoke", h, l=L("r1"))],
            c + w1 + [op("vwrite", h, l=L("r2"), a="s1"), op("vwrite", h, l=L("r1", "v2"), a="k2")]]


def session_ops(i):
    """A catalogue of calls on the session; i makes names of handles different."""
    return [
        {"k": "create", "o": 0, "p": "p1", "h": f"c{i}"}, {"k": "create", "o": 0, "p": "p3", "h": f"d{i}"},
        {"k": "get", "o": 0, "p": "p1", "h": f"g{i}"}, {"k": "loadc", "o": 0, "p": "p2", "h": f"l{i}"},
        {"k": "loadc", "o": 0, "p": "p1", "h": f"m{i}"},
        {"k": "loadf", "o": 0, "p": "p2", "key": "K1", "f": "f1", "h": f"n{i}"},
        op("unload", "A"), op("purge", "A"), {"k": "capture", "o": 0, "p": "p1"}, {"k": "capture", "o": 0, "p": "p2"},
        {"k": "clear", "o": 0}, {"k": "setkey", "o": 0, "key": "K2", "loc": 0},
        {"k": "commitk", "o": 0, "f": "f2", "key": f"K{1 + i % 2}"}, {"k": "commit", "o": 0, "f": "f2"},
        {"k": "load", "o": 0, "f": "f1", "key": "K1"}, {"k": "load", "o": 0, "f": "f2", "key": "K1"},
        op("sput", "session", key="a", val="u", life=1000), op("sget", "session", key="a"),
    ]


def some_client_ops(h):
    r1, w1 = L("r1"), L("r1", "v2")
    return [op("vwrite", h, l=r1, a="k2"), op("vwrite", h, l=w1, a="x1"), op("vrevoke", h, l=r1), op("vdelete", h, l=r1),
            ex(h, st("hmac", [r1], a="h256")), ex(h, st("copy", [r1], w1)), op("sput", h, key="a", val="u", life=1000),
            chain(h, st("copy", [r1], w1), st("hkdf", [w1], L("r2"), "h256"))]


def session_setups():
    c = [{"k": "create", "o": 0, "p": "p1", "h": "A"}, op("vwrite", "A", l=L("r1"), a="k1")]
    two = c + [{"k": "create", "o": 0, "p": "p2", "h": "B"}, op("vwrite", "B", l=L("r1"), a="k2"), op("sput", "B", key="a", val="w", life=1000)]
    committed = two + [{"k": "setkey", "o": 0, "key": "K1", "loc": 0}, {"k": "commit", "o": 0, "f": "f1"}]
    unloaded = committed + [op("vwrite", "A", l=L("r2"), a="x1"), op("unload", "B")]
    return [c, two, committed, unloaded]


def c13_pairs(r):
    out = []
    a, b = client_ops("A", "u"), client_ops("A", "w", "k1", "s1")
    for si, s in enumerate(vault_setups()):
        for i, x in enumerate(a):
            for j, y in enumerate(b):
                if i <= j:
                    out.append(dict(setup=s, threads=[[x], [y]], after=[]))
    return out


def c13_random(r, n, sizes=((2, 2), (2, 3), (3, 1), (3, 2), (4, 1)), syncs=False):
    out = []
    for _ in range(n):
        t, k = r.choice(sizes)
        setup = r.choice(vault_setups())
        two = r.random() < .3
        if two:
            setup = setup + [{"k": "create", "o": 0, "p": "p2", "h": "B"}, op("vwrite", "B", l=L("r1"), a="s1")]
        threads = []
        for i in range(t):
            ops = [r.choice(client_ops(r.choice("AB") if two else "A", f"u{i}", r.choice(["k1", "x1", "s1"]), r.choice(["k2", "x1", "s1"]))) for _ in range(k)]
            if r.random() < .15:
                ops = [{"k": "get", "o": 0, "p": "p1", "h": f"g{i}"}] + [{**o, "h0": f"g{i}"} if o["h0"] == "A" else o for o in ops]
            threads.append(ops)
        p = dict(setup=setup, threads=threads, after=[])
        if syncs:
            if not two:
                p["setup"] = setup + [{"k": "create", "o": 0, "p": "p2", "h": "B"}, op("vwrite", "B", l=L("r1"), a="s1")]
            for i in range(t):
                if i < 2 or r.random() < .5:
                    a, b = r.choice(["AB", "BA", "AA"])
                    cfg = {"pol": r.choice(["keep", "replace"]), "all": True, "sv": [], "sr": [], "mp": []}
                    threads[i].insert(r.randrange(len(threads[i]) + 1), {"k": "sync", "o": 0, "h0": a, "h1": b, "cfg": cfg})
            p["nolin"] = True
        out.append(p)
    return out


def c14_pairs(r):
    out = []
    a, b = session_ops(0) + some_client_ops("A"), session_ops(1) + some_client_ops("A")
    for s in session_setups():
        for i, x in enumerate(a):
            for j, y in enumerate(b):
                if i <= j and (x["k"] in SNAP or y["k"] in SNAP):
                    out.append(dict(setup=s, threads=[[x], [y]], after=[], session=True))
    return out


SNAP = {"create", "get", "loadc", "loadf", "unload", "purge", "capture", "clear", "setkey", "commitk", "commit", "load"}


def c14_random(r, n, sizes=((2, 2), (2, 3), (3, 1), (3, 2), (4, 1)), busy=False):
    out = []
    for _ in range(n):
        t, k = r.choice(sizes)
        setup = r.choice(session_setups())
        have = [o["h"] for o in setup if "h" in o]
        threads = []
        for i in range(t):
            ops = []
            for j in range(k):
                if busy and i == 0 or r.random() < .5:
                    o = r.choice(session_ops(f"{i}{j}" and i * 10 + j))
                    if busy and i == 0:
                        o = r.choice([x for x in session_ops(i * 10 + j) if x["k"] in ("commit", "commitk", "capture", "purge", "unload", "loadc")])
                else:
                    o = r.choice(some_client_ops(r.choice(have)))
                if o["k"] in ("unload", "purge"):
                    o = {**o, "h0": r.choice(have)}
                ops.append(o)
            threads.append(ops)
        out.append(dict(setup=setup, threads=threads, after=[], session=True))
    return out


def stages(prop, tier, seed):
    """(name, mode, programs, cap, points)"""
    r = random.Random(f"{prop}{tier}{seed}")
    q = tier == "quick"
    if prop == "C13":
        return [("pairs", "dfs", c13_pairs(r), 250 if q else 2000, ["read", "write"]),
                ("random", "random", c13_random(r, 400 if q else 6000), 25 if q else 80, []),
                ("syncs", "random", c13_random(r, 100 if q else 1500, syncs=True), 20 if q else 60, []),
                ("free", "free", c13_random(r, 120 if q else 2000, ((2, 4), (4, 2), (3, 3), (6, 1))), 12 if q else 40, [])]
    return [("pairs", "dfs", c14_pairs(r), 90 if q else 600, ["read", "write"]),
            ("random", "random", c14_random(r, 400 if q else 6000), 25 if q else 80, []),
            ("busy", "random", c14_random(r, 200 if q else 3000, ((2, 3), (3, 2)), True), 20 if q else 60, []),
            ("free", "free", c14_random(r, 120 if q else 2000, ((2, 4), (4, 2), (3, 3))), 12 if q else 40, [])]


CHUNK = 12000


def validate(work, n, workers=4, par=2, timeout=600, module="Lin", params=None):
    """TLC on the n files of histories; returns (ids explained, statistics)."""
    ids, stats = set(), dict(states=0, transitions=0)
    for k in range(0, n, par):
        runs = []
        for i in range(k, min(n, k + par)):
            d = work / f"v{i}"
            out = d / "out"
            (d / "p.json").write_text(json.dumps({**params, "out": str(out)}))
            runs.append((out, Tlc(d / "tlc", f"{module}.tla", f"{module}.cfg", {"VP_PARAMS": d / "p.json", "VP_HIST": d / "h.ndjson"},
                                  workers=workers, heap="8g", timeout=timeout, name=f"{module} {work.name} {i}")))
        for out, t in runs:
            x = t.wait()
            for y in stats:
                stats[y] += x.get(y, 0)
            if out.exists():
                ids |= {int(l.strip().strip('"')) for l in out.read_text().split() if l.strip()}
    return ids, stats


def collect(work, prefix, most=250000, par=2):
    """Distinct histories, written to files v<i>/h.ndjson for TLC and to all.ndjson; returns (histories, files)."""
    seen, size = set(), 0
    files = sorted(work.glob(prefix + ".*"))
    with open(work / "all.ndjson", "w") as out:
        for f in files:
            for l in open(f):
                h = json.loads(l)
                key = hashlib.md5(json.dumps(h["ev"], sort_keys=True).encode()).digest()
                if key in seen or len(seen) >= most:
                    continue
                h["id"] = len(seen)
                seen.add(key)
                out.write(json.dumps(h) + "\n")
            f.unlink()
    n = -(-len(seen) // CHUNK)
    n = max(n, min(par, len(seen) // 50)) or 1
    outs = []
    for i in range(n):
        (work / f"v{i}").mkdir(parents=True)
        outs.append(open(work / f"v{i}" / "h.ndjson", "w"))
    for l in open(work / "all.ndjson"):
        h = json.loads(l)
        outs[h["id"] % n].write(json.dumps({k: v for k, v in h.items() if k not in ("prog", "key")}) + "\n")
    for f in outs:
        f.close()
    return len(seen), n


def pick(work, ids):
    return [h for h in map(json.loads, open(work / "all.ndjson")) if h["id"] in ids] if ids else []


def stage(prop, name, d, rdir, vh, progs, params, seed, limit, cov, module, tlcparams, what, tier):
    """Runs programs on the code and validates their histories; returns the violations."""
    viol = []
    for i, p in enumerate(progs):
        p["id"] = i
    (d / "progs").write_text("".join(json.dumps(p) + "\n" for p in progs))
    (d / "p.json").write_text(json.dumps(params))
    res = d / "res.json"
    r = subprocess.run([str(vh), "replay", str(d / "p.json"), str(d / "progs"), str(res), str(rdir), prop, str(seed), str(limit)],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode not in (0, 1) or not res.exists():
        print(r.stdout[-3000:])
        raise ToolError(f"running programs ended with {r.returncode}")
    x = json.loads(res.read_text())
    hists, files = collect(d, "hist")
    log(f"{name}: {x['behaviours']}/{len(progs)} programs, {x['totals']}, {hists} histories, {x['failures']} failures, {x['wall_s']:.1f}s")
    viol += [(v["replay"], v["error"]) for v in x["replays"]]
    for k, n in x["totals"].items():
        cov["counts"][k] = max(cov["counts"].get(k, 0), n) if k.startswith("most") else cov["counts"].get(k, 0) + n
    for k, (a, b) in x["ops"].items():
        o = cov["operations"].setdefault(k, {"succeeded": 0, "failed": 0})
        o["succeeded"] += a
        o["failed"] += b
    cov["runs"].append(dict(run=name, mode=params["mode"], programs=x["behaviours"], runs=x["totals"].get("runs"), histories=hists))
    if viol or not hists:
        return viol
    ids, s = validate(d, files, timeout=600 if tier == "quick" else 7200, module=module, params=tlcparams)
    log(f"{name}: {len(ids)}/{hists} histories explained, {s}")
    cov["runs"][-1].update(explained=len(ids), **s)
    cov["states"] += s["states"]
    cov["transitions"] += s["transitions"]
    cov["traces_validated_against_impl"] += len(ids)
    if "samples" not in cov:
        cov["samples"] = [pick(d, {hists // 2})[0]["ev"][:10]]
    for h in pick(d, set(itertools.islice((i for i in range(hists) if i not in ids), 5))):
        p = dict(progs[h["prog"]])
        if isinstance(h["key"], list):
            p["schedule"] = h["key"]
        f = rdir / f"{prop}-{name}-{h['id']}.json"
        f.write_text(json.dumps(dict(property=prop, error=what, behaviour=p, schedule=h["key"], history=h["ev"], params=params, seed=seed,
                                     how="vh one THIS_FILE runs the program under the schedule")))
        viol.append((str(f), what + ": " + short(h["ev"])))
    return viol


def run(prop, tier, seed, only=None):
    work = lib.workdir(prop)
    rdir = lib.replay_dir(prop)
    vh = lib.build(hooks=True)()
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, counts={}, operations={}, runs=[])
    viol = []
    limit = 100 if tier == "quick" else 4 * 3600
    for name, mode, progs, cap, points in stages(prop, tier, seed):
        if only and name not in only:
            continue
        d = work / name
        d.mkdir()
        params = {**PARAMS, "mode": mode, "cap": cap, "bound": 100, "points": points, "hist": str(d / "hist")}
        viol += stage(prop, name, d, rdir, vh, progs, params, seed, limit, cov, "Lin", dict(plen=PLEN, files=PARAMS["files"]),
                      "a history that no order of the calls explains", tier)
        if viol:
            break
    return cov, viol


def short(ev):
    if ev and any("t" not in e for e in ev):
        return " ".join(f"{e['k']}" + "".join(f" {x}={e[x]}" for x in ("f", "g", "fd", "v", "r", "n") if x in e) for e in ev)[-1500:]
    if ev and "k" in ev[0]:
        return " ".join(f"{e['t']}:{e['k']}" + (f"({e['x']}={e.get('v', '')})" if "x" in e else "") for e in ev)[:1500]
    ops = {e["i"]: e["op"] for e in ev if e["t"] == "inv"}
    out = []
    for e in ev:
        if ops[e["i"]]["k"].startswith("obs"):
            continue
        o = {k: v for k, v in ops[e["i"]].items() if k != "o"} if e["t"] == "inv" else e["res"]
        out.append(f"{'>' if e['t'] == 'inv' else '<'}{e['i']} {json.dumps(o)}")
    return "; ".join(out)[:1500]
