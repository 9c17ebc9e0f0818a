"""Checks decided by modules Session/Vault: behaviours of MCSession replayed on the code."""
import json, random, subprocess
from . import lib
from .lib import Tlc, ToolError, log

ALLPROCS = ["write", "gen", "bip39", "pbkdf", "copy", "concat", "hkdf", "ckdf", "dh", "s10seed", "s10key", "unwrap",
            "pub_ed", "pub_x", "sign", "hmac", "aeadenc", "aeaddec", "wrap", "cmp", "revoke", "gc"]

BASE = dict(depth=40, files=["f1", "f2"], badfiles=["b1"], paths=["p1", "p2", "p3"], vaults=["v1", "v2", "v3"],
            recs=["r1", "r2", "c1"], keys=["K1", "K2"], skeys=["a", "b", "c"], svals=["u", "w"],
            lives=[1000, 1001, 0, 1, 2, 3], procs=ALLPROCS, maxobj=5, maxnow=10, maxterm=6, sessionstore=30,
            synccfg="all", kinds={}, pref=0)

# weights of the kinds of operations
VAULT = dict(exec=40, chain=10, vwrite=12, vrevoke=4, vdelete=4, vcleanup=4)
SESS = dict(create=5, get=3, unload=3, purge=2, loadc=6, capture=4, clear=1, reset=1, restart=3)
FILES = dict(setkey=3, commitk=6, commit=4, load=6, loadf=5, damage=1, rmfile=1, mkdir=1, copyfile=2)
STORE = dict(sput=6, sdel=3, tick=3)
ALL = {**VAULT, **SESS, **FILES, **STORE, "sync": 10}


def w(base, **over):
    d = dict(base)
    for k, v in over.items():
        d[k] = v
    return {k: v for k, v in d.items() if v}


def sim(num, deep, **p):
    return dict(mode="sim", num=num, deep=deep, p=p)


MODULES = {"session": ("MCSession.tla", "MCSim.cfg", "MCAll.cfg"), "gmem": ("MCGuarded.tla", "PlainSim.cfg", "PlainAll.cfg"),
           "lmem": ("MCLocked.tla", "PlainSim.cfg", "PlainAll.cfg"), "db": ("MCEngine.tla", "PlainSim.cfg", "PlainAll.cfg"),
           "lz4": ("MCLz4.tla", "PlainSim.cfg", "PlainAll.cfg"),
           "atrest": ("MCAtRest.tla", "PlainSim.cfg", "PlainAll.cfg"), "snapfile": ("MCSnapFile.tla", "PlainSim.cfg", "PlainAll.cfg"), "keys": ("MCKeys.tla", "PlainSim.cfg", "PlainAll.cfg"), "forged": ("MCForged.tla", "PlainSim.cfg", "PlainAll.cfg"), "names": ("MCNames.tla", "PlainSim.cfg", "PlainAll.cfg"), "snapsync": ("MCSnapSync.tla", "SnapSim.cfg", "SnapAll.cfg")}
HOOKED = {"gmem", "lmem"}          # replayed by the harness built with --cfg vp_hooks


def bfs(**p):
    return dict(mode="bfs", p=p, tiers=("quick", "thorough"))


def bfs_deep(**p):
    return dict(mode="bfs", p=p, tiers=("thorough",))


VC = w(VAULT, create=4, exec=60)
SMALL = dict(files=["f1"], badfiles=[], paths=["p1"], vaults=["v1", "v2"], recs=["r1", "c1"], keys=["K1"], skeys=["a"],
             svals=["u"], lives=[1000], maxobj=1, maxnow=1, synccfg="none", plen={"x1": 5, "x2": 9})

# property -> stages
PROFILES = {
    "C01": [
        bfs(**{**SMALL, "recs": ["r1"], "maxobj": 2, "paths": ["p1", "p2"]}, depth=5, kinds=["create", "exec", "vwrite", "vrevoke", "vdelete", "vcleanup"],
            procs=["write", "copy", "revoke", "gc"]),
        sim(500, 12000, kinds=w(VC, sync=4, chain=6), procs=ALLPROCS),
        sim(300, 6000, kinds=w(ALL, exec=60), vaults=["v1", "v2"], paths=["p1", "p2"]),
        sim(40, 1500, kinds=w(VC), vaults=[f"v{i}" for i in range(1, 7)], recs=["r1", "r2", "r3", "r4", "c1", "c2", "c3"],
            depth=60, procs=["write", "copy", "concat", "revoke", "gc", "gen"]),
    ],
    "C02": [
        bfs(**{**SMALL, "vaults": ["v1"], "recs": ["r1", "r2"], "plen": {"x1": 5, "x2": 7}, "maxobj": 2}, depth=6,
            kinds=["create", "vwrite", "exec", "vrevoke", "vdelete", "vcleanup", "commitk", "load", "unload", "loadc"],
            procs=["revoke", "gc"]),
        sim(400, 10000, kinds=w(ALL, exec=20, chain=4, vwrite=15, vrevoke=12, vdelete=6, vcleanup=8, sync=10, damage=0, mkdir=0, rmfile=0),
            procs=["write", "copy", "revoke", "revoke", "gc", "cmp", "hmac", "concat"], vaults=["v1", "v2"], paths=["p1", "p2"]),
        sim(300, 8000, kinds=w(VAULT, create=3, exec=30, vwrite=20, vrevoke=20, vdelete=6, vcleanup=10, sync=6),
            procs=["write", "copy", "revoke", "gc", "gen", "concat"], paths=["p1"]),
    ],
    "C03": [
        bfs(**{**SMALL, "recs": ["r1"], "plen": {"x1": 5, "k1": 32}}, depth=4,
            kinds=["create", "exec", "vrevoke"],
            procs=["write", "copy", "concat", "hkdf", "dh", "s10seed", "s10key", "unwrap", "pub_ed", "wrap", "aeadenc", "aeaddec"]),
        sim(900, 20000, kinds=w(VC, exec=80, chain=0), procs=ALLPROCS),
        sim(300, 6000, kinds=w(VC, exec=80, vwrite=20, vrevoke=10, sync=3), procs=["dh", "s10key", "unwrap", "s10seed", "aeaddec", "aeadenc", "wrap", "pub_x", "concat", "copy", "hkdf", "ckdf"],
            vaults=["v1", "v2"]),
    ],
    "C04": [
        bfs(**{**SMALL, "recs": ["r1"], "plen": {"x1": 5, "k1": 32}}, depth=2, kinds=["create", "chain", "vwrite"],
            procs=["write", "copy", "concat", "hkdf", "dh", "s10seed", "unwrap", "revoke", "gc", "pub_x"]),
        bfs(**{**SMALL, "vaults": ["v1", "v2"], "recs": ["r1"], "plen": {"x1": 5, "k1": 32}}, depth=3, kinds=["create", "chain", "vwrite"],
            procs=["write", "copy", "unwrap", "revoke", "pub_x"]),
        sim(900, 20000, kinds=w(VC, exec=10, chain=60, vwrite=10), procs=ALLPROCS),
        sim(300, 6000, kinds=w(VC, exec=5, chain=60, vwrite=10), vaults=["v1", "v2"],
            procs=["write", "write", "gen", "bip39", "pbkdf", "copy", "concat", "hkdf", "ckdf", "dh", "s10seed", "s10key", "unwrap", "revoke", "gc", "wrap", "pub_x"]),
    ],
    "C05": [
        bfs(**{**SMALL, "paths": ["p1", "p2"], "vaults": ["v1"], "recs": ["r1"], "plen": {"x1": 5}, "maxobj": 3}, depth=7,
            kinds=["create", "vwrite", "vrevoke", "unload", "purge", "loadc", "capture", "commitk", "load", "restart"]),
        sim(500, 12000, kinds=w(ALL, exec=15, chain=3, sync=4, damage=0, mkdir=0, rmfile=0)),
        sim(300, 8000, kinds=w({**SESS, **FILES, **STORE}, vwrite=15, vrevoke=3, exec=4, damage=0, mkdir=0, rmfile=0, clear=1, reset=1, restart=4),
            procs=["write", "gen", "copy", "revoke", "gc"], depth=50, maxobj=8),
        sim(60, 1200, kinds=w({**SESS, **FILES, **STORE}, vwrite=40, exec=20, damage=0, mkdir=0, rmfile=0, clear=0, reset=0),
            procs=["write", "gen", "revoke"], paths=[f"p{i}" for i in range(1, 7)], vaults=[f"v{i}" for i in range(1, 5)],
            recs=["r1", "r2", "r3", "c1", "c2"], depth=80, maxobj=12),
    ],
    "C06": [
        sim(600, 15000, kinds=w({**SESS, **FILES, **STORE}, vwrite=10, load=25, loadf=14, damage=12, rmfile=4, mkdir=3, copyfile=4, reset=0, clear=0),
            keys=["K1", "K2", "K3"], maxobj=6, procs=["write"]),
        bfs(**{**SMALL, "keys": ["K1", "K2"], "plen": {"x1": 5}, "vaults": ["v1"], "recs": ["r1"], "maxobj": 3, "files": ["f1", "f2"], "badfiles": ["b1"]}, depth=6,
            kinds=["create", "vwrite", "commitk", "load", "loadf", "unload", "loadc", "damage", "rmfile", "mkdir", "copyfile"]),
    ],
    "C08": [
        bfs(**{**SMALL, "paths": ["p1", "p2"], "vaults": ["v1"], "recs": ["r1"], "plen": {"x1": 5}, "maxobj": 3}, depth=5,
            kinds=["create", "get", "vwrite", "unload", "purge", "loadc", "capture", "clear", "reset", "restart", "commitk", "load", "loadf", "sput", "setkey", "commit"]),
        sim(500, 12000, kinds=w({**SESS, **FILES, **STORE}, vwrite=8, vrevoke=2, damage=0, mkdir=0, rmfile=0, clear=3, reset=2, get=6, purge=4, unload=8, create=10, capture=8, loadc=10), maxobj=8),
        sim(300, 6000, kinds=w(SESS, vwrite=8, sput=6, clear=3, reset=2, get=6, purge=6, unload=12, create=10, capture=8, loadc=16, commitk=4, load=4, loadf=3), maxobj=10,
            paths=["p1", "p2"]),
    ],
    "C09": [
        bfs(**{**SMALL, "skeys": ["a", "b"], "svals": ["u", "w"], "lives": [1000, 0, 1, 2], "maxnow": 4, "vaults": ["v1"], "recs": ["r1"]}, depth=6,
            kinds=["create", "sput", "sdel", "tick"], sessionstore=0),
        bfs(**{**SMALL, "skeys": ["a"], "svals": ["u", "w"], "lives": [1000, 1001, 0, 2], "maxnow": 4, "vaults": ["v1"], "recs": ["r1"]}, depth=7,
            kinds=["create", "sput", "sdel", "tick", "commitk", "load", "unload", "loadc"]),
        sim(500, 12000, kinds=w({**SESS, **FILES}, sput=50, sdel=20, tick=25, damage=0, mkdir=0, rmfile=0, reset=1, clear=1), maxnow=100, depth=60, maxobj=6),
        sim(200, 4000, kinds=dict(sput=50, sdel=15, tick=25, create=2), skeys=[f"k{i}" for i in range(12)], depth=80, sessionstore=40),
    ],
    "C10": [
        bfs(**{**SMALL, "paths": ["p1", "p2"], "recs": ["r1"], "plen": {"x1": 5, "x2": 9}, "maxobj": 2, "synccfg": "all"}, depth=4,
            kinds=["create", "vwrite", "vrevoke", "sync"]),
        sim(600, 15000, kinds=dict(create=5, vwrite=25, exec=12, vrevoke=6, vdelete=2, vcleanup=3, sync=40, unload=1, loadc=1, capture=1, commitk=1, load=1),
            procs=["write", "copy", "revoke", "gen", "concat"], maxobj=4),
        sim(300, 6000, kinds=dict(create=5, vwrite=25, vrevoke=6, vdelete=2, vcleanup=3, sync=40), vaults=["v1", "v2"],
            recs=["r1", "r2", "r3", "c1"], procs=["write"], maxobj=3, paths=["p1", "p2"]),
    ],
    "C12": [
        bfs(**{**SMALL, "keys": ["K1", "K2"], "vaults": ["v1"], "recs": ["r1"], "plen": {"x1": 5}, "maxobj": 3, "files": ["f1"], "badfiles": ["b1"]}, depth=6,
            kinds=["create", "vwrite", "setkey", "commit", "commitk", "load", "unload", "loadc", "purge", "capture", "clear", "reset"]),
        sim(600, 15000, kinds=w({**SESS, **FILES, **STORE}, vwrite=10, vrevoke=2, setkey=12, commit=20, commitk=5, load=8, loadf=6, reset=2, clear=2, damage=0),
            keys=["K1", "K2", "K3"], maxobj=8),
    ],
    "C21": [
        sim(900, 20000, kinds=w(VC, exec=80, chain=10, vrevoke=1, vdelete=1, vcleanup=1), procs=ALLPROCS, paths=["p1"], vaults=["v1", "v2"],
            recs=["r1", "r2", "c1", "c2"], depth=50),
        sim(400, 9000, kinds=w(VC, exec=80, chain=10, vrevoke=1, vdelete=0, vcleanup=0), paths=["p1"], vaults=["v1"], recs=["r1", "r2", "r3", "r4"],
            procs=["write", "dh", "s10key", "unwrap", "aeaddec", "aeadenc", "wrap", "pub_x", "pub_ed", "sign", "gen", "s10seed", "ckdf", "concat"], depth=50),
    ],
}

GM = dict(machine="gmem", vals=["a", "b"], lens=[0, 1, 7, 4096, 4100], depth=60, maxbuf=6, maxbr=20,
          kinds=dict(alloc=4, zero=1, random=2, **{"from": 2}, clone=3, serde=1, debug=1, borrow=10, borrowmut=8, refclone=8, dropref=16,
                     write=8, eq=3, refeq=5, flood=1, wipe=1, drop=3))
LM = dict(machine="lmem", vals=["a", "b"], lens=[0, 1, 32, 33, 1000, 70001], depth=40, maxmem=8,
          mkinds=["ram", "file", "nc.ram", "nc.file", "nc.mixed", "nc.map", "nc.direct", "nc.hybrid", "frag.map", "frag.direct", "frag.hybrid"],
          kinds=dict(alloc=8, unlock=12, refresh=6, clone=4, serde=3, deser=2, update=6, debug=1, wipe=3, drop=3, far=1))
DB = dict(machine="db", keys=["K1", "K2", "K3"], vids=["v1", "v2", "v3"], rids=4, vals=["a", "b", "c"], hints=["h1", "h2", "h3"], depth=50, maxpack=6,
          kinds=dict(init=2, write=14, revoke=5, gc=3, exec=8, export=6, rekey=5, relabel=1, flip=1, **{"import": 8}, clear=0, serde=1, clone=1))
SS = dict(machine="snapsync", snaps=["A", "B", "C"], paths=["p1", "p2", "p3"], vaults=["v1", "v2", "v3"], recs=["r1", "r2"], sklocs=["s1", "s2", "s3"], sks=2,
          depth=40, maxmsg=8, kinds=dict(write=22, revoke=4, gc=2, put=2, purge=1, setsk=9, merge=8, export=9, damage=1, file=1, **{"import": 12}))
NM = dict(machine="names", counters=2, lens=[23, 24, 25, 63, 64, 65, 127, 128, 129, 130, 256], big=False, paths=4, locs=40, depth=40,
          kinds=dict(write=6, copy=2, revoke=1, delete=2, restart=2))
AR = dict(machine="atrest", paths=["p1", "p2", "p3"], vaults=["v1", "v2", "v3"], recs=["r1", "r2", "r3"], keys=["K1", "K2", "K3"], files=["f1", "f2"], peers=["R1", "R2"],
          whats=["secret", "secret", "generated", "store", "store"], shapes=["random", "zeros", "ones", "repeat", "text", "long", "runs"], depth=30,
          kinds=dict(put=8, setkey=1, commit=3, stored=2, export=3, load=1))
SF = dict(machine="snapfile", depth=25, kinds=dict(flip=8, cut=4, behead=1, extend=1, prepend=1, insert=3, remove=3, twice=2, swap=3, splice=6, graft=6, append=1, restore=3,
          empty=1, dir=1, text=1, null=1, zero=1, loop=1, gone=1, sweep=1))
L4 = dict(machine="lz4", kinds=[], depth=12, bad=True, lits=[0, 1, 2, 3, 4, 5, 8, 13, 14, 15, 16, 269, 270, 271, 524, 525, 526, 4095, 4096, 4097],
          copies=[4, 5, 8, 17, 18, 19, 20, 272, 273, 274, 275, 528, 529, 530, 4096, 65519, 65535, 65536, 70000], offs=[1, 2, 3, 4, 5, 7, 8, 9, 255, 256, 257, 4094, 4095, 4096, 4097])
FG = dict(machine="forged", fixed=True, places=40, sweep=False, depth=24, kinds=dict(alter=9, enter=9, fresh=2, write=2, capture=1),
          changes=["cut", "empty", "junk", "flip", "ones", "zeros", "big", "more", "less", "insert", "remove", "twice", "append"])
KY = dict(machine="keys", fixed=True, slots=3, files=["f1", "f2"], schemes=["raw", "truncated", "blake2b", "sha256", "sha512", "argon2"], salts=[0, 7, 8, 9, 16, 17, 64],
          lens=[0, 1, 8, 31, 32, 33, 63, 64, 65, 127, 128, 129, 1000], depth=14, kinds=dict(provide=6, commit=3, load=5, same=4, keep=1, commit0=1))
NC = [k for k in LM["mkinds"] if k.startswith("nc.")]
PROFILES["C12"] += [
    bfs(**{**KY, "slots": 2, "files": ["f1"], "schemes": ["raw", "truncated", "blake2b", "sha256"], "lens": [0, 31, 32, 33, 63, 64, 65, 128, 129]}),
    bfs(**{**KY, "slots": 2, "files": ["f1"], "schemes": ["argon2"], "lens": [1, 65], "salts": [7, 8, 9]}),
    sim(600, 15000, **KY),
]
PROFILES.update({
    "C15": [
        bfs(**{**GM, "lens": [5], "vals": ["a", "b"], "depth": 5, "maxbuf": 2, "maxbr": 4,
               "kinds": ["alloc", "random", "clone", "borrow", "borrowmut", "refclone", "dropref", "write", "eq", "refeq", "flood", "wipe", "drop"]}),
        sim(1500, 60000, **GM),
        sim(120, 12000, **{**GM, "depth": 120, "maxbr": 60, "maxbuf": 3, "lens": [3, 5000]}),
    ],
    "C16": [
        bfs(**{**LM, "mkinds": NC, "vals": ["a"], "lens": [32], "depth": 4, "maxmem": 2, "kinds": ["alloc", "unlock", "refresh", "clone", "wipe", "drop"]}),
        sim(300, 9000, **{**LM, "mkinds": NC, "lens": [32], "kinds": dict(alloc=5, unlock=12, refresh=12, clone=6, serde=2, update=3, wipe=1, drop=2)}),
    ],
    "C11": [
        bfs(**{**SS, "snaps": ["A", "B"], "paths": ["p1", "p2"], "vaults": ["v1", "v2"], "recs": ["r1"], "sklocs": ["s1"], "sks": 1, "depth": 3, "maxmsg": 1,
               "kinds": ["write", "revoke", "merge"]}),
        bfs(**{**SS, "snaps": ["A", "B"], "paths": ["p1", "p2"], "vaults": ["v1", "v2"], "recs": ["r1"], "sklocs": ["s1"], "sks": 1, "depth": 4, "maxmsg": 1,
               "kinds": ["write", "setsk", "export", "import"]}),
        sim(300, 40000, **SS),
        sim(300, 15000, **{**SS, "snaps": ["A", "B"], "paths": ["p1", "p2"], "vaults": ["v1", "v2"], "recs": ["r1"], "depth": 50, "kinds": dict(write=25, merge=30, revoke=4, put=1)}),
        sim(300, 15000, **{**SS, "snaps": ["A", "B"], "paths": ["p1", "p2"], "vaults": ["v1", "v2"], "recs": ["r1", "r2", "r3"], "depth": 50, "kinds": dict(write=25, merge=30, revoke=4, put=1)}),
        sim(300, 15000, **{**SS, "snaps": ["A", "B"], "paths": ["p1", "p2"], "vaults": ["v1", "v2"], "sks": 1, "depth": 50, "maxmsg": 16,
                           "kinds": dict(write=25, revoke=3, setsk=12, export=15, damage=1, **{"import": 25})}),
        bfs(**{**FG, "doors": ["peer"]}),
        sim(8, 60, **{**FG, "doors": ["peer"], "kinds": dict(sweep=1), "depth": 1}),
        sim(400, 20000, **{**FG, "doors": ["peer"]}),
    ],
    "C24": [
        bfs(**{**DB, "keys": ["K1", "K2"], "vids": ["v1", "v2"], "rids": 1, "vals": ["a"], "hints": ["h1"], "depth": 4, "maxpack": 1,
               "kinds": ["init", "write", "revoke", "gc", "exec", "export", "import", "rekey", "clear"]}),
        sim(1000, 60000, **DB),
        sim(300, 20000, **{**DB, "vids": ["v1", "v2"], "rids": 2, "keys": ["K1", "K2"], "depth": 80,
                           "kinds": {**DB["kinds"], "clear": 1, "export": 10, "import": 14, "rekey": 8}, "maxpack": 12}),
    ],
    "C22": [
        bfs(**{**NM, "lens": [24, 64, 65, 128, 129], "counters": 2}),
        sim(600, 40000, **NM),
        bfs_deep(**{**NM, "big": True, "lens": [23, 24, 25, 63, 64, 65, 111, 112, 127, 128, 129, 130, 200, 255, 256, 257, 1000, 70000], "counters": 3}),
        sim(300, 15000, **{**NM, "paths": 6, "locs": 60, "depth": 60, "counters": 3}),
    ],
    "C23": [
        bfs(**{**AR, "paths": ["p1"], "vaults": ["v1"], "recs": ["r1"], "keys": ["K1", "K2"], "files": ["f1"], "peers": ["R1"], "shapes": ["zeros"], "whats": ["secret", "store"], "depth": 4}),
        sim(450, 60000, **AR),
    ],
    "C05": PROFILES["C05"] + [
        bfs(**{**L4, "fixed": True, "depth": 2, "lits": [0, 14, 15, 16, 270], "copies": [4, 18, 19, 274], "offs": [1, 3, 15, 20]}),
        sim(400, 20000, **L4),
        sim(100, 8000, **{**L4, "bad": False, "depth": 30}),
        sim(16, 300, **{**L4, "bad": False, "depth": 3, "lits": [0, 5, 65536 + 270, 1048575, 1048576 + 15, 2097152 + 300], "copies": [4, 65536 + 20, 1048576 + 19, 1048576 + 600, 2097152 + 19]}),
    ],
    "C06": PROFILES["C06"] + [
        bfs(**{**SF, "depth": 1}),
        sim(200, 20000, **SF),
        bfs(**{**FG, "doors": ["file"]}),
        sim(8, 60, **{**FG, "doors": ["file"], "kinds": dict(sweep=1), "depth": 1}),
        sim(400, 20000, **{**FG, "doors": ["file"]}),
    ],
    "C17": [
        bfs(**{**LM, "lens": [0, 32, 33], "vals": ["a"], "depth": 3, "maxmem": 3, "kinds": ["alloc", "unlock", "clone", "serde", "deser", "update", "wipe", "drop"]}),
        sim(300, 9000, **LM),
        sim(150, 4000, **{**LM, "mkinds": ["ram", "file", "frag.map"], "vals": ["a", "b", "c"], "depth": 60}),
    ],
})

NAMES = dict(steps="steps_replayed", compares="comparisons", skipped="terms_not_computable", files="files_loaded_and_compared",
             absent="known_finding_hits", cut="behaviours_cut")


def params(stage, seed, out, i, tier):
    r = random.Random(f"{seed}-{i}")
    if stage["p"].get("machine", "session") != "session":
        p = dict(stage["p"])
        p["depth"] += 1 if tier == "thorough" and stage["mode"] == "bfs" and not p.get("fixed") else 0
        p["kinds"] = [k for k, n in p["kinds"].items() for _ in range(n)] if isinstance(p["kinds"], dict) else p["kinds"]
        p["out"] = str(out)
        return p
    p = {**BASE, **stage["p"]}
    if tier == "thorough" and stage["mode"] == "bfs":
        p["depth"] += 1
    if "plen" not in stage["p"]:
        p["plen"] = {"k1": 32, "k2": 32, "s1": 64, "x1": r.choice([1, 5, 17, 31]),
                     "y1": r.choice([33, 1001, 4095, 70001]), "z1": r.choice([0, 8, 16, 24, 40, 4096])}
    p["grecs"] = [x for x in p["recs"] if not x.startswith("c")]
    p["kinds"] = [k for k, n in p["kinds"].items() for _ in range(n)] if isinstance(p["kinds"], dict) else p["kinds"]
    p["sim"] = stage["mode"] == "sim"
    p["out"] = str(out)
    return p


def start(stages, work, seed, tier):
    """Starts the TLC runs; returns a list of jobs."""
    jobs = []
    for si, s in enumerate(stages):
        if s["mode"] == "bfs":
            if tier in s["tiers"]:
                jobs.append(job(s, work / f"bfs{si}", seed, si, None, tier))
        else:
            total, chunk = (s["num"], 300) if tier == "quick" else (s["deep"], 1500)
            k = max(1, round(total / chunk))
            for j in range(k):
                jobs.append(job(s, work / f"sim{si}-{j}", seed, si * 1000 + j, total // k, tier))
    return jobs


def job(s, d, seed, i, num, tier):
    d.mkdir(parents=True)
    out = d / "out.ndjson"
    p = params(s, seed, out, i, tier)
    (d / "p.json").write_text(json.dumps(p))
    module, simcfg, allcfg = MODULES[p.get("machine", "session")]

    def go():
        env = {"VP_PARAMS": d / "p.json"}
        if s["mode"] == "bfs":
            return Tlc(d / "tlc", module, allcfg, env, timeout=600 if tier == "quick" else 7200, name=d.name)
        return Tlc(d / "tlc", module, simcfg, env, timeout=600 if tier == "quick" else 7200, name=d.name,
                   args=["-simulate", f"num={num}", "-depth", str(p["depth"] + 5), "-seed", str(seed * 100003 + i)])
    return dict(dir=d, out=out, params=d / "p.json", go=go, mode=s["mode"], num=num)


def sample(path, cap, seed):
    """Keeps at most cap lines of a file, drawn at random; returns how many there were."""
    with open(path) as f:
        n = sum(1 for _ in f)
    if n > cap:
        keep = set(random.Random(seed).sample(range(n), cap))
        tmp = path.with_suffix(".tmp")
        with open(path) as f, open(tmp, "w") as g:
            g.writelines(l for i, l in enumerate(f) if i in keep)
        tmp.rename(path)
    return n


def run(prop, tier, seed, stages=None, limit=None):
    """Returns (coverage, list of violations (replay path, text))."""
    stages = stages or PROFILES[prop]
    work = lib.workdir(prop)
    wait_build = lib.build(hooks=any(s["p"].get("machine") in HOOKED for s in stages))
    pending = start(stages, work, seed, tier)
    running, done = [], []
    par = 6
    vh = None
    limit = limit or (120 if tier == "quick" else 6 * 3600)
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, counts={}, operations={}, runs=[])
    viol = []
    rdir = lib.replay_dir(prop)
    while pending or running:
        while pending and len(running) < par:
            j = pending.pop(0)
            j["tlc"] = j["go"]()
            running.append(j)
        if vh is None:
            vh = wait_build()
        j = running.pop(0)
        st = j["tlc"].wait()
        cov["states"] += st.get("states", 0)
        cov["transitions"] += st.get("transitions", 0)
        res = j["dir"] / "res.json"
        generated = sample(j["out"], 12000 if tier == "quick" else 2000000, seed)
        r = subprocess.run([str(vh), "replay", str(j["params"]), str(j["out"]), str(res), str(rdir), prop,
                            str(seed), str(limit)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode not in (0, 1) or not res.exists():
            print(r.stdout[-3000:])
            raise ToolError(f"replay ended with {r.returncode}")
        x = json.loads(res.read_text())
        cov["traces_validated_against_impl"] += x["behaviours"]
        t = x["totals"]
        for k, n in t.items():
            k = NAMES.get(k, k)
            cov["counts"][k] = cov["counts"].get(k, 0) + n
        for k, (a, b) in x["ops"].items():
            o = cov["operations"].setdefault(k, {"succeeded": 0, "failed": 0})
            o["succeeded"] += a
            o["failed"] += b
        lines = generated
        cov["runs"].append(dict(run=j["dir"].name, mode=j["mode"], tlc=st, behaviours=lines, replayed=x["behaviours"], replay_s=round(x["wall_s"], 1)))
        log(f"{j['dir'].name}: {st}, {x['behaviours']}/{lines} behaviours replayed, {x['failures']} failures")
        if "samples" not in cov:
            with open(j["out"]) as f:
                b = json.loads(f.readline())
                b = json.loads(b) if isinstance(b, str) else b
                ops = [s["op"] for s in b["steps"]][:12] if "steps" in b else [s["op"] for s in b["path"]] + [b["op"]]
                cov["samples"] = [dict(run=j["dir"].name, operations=ops)]
        for v in x["replays"]:
            viol.append((v["replay"], f"step {v['step']} {v['op']}: {v['error']}"))
        j["out"].unlink()
        if viol:
            for k in running:
                k["tlc"].p.kill()
            break
    return cov, viol
