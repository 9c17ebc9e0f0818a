"""Which machinery decides which property."""
from . import commit, lib, lin, mconc, rlu, session, stm

ASSUME = ["the harness's own evaluation of terms (HMAC, SHA-2, HKDF, Concat KDF, SLIP-10, AES-KW from primitives of iota-crypto) is right",
          "procedures compare and wrap secrets as specified (CompareSecret and AesKeyWrapEncrypt are themselves checked under C21)"]


def finish(prop, tier, seed, level, cov, viol, assume=ASSUME):
    lib.evidence(prop, tier, seed, level, cov, assume, len(viol))
    for path, text in viol[:5]:
        lib.violation(prop, path, text)
    if viol:
        return 1
    lib.report_known(prop)
    lib.log("no violation")
    return 0


ALGS = {"C05": "Lz4Alg"}    # specifications of an algorithm, checked on their own


def start_alg(prop, tier):
    a = ALGS.get(prop)
    if not a:
        return None
    q = tier == "quick"
    return a, lib.Tlc(lib.workdir(prop + "-alg"), f"{a}.tla", f"{a}.cfg" if q else f"{a}Deep.cfg", {}, workers=2 if q else 8, heap="4g", timeout=600 if q else 7200, name=a)


def end_alg(alg, cov, viol):
    name, t = alg
    if viol:
        t.p.kill()
        return
    x = t.wait()
    lib.log(f"{name}: {x}")
    cov["runs"].append(dict(run=name, tlc=x))
    cov["states"] += x.get("states", 0)
    cov["transitions"] += x.get("transitions", 0)


def run(prop, tier, seed):
    if prop in session.PROFILES:
        alg = start_alg(prop, tier)
        cov, viol = session.run(prop, tier, seed)
        if alg:
            end_alg(alg, cov, viol)
        if prop in ("C15", "C16") and not viol:
            viol = mconc.run(prop, tier, seed, cov)
        return finish(prop, tier, seed, "model_checking", cov, viol)
    if prop in ("C13", "C14"):
        cov, viol = lin.run(prop, tier, seed)
        return finish(prop, tier, seed, "model_checking", cov, viol)
    if prop in ("C18", "C19"):
        cov, viol = stm.run(prop, tier, seed)
        return finish(prop, tier, seed, "model_checking", cov, viol, ["the choice of the next thread at every lock, clock and data access covers what schedules can do (sequentially consistent memory)"])
    if prop == "C20":
        cov, viol = rlu.run(prop, tier, seed)
        return finish(prop, tier, seed, "model_checking", cov, viol, ["the choice of the next thread at every lock and clock operation covers what schedules can do (sequentially consistent memory)"])
    if prop == "C07":
        cov, viol = commit.run(prop, tier, seed)
        return finish(prop, tier, seed, "model_checking", cov, viol, ["a rename is atomic and fsync makes content durable (FileSys.tla); file operations go through the C library"])
    raise lib.ToolError(f"no check for {prop}")
