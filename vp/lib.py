"""Shared machinery of the checks: building the harness, running TLC, replaying, reporting."""
import json, os, random, shutil, subprocess, sys, time
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path("/repo")
SPEC = VERIF / "spec"
HARNESS = VERIF / "harness"
T0 = time.time()


class ToolError(Exception):
    pass


def log(*a):
    print(f"[{time.time()-T0:6.1f}s]", *a, flush=True)


def env_build():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUSTC_WRAPPER="")
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:" + e.get("PATH", "")
    e.pop("RUSTFLAGS", None)
    # the C library needs half a minute to build: take the one the repository's own build made
    libs = sorted((REPO / "target/release/build").glob("libsodium-sys-*/out/installed/lib/libsodium.a"))
    if libs:
        e["SODIUM_LIB_DIR"] = str(libs[0].parent)
    return e


def build(hooks=False, bin="vh"):
    """Builds the harness from /repo's working tree; returns a Popen-like handle."""
    e = env_build()
    target = HARNESS / ("target-hooks" if hooks else "target")
    e["CARGO_TARGET_DIR"] = str(target)
    if hooks:
        e["RUSTFLAGS"] = "--cfg vp_hooks"
    t0 = time.time()
    cmd = ["cargo", "build", "--release", "--offline", "--locked", "--quiet"]
    p = subprocess.Popen(cmd, cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

    def wait():
        out = p.communicate()[0]
        if p.returncode != 0 and "SODIUM_LIB_DIR" in e:
            e.pop("SODIUM_LIB_DIR")
            r = subprocess.run(cmd, cwd=HARNESS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            out, rc = r.stdout, r.returncode
        else:
            rc = p.returncode
        if rc != 0:
            print(out[-4000:])
            raise ToolError("the harness does not build")
        log(f"harness built in {time.time()-t0:.1f}s")
        return target / "release" / bin

    return wait


class Tlc:
    """One TLC run in a directory of its own."""

    def __init__(self, work, module, cfg, env=None, args=(), workers=1, heap="3g", timeout=600, name="tlc"):
        self.work = Path(work)
        self.work.mkdir(parents=True, exist_ok=True)
        for f in SPEC.glob("*"):
            if f.suffix in (".tla", ".cfg"):
                shutil.copy(f, self.work / f.name)
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        e["JAVA_TOOL_OPTIONS"] = f"-Xmx{heap} -XX:+UseParallelGC -XX:ParallelGCThreads=2 -Xss16m"
        self.timeout, self.name, self.t0 = timeout, name, time.time()
        self.logf = open(self.work / "tlc.log", "w")
        self.p = subprocess.Popen(
            ["tlc", "-noGenerateSpecTE", "-workers", str(workers), "-config", cfg, *args, module],
            cwd=self.work, env=e, stdout=self.logf, stderr=subprocess.STDOUT)

    def wait(self, may_fail=False):
        try:
            self.p.wait(max(1, self.timeout - (time.time() - self.t0)))
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            raise ToolError(f"TLC run {self.name} took more than {self.timeout} s")
        self.logf.close()
        self.text = (self.work / "tlc.log").read_text()
        self.wall = time.time() - self.t0
        if self.p.returncode != 0 and not may_fail:
            print(self.text[-3000:])
            raise ToolError(f"TLC run {self.name} failed ({self.p.returncode})")
        return self.stats()

    def stats(self):
        import re
        st = {"wall_s": round(self.wall, 1)}
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", self.text)
        if m:
            st["transitions"], st["states"] = int(m[-1][0]), int(m[-1][1])
        m = re.findall(r"The number of states generated: (\d+)", self.text)
        if m:
            st["transitions"] = st["states"] = int(m[-1])
        m = re.findall(r"depth of the complete state graph search is (\d+)", self.text)
        if m:
            st["depth"] = int(m[-1])
        st["complete"] = "Model checking completed. No error" in self.text
        return st


def workdir(prop):
    w = VERIF / "work" / prop
    if w.exists():
        shutil.rmtree(w)
    w.mkdir(parents=True)
    return w


def replay_dir(prop):
    d = VERIF / "work" / "replays" / prop
    d.mkdir(parents=True, exist_ok=True)
    for f in d.glob("*"):
        f.unlink()
    return d


def evidence(prop, tier, seed, level, coverage, assumptions=(), violations=0):
    d = VERIF / "evidence"
    d.mkdir(exist_ok=True)
    (d / f"{prop}.json").write_text(json.dumps({
        "property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
        "assumptions": list(assumptions), "wall_s": round(time.time() - T0, 1), "violations": violations}, indent=1))


def known_findings():
    """property -> list of findings recorded (not repaired)"""
    out = {}
    f = VERIF / "known_findings.txt"
    for l in f.read_text().splitlines():
        if l.startswith("finding: property="):
            p, rest = l[len("finding: property="):].split(" ", 1)
            out.setdefault(p, []).append(rest)
    return out


def report_known(prop):
    for x in known_findings().get(prop, []):
        print(f"KNOWN-FINDING: property={prop} {x}")


def violation(prop, path, text=""):
    if text:
        log(text)
    print(f"VIOLATION property={prop} replay={path}", flush=True)
