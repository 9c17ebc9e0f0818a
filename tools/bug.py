#!/usr/bin/env python3
"""Development aid for planted bugs (no check uses it).
bug.py new ID PROPERTY NEEDS BREAKS  - takes the present diff of /repo and /tmp/bug/main.rs, confirms that it builds,
   passes the stable tests, fails the demonstration, and that the demonstration passes without it; then stores it.
bug.py check ID [PROPERTY] - applies a stored bug, runs its check, undoes it."""
import json, os, shutil, subprocess, sys, time
from pathlib import Path
V = Path("/verif"); S = V / "seeded"
DEMO = '''#!/bin/bash
# Builds the demonstration against the repository in the current directory and runs it in a scratch directory.
d=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/src" "$w/home"
cp "$d/main.rs" "$w/src/main.rs"
cp "$d/Cargo.lock" "$w/Cargo.lock"
sed "s#@REPO@#$repo#" "$d/Cargo.toml.in" > "$w/Cargo.toml"
for l in "$repo"/target/release/build/libsodium-sys-*/out/installed/lib/libsodium.a; do
    [ -f "$l" ] && export SODIUM_LIB_DIR="$(dirname "$l")"
done
cd "$w" || exit 3
CARGO_TARGET_DIR="$w/target" cargo build --release --offline --quiet 2> build.log || { cat build.log; exit 3; }
export STRONGHOLD="$w/home" XDG_DATA_HOME="$w/home" TMPDIR="$w"
cd "$w/home" && timeout 120 "$w/target/release/demo"
'''
TOML = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"

[workspace]

[dependencies]
iota_stronghold = { path = "@REPO@/client", features = ["insecure"] }
engine = { package = "stronghold_engine", path = "@REPO@/engine" }
stronghold-stm = { path = "@REPO@/stm" }
iota-crypto = { version = "0.18.0", default-features = false, features = [
  "aes-gcm", "blake2b", "aes-kw", "random", "ed25519", "sha", "hmac", "bip39-en", "bip39-jp", "slip10", "chacha", "x25519" ] }
libc = "0.2"
serde_json = "1.0"
bincode = "1.3"
hkdf = "0.12"
rand = "0.8"
'''
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def clean(): sh("git -C /repo checkout -- .")
def demo(d):
    t = time.time(); r = sh(f"bash {d}/demo.sh", cwd="/repo", timeout=400)
    return r.returncode, r.stdout[-1500:], time.time() - t
def main():
    if sys.argv[1] == "new":
        _, _, bid, prop, needs, breaks = sys.argv
        diff = sh("git -C /repo diff").stdout
        assert diff.strip(), "no diff"
        d = S / bid; d.mkdir(parents=True, exist_ok=True)
        (d / "patch.diff").write_text(diff)
        (d / "demo.sh").write_text(DEMO); (d / "Cargo.toml.in").write_text(TOML)
        shutil.copy("/tmp/bug/main.rs", d / "main.rs")
        shutil.copy(V / "harness/Cargo.lock", d / "Cargo.lock")
        l = (d / "Cargo.lock").read_text().replace('name = "vh"', 'name = "demo"'); (d / "Cargo.lock").write_text(l)
        (d / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
        ok = False
        try:
            r = sh("bash /opt/vp/build.sh")
            if r.returncode: print("BUILD FAILS", r.stdout[-2500:]); return
            rc, out, t = demo(d); print("demo with bug:", rc, round(t), out[-400:])
            if rc in (0, 3): print("DEMO DOES NOT FAIL"); return
            r = sh("bash /opt/vp/test.sh /tmp/bug/out.json")
            base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            o = json.load(open("/tmp/bug/out.json"))
            passed = set(o.get("passed", o.get("pass", [])))
            if base - passed: print("TESTS FAIL", sorted(base - passed)[:10]); return
            ok = True
        finally:
            clean()
            sh("bash /opt/vp/build.sh")
            if not ok: shutil.rmtree(d)
        rc, out, t = demo(d); print("demo without:", rc, round(t), out[-400:])
        if rc: shutil.rmtree(d); print("DEMO FAILS ON CLEAN TREE")
        else: print("stored", bid)
    else:
        bid = sys.argv[2]; d = S / bid
        prop = sys.argv[3] if len(sys.argv) > 3 else json.load(open(d / "meta.json"))["property"]
        r = sh(f"git -C /repo apply {d}/patch.diff")
        if r.returncode: print("does not apply", r.stdout); return
        try:
            t = time.time(); r = sh(f"VERIF_SEED={os.environ.get('VERIF_SEED','1')} VERIF_TIER=quick python3 /verif/check.py {prop}", cwd="/verif")
            print(bid, prop, "exit", r.returncode, f"{time.time()-t:.0f}s", [l for l in r.stdout.splitlines() if "VIOLATION" in l][:1], "" if r.returncode == 1 else r.stdout[-800:])
            print([l for l in r.stdout.splitlines() if "step" in l][:1])
        finally:
            clean()
main()
