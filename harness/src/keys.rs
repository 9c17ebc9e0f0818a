//! Replays behaviours of Keys.tla: key providers of all schemes, the files they write and open.
use crate::{conc::clamped, pool::Machine, replay::panic_text};
use crypto::hashes::{blake2b::Blake2b256, sha::{Sha256, Sha512}, Digest};
use iota_stronghold::{KeyProvider, Location, SnapshotPath, Stronghold};
use rand::{rngs::StdRng, Rng, RngCore, SeedableRng};
use serde_json::{json, Value};
use std::{
    collections::BTreeMap,
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    sync::{
        atomic::{AtomicBool, Ordering::SeqCst},
        Arc,
    },
};
use zeroize::Zeroize;

/// A passphrase that tells whether it was erased before it was dropped.
struct Pass {
    bytes: Vec<u8>,
    erased: Arc<AtomicBool>,
}
impl AsRef<[u8]> for Pass {
    fn as_ref(&self) -> &[u8] {
        &self.bytes
    }
}
impl Zeroize for Pass {
    fn zeroize(&mut self) {
        self.bytes.zeroize();
        self.erased.store(true, SeqCst);
    }
}
pub struct Keys {
    dir: PathBuf,
    r: StdRng,
    /// what the model's bytes are, position by position
    map: Vec<[u8; 3]>,
    slot: BTreeMap<u64, KeyProvider>,
    made: BTreeMap<u64, Value>,
    sh: Stronghold,
    secret: BTreeMap<String, (Vec<u8>, Vec<u8>)>,
    kept: Vec<u8>,
    counts: BTreeMap<String, u64>,
    ops: BTreeMap<String, (u64, u64)>,
}
impl Keys {
    pub fn new(seed: u64, dir: &Path) -> Self {
        std::fs::create_dir_all(dir).unwrap();
        Keys { dir: dir.to_path_buf(), r: StdRng::seed_from_u64(seed), map: vec![], slot: BTreeMap::new(), made: BTreeMap::new(), sh: Stronghold::default(), secret: BTreeMap::new(), kept: vec![], counts: BTreeMap::new(), ops: BTreeMap::new() }
    }
    fn count(&mut self, k: &str) {
        *self.counts.entry(k.into()).or_default() += 1;
    }
    fn bytes(&mut self, p: &Value) -> Vec<u8> {
        let (n, d, v) = (p["n"].as_u64().unwrap() as usize, p["d"].as_u64().unwrap() as usize, p["v"].as_u64().unwrap() as usize);
        while self.map.len() < n {
            let a = self.r.gen_range(1..=255u8);
            // the other letter differs in one bit, or anyhow
            let b = loop {
                let b = if self.r.gen() { a ^ (1 << self.r.gen_range(0..8)) } else { self.r.gen() };
                if b != 0 && b != a {
                    break b;
                }
            };
            self.map.push([0, a, b]);
        }
        (1..=n).map(|i| self.map[i - 1][if i == d { v } else { 1 }]).collect()
    }
    fn file(&self, f: &Value) -> (String, SnapshotPath) {
        let f = f.as_str().unwrap().to_string();
        let p = SnapshotPath::from_path(self.dir.join(format!("keys-{f}")));
        (f, p)
    }
    fn make(&mut self, op: &Value) -> Result<(Option<KeyProvider>, Option<Vec<u8>>), String> {
        let p = self.bytes(&op["p"]);
        let s = self.bytes(&op["s"]);
        let (e1, e2) = (Arc::new(AtomicBool::new(false)), Arc::new(AtomicBool::new(false)));
        let pass = || Pass { bytes: p.clone(), erased: e1.clone() };
        let salt = || Pass { bytes: s.clone(), erased: e2.clone() };
        let f = op["f"].as_str().unwrap();
        let (kp, want) = match f {
            "raw" => (KeyProvider::try_from(p.clone()).ok(), p.clone()),
            "truncated" => (KeyProvider::with_passphrase_truncated(pass()).ok(), p.iter().copied().chain(std::iter::repeat(0)).take(32).collect()),
            "blake2b" if self.r.gen() => (KeyProvider::with_passphrase_hashed_blake2b(pass()).ok(), Blake2b256::digest(&p).to_vec()),
            "blake2b" => (KeyProvider::with_passphrase_hashed(pass(), Blake2b256::new()).ok(), Blake2b256::digest(&p).to_vec()),
            "sha256" => (KeyProvider::with_passphrase_hashed(pass(), Sha256::new()).ok(), Sha256::digest(&p).to_vec()),
            "sha512" => (KeyProvider::with_passphrase_hashed(pass(), Sha512::new()).ok(), vec![]),
            _ => (KeyProvider::with_passphrase_hashed_argon2(pass(), salt()).ok(), argon2::hash_raw(&p, &s, &argon2::Config::default()).unwrap_or_default()),
        };
        if kp.is_some() && f != "raw" {
            if !e1.load(SeqCst) || (f == "argon2" && !e2.load(SeqCst)) {
                return Err("the passphrase handed over was not erased".into());
            }
            self.count("passphrases_erased");
        }
        Ok((kp, Some(want)))
    }
    fn look(&self, i: u64) -> Result<Vec<u8>, String> {
        let b = self.slot[&i].try_unlock().map_err(|e| format!("the key of a provider: {e}"))?;
        let v = b.borrow().to_vec();
        Ok(v)
    }
    /// A new secret in the store of the session's client.
    fn fresh(&mut self) -> Result<Vec<u8>, String> {
        let mut s = vec![0u8; 16];
        self.r.fill_bytes(&mut s);
        let c = self.sh.get_client(b"c").map_err(|e| e.to_string())?;
        c.store().insert(b"k".to_vec(), s.clone(), None).map_err(|e| e.to_string())?;
        Ok(s)
    }
    fn step(&mut self, op: &Value) -> Result<(), String> {
        let i = op["i"].as_u64().unwrap_or(0);
        let want = op["ok"].as_bool().unwrap();
        let k = op["k"].as_str().unwrap();
        let got = match k {
            "provide" => {
                let (kp, bytes) = self.make(op)?;
                let ok = kp.is_some();
                self.slot.remove(&i);
                self.made.insert(i, op.clone());
                if let Some(kp) = kp {
                    self.slot.insert(i, kp);
                    if want && self.look(i)? != bytes.unwrap() {
                        return Err("the key is not the documented function of the passphrase".into());
                    }
                }
                ok
            }
            "commit" | "commit0" => {
                let s = self.fresh()?;
                let (f, p) = self.file(&op["to"]);
                let r = if k == "commit" { self.sh.commit_with_keyprovider(&p, &self.slot[&i]) } else { self.sh.commit(&p) };
                if r.is_ok() {
                    let key = if k == "commit" { self.look(i)? } else { self.kept.clone() };
                    self.secret.insert(f, (s, key));
                }
                r.is_ok()
            }
            "keep" => {
                // made again from the same passphrase
                let op = self.made[&i].clone();
                let kp = self.make(&op)?.0.ok_or("the provider cannot be made again")?;
                self.kept = self.look(i)?;
                self.sh.store_snapshot_key_at_location(kp, Location::generic("keys", "key")).map(|_| true).map_err(|e| e.to_string())?
            }
            "load" => {
                let (f, p) = self.file(&op["to"]);
                let sh = Stronghold::default();
                match sh.load_client_from_snapshot(b"c", &self.slot[&i], &p) {
                    Err(_) => false,
                    Ok(c) => {
                        let v = c.store().get(b"k").map_err(|e| e.to_string())?;
                        let Some((secret, key)) = self.secret.get(&f) else { return Err(format!("file {f} opens, but was not written")) };
                        if want && v.as_ref() != Some(secret) {
                            return Err(format!("file {f} does not hold what was written last"));
                        }
                        let mine = self.look(i)?;
                        if !want && clamped(key) == clamped(&mine) && *key != mine {
                            self.count("known_finding_hits");
                            false
                        } else {
                            true
                        }
                    }
                }
            }
            "same" => self.look(i)? == self.look(op["j"].as_u64().unwrap())?,
            x => return Err(format!("no operation {x}")),
        };
        let o = self.ops.entry(k.into()).or_default();
        if got {
            o.0 += 1
        } else {
            o.1 += 1
        }
        if got != want {
            return Err(match k {
                "provide" => format!("a key from this passphrase was {}", if got { "accepted" } else { "refused" }),
                "load" => format!("the file {} with this key", if got { "opens" } else { "does not open" }),
                "same" => format!("the keys are {}", if got { "the same" } else { "different" }),
                _ => format!("{k}: success {got}, expected {want}"),
            });
        }
        Ok(())
    }
    fn reset(&mut self) -> Result<(), String> {
        self.slot.clear();
        self.map.clear();
        self.secret.clear();
        for f in ["f1", "f2"] {
            let _ = std::fs::remove_file(self.dir.join(format!("keys-{f}")));
        }
        self.sh = Stronghold::default();
        self.sh.create_client(b"c").map(|_| ()).map_err(|e| e.to_string())
    }
}
impl Machine for Keys {
    fn run(&mut self, beh: &Value) -> Result<(), (usize, String)> {
        self.reset().map_err(|e| (0, e))?;
        for (n, s) in beh["steps"].as_array().unwrap().iter().enumerate() {
            match catch_unwind(AssertUnwindSafe(|| self.step(&s["op"]))) {
                Ok(r) => r.map_err(|e| (n, e))?,
                Err(e) => return Err((n, format!("panic: {}", panic_text(&e)))),
            }
        }
        Ok(())
    }
    fn stats(&self) -> Value {
        let ops: BTreeMap<_, _> = self.ops.iter().map(|(k, v)| (k.clone(), vec![v.0, v.1])).collect();
        json!({"ops": ops, "counts": self.counts})
    }
}
