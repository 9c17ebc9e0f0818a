//! Replays behaviours of SnapFile.tla: altered snapshot files are opened in every way there is.
use crate::{
    conc::{clamped, rbytes},
    pool::Machine,
    replay::panic_text,
};
use iota_stronghold::{procedures::CompareSecret, Client, KeyProvider, Location, Snapshot, SnapshotPath, Stronghold};
use rand::{rngs::StdRng, Rng, SeedableRng};
use serde_json::{json, Value};
use std::{
    collections::BTreeMap,
    fs,
    ops::Range,
    os::unix::fs::symlink,
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
};

type Res<T> = Result<T, String>;
fn s(v: &Value) -> &str {
    v.as_str().unwrap_or("")
}
fn n(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}
fn arr(v: &Value) -> Vec<Value> {
    v.as_array().cloned().unwrap_or_default()
}
fn er<T>(r: Result<T, impl std::fmt::Display>) -> Res<T> {
    r.map_err(|e| e.to_string())
}
#[derive(Clone, PartialEq)]
struct Piece {
    f: String,
    i: usize,
    fl: [bool; 2],
}
/// The pieces of a snapshot file: 5 bytes of magic, 2 of version, 32 of key, 16 of tag and the ciphertext.
fn pieces(len: usize) -> Vec<Range<usize>> {
    let mid = 56 + (len - 57) / 2;
    let cuts = [0, 5, 7, 8, 38, 39, 40, 54, 55, 56, mid, mid + 1, len - 1, len];
    cuts.windows(2).map(|w| w[0]..w[1]).collect()
}
pub struct SnapFile {
    dir: PathBuf,
    r: StdRng,
    seed: u64,
    snaps: BTreeMap<String, Vec<u8>>,
    keys: BTreeMap<String, Vec<u8>>,
    secrets: BTreeMap<String, Vec<u8>>,
    junk: Vec<u8>,
    flips: Vec<[(usize, u8); 2]>,
    c: Vec<Piece>,
    kind: String,
    ops: BTreeMap<String, (u64, u64)>,
    counts: BTreeMap<String, u64>,
}
fn provider(k: &[u8]) -> KeyProvider {
    KeyProvider::try_from(k.to_vec()).unwrap()
}
fn loc() -> Location {
    Location::generic("vault", "record")
}
fn holds(c: &Client, x: &[u8]) -> Res<()> {
    let r = c.execute_procedure(CompareSecret { location: loc(), expected: x.to_vec() }).map_err(|e| format!("its secret cannot be used: {e}"))?;
    if r.first() != Some(&1) {
        return Err("its secret has changed".into());
    }
    if er(c.store().get(b"key"))?.as_deref() != Some(x) {
        return Err("its store has changed".into());
    }
    Ok(())
}
fn client(sh: &Stronghold, p: &str, x: &[u8]) -> Res<Client> {
    let c = er(sh.create_client(p))?;
    er(c.vault("vault").write_secret(loc(), x.to_vec()))?;
    er(c.store().insert(b"key".to_vec(), x.to_vec(), None))?;
    Ok(c)
}
impl SnapFile {
    pub fn new(_params: &Value, seed: u64, dir: &Path) -> Self {
        let mut r = StdRng::seed_from_u64(seed);
        let _ = fs::remove_dir_all(dir);
        fs::create_dir_all(dir).unwrap();
        let mut keys = BTreeMap::new();
        let k1 = rbytes(&mut r, 32);
        let mut k2 = k1.clone();
        if r.gen() {
            // one bit apart, other than those that make no difference
            k2[r.gen_range(1..31)] ^= 1 << r.gen_range(0..8);
        } else {
            k2 = rbytes(&mut r, 32);
        }
        keys.insert("K1".to_string(), k1);
        keys.insert("K2".to_string(), k2);
        let mut secrets = BTreeMap::new();
        let l = [1, 100, 3000, 40000][r.gen_range(0..4)];
        let a = rbytes(&mut r, l);
        for f in ["f1", "f2"] {
            secrets.insert(f.to_string(), a.clone());
        }
        secrets.insert("f3".to_string(), rbytes(&mut r, 1 + l));
        let junk = if r.gen() { vec![0; r.gen_range(1..4)] } else { let l = r.gen_range(1..40); rbytes(&mut r, l) };
        let flips = (0..13).map(|_| {
            let a = (r.gen_range(0..1 << 30), r.gen_range(0..8u8));
            [a, (a.0 + r.gen_range(0..2) * 7, (a.1 + r.gen_range(1..8u8)) % 8)]
        }).collect();
        SnapFile { dir: dir.into(), r, seed, snaps: BTreeMap::new(), keys, secrets, junk, flips, c: vec![], kind: "file".into(), ops: BTreeMap::new(), counts: BTreeMap::new() }
    }
    fn count(&mut self, k: &str) {
        *self.counts.entry(k.into()).or_default() += 1;
    }
    fn path(&self) -> PathBuf {
        self.dir.join("snap")
    }
    fn start(&mut self) -> Res<()> {
        for f in ["f1", "f2", "f3"] {
            let sh = Stronghold::default();
            let _c = client(&sh, "inside", &self.secrets[f].clone())?;
            let p = self.dir.join(f);
            er(sh.commit_with_keyprovider(&SnapshotPath::from_path(&p), &provider(&self.keys[key_of(f)])))?;
            self.snaps.insert(f.into(), fs::read(&p).unwrap());
        }
        self.c = whole("f1");
        Ok(())
    }
    fn bytes(&self) -> Vec<u8> {
        let mut out = vec![];
        for p in &self.c {
            if p.f == "junk" {
                out.extend(&self.junk);
                continue;
            }
            let b = &self.snaps[if p.f == "header" { "f1" } else { &p.f }];
            let mut x = b[pieces(b.len())[p.i - 1].clone()].to_vec();
            for j in 0..2 {
                if p.fl[j] {
                    let (at, bit) = self.flips[p.i - 1][j];
                    let l = x.len();
                    x[at % l] ^= 1 << bit;
                }
            }
            out.extend(x);
        }
        out
    }
    fn alter(&mut self, op: &Value) {
        let i = op.get("i").map(n).unwrap_or(0);
        let c = &mut self.c;
        let junk = Piece { f: "junk".into(), i: 0, fl: [false; 2] };
        match s(&op["k"]) {
            // (both bits of a piece may be the same bit of a shorter one: see below)
            "flip" if c[i - 1].f != "junk" => c[i - 1].fl[n(&op["b"]) - 1] ^= true,
            "flip" => c[i - 1].fl[n(&op["b"]) - 1] ^= true,
            "cut" => c.truncate(i),
            "behead" => drop(c.drain(..i - 1)),
            "extend" => c.push(junk),
            "prepend" => c.insert(0, junk),
            "insert" => c.insert(i, junk),
            "remove" => drop(c.remove(i - 1)),
            "twice" => c.insert(i, c[i - 1].clone()),
            "swap" => c.swap(i - 1, n(&op["j"]) - 1),
            "splice" => {
                c.truncate(i);
                c.extend(whole(s(&op["f"])).into_iter().skip(i));
            }
            "graft" => c[i - 1] = whole(s(&op["f"]))[i - 1].clone(),
            "append" => c.extend(whole(s(&op["f"]))),
            "restore" => {
                self.c = whole(s(&op["f"]));
                self.kind = "file".into();
            }
            "sweep" => (),
            k => self.kind = k.into(),
        }
    }
    fn put(&mut self) {
        let p = self.path();
        let m = fs::symlink_metadata(&p);
        if m.as_ref().map_or(false, |m| m.is_dir()) {
            fs::remove_dir_all(&p).unwrap();
        } else if m.is_ok() {
            fs::remove_file(&p).unwrap();
        }
        match self.kind.as_str() {
            "file" => fs::write(&p, self.bytes()).unwrap(),
            "empty" => fs::write(&p, b"").unwrap(),
            "dir" => fs::create_dir(&p).unwrap(),
            "text" => fs::write(&p, "this is not a snapshot, but some text of a length that would do for one. ".repeat(3)).unwrap(),
            "null" => symlink("/dev/null", &p).unwrap(),
            "zero" => symlink("/dev/zero", &p).unwrap(),
            "loop" => symlink(&p, &p).unwrap(),
            "gone" => (),
            k => panic!("harness: {k}"),
        }
    }
    /// Opens the file in every way; want is the snapshot that must be found, or none.
    fn open(&mut self, k: &[u8], want: Option<&str>) -> Res<()> {
        let p = self.path();
        let sp = SnapshotPath::from_path(&p);
        let key: [u8; 32] = k.to_vec().try_into().unwrap();
        let how = self.r.gen_range(0..3);
        let sh = Stronghold::default();
        let (x, y) = (rbytes(&mut self.r, 9), rbytes(&mut self.r, 9));
        let live = client(&sh, "live", &x)?;
        let sleeping = client(&sh, "sleeping", &y)?;
        er(sh.write_client("sleeping"))?;
        er(sh.unload_client(sleeping).map(|_| ()))?;
        let verdict = |r: Result<(), String>, what: &str| match (r, want) {
            (Ok(()), None) => Err(format!("{what} accepts it")),
            (Err(e), Some(_)) => Err(format!("{what} refuses it: {e}")),
            _ => Ok(()),
        };
        verdict(engine::snapshot::read_from(&p, &key, &[]).map(|_| ()).map_err(|e| e.to_string()), "reading the file")?;
        verdict(Snapshot::read_from_snapshot(&sp, key, None).map(|_| ()).map_err(|e| e.to_string()), "read_from_snapshot")?;
        if how == 0 {
            verdict(er(sh.load_client_from_snapshot("inside", &provider(k), &sp)).map(|_| ()), "load_client_from_snapshot")?;
        } else {
            verdict(er(sh.load_snapshot(&provider(k), &sp)), "load_snapshot")?;
        }
        self.count("opened");
        holds(&live, &x).map_err(|e| format!("afterwards, of the client in use: {e}"))?;
        match want {
            Some(f) => {
                let c = er(if how == 0 { sh.get_client("inside") } else { sh.load_client("inside") })?;
                holds(&c, &self.secrets[f]).map_err(|e| format!("of what was loaded: {e}"))?;
            }
            None => {
                if sh.load_client("inside").is_ok() || sh.get_client("inside").is_ok() {
                    return Err("a client of the rejected file is there".into());
                }
                let c = sh.load_client("sleeping").map_err(|e| format!("afterwards, a client that had been captured cannot be loaded: {e}"))?;
                holds(&c, &y).map_err(|e| format!("afterwards, of a captured client: {e}"))?;
            }
        }
        Ok(())
    }
    /// Every bit of the file, every length of it and every key one bit away.
    fn sweep(&mut self) -> Res<()> {
        let (p, good) = (self.path(), self.bytes());
        let f = ["f1", "f2", "f3"].into_iter().find(|f| self.snaps[*f] == good).unwrap();
        let key: [u8; 32] = self.keys[key_of(f)].clone().try_into().unwrap();
        let quietly = |k: &[u8; 32]| catch_unwind(AssertUnwindSafe(|| {
            engine::snapshot::read_from(&p, k, &[]).is_ok() || Snapshot::read_from_snapshot(&SnapshotPath::from_path(&p), *k, None).is_ok()
        }));
        let step = if good.len() > 4000 { good.len() / 1000 } else { 1 };
        for i in (0..good.len()).step_by(step) {
            for bit in 0..8 {
                let mut b = good.clone();
                b[i] ^= 1 << bit;
                fs::write(&p, &b).unwrap();
                *self.counts.entry("bits".into()).or_default() += 1;
                match quietly(&key) {
                    Ok(false) => (),
                    Ok(true) => return Err(format!("it opens although bit {bit} of byte {i} of {} was inverted", good.len())),
                    Err(_) => return Err(format!("the code panicked with bit {bit} of byte {i} of {} inverted", good.len())),
                }
            }
            fs::write(&p, &good[..i]).unwrap();
            *self.counts.entry("lengths".into()).or_default() += 1;
            if quietly(&key).unwrap_or(true) {
                return Err(format!("it opens, or the code panics, when cut to {i} of {} bytes", good.len()));
            }
        }
        fs::write(&p, &good).unwrap();
        for i in 0..256 {
            let mut k = key;
            k[i / 8] ^= 1 << (i % 8);
            let r = quietly(&k).unwrap_or(true);
            *self.counts.entry("keys".into()).or_default() += 1;
            if r && clamped(&k) == clamped(&key) {
                self.count("known_finding_hits");
            } else if r {
                return Err(format!("it opens with a key that differs in bit {} of byte {}", i % 8, i / 8));
            }
        }
        if !quietly(&key).unwrap_or(false) {
            return Err("it does not open with its key".into());
        }
        Ok(())
    }
    fn go(&mut self, beh: &Value, at: &mut usize) -> Res<()> {
        self.start()?;
        for (i, st) in arr(&beh["steps"]).iter().enumerate() {
            *at = i;
            let op = &st["op"];
            self.alter(op);
            self.ops.entry(s(&op["k"]).into()).or_default().0 += 1;
            if st["st"].get("K1").is_none() {
                continue;
            }
            self.put();
            if op["k"] == "sweep" {
                self.sweep()?;
            }
            let now = self.bytes();
            for k in ["K1", "K2"] {
                let spec = s(&st["st"][k]).to_string();
                let same = if self.kind == "file" { ["f1", "f2", "f3"].into_iter().find(|f| key_of(f) == k && self.snaps[*f] == now) } else { None };
                match (spec.as_str(), same) {
                    ("none", Some(_)) => self.count("equal_by_accident"),
                    ("none", None) => (),
                    (f, Some(g)) if f == g => (),
                    (f, g) => panic!("harness: the specification has {f}, the bytes are those of {g:?}"),
                }
                let key = self.keys[k].clone();
                self.open(&key, same).map_err(|e| format!("with key {k}, {} of {} bytes: {e}", self.kind, now.len()))?;
            }
            if self.r.gen_bool(0.3) {
                let other = rbytes(&mut self.r, 32);
                self.open(&other, None).map_err(|e| format!("with another key: {e}"))?;
            }
            // what was refused was not touched either
            if self.kind == "file" && fs::read(self.path()).ok().as_deref() != Some(&now[..]) {
                return Err("the file was changed".into());
            }
        }
        Ok(())
    }
}
fn key_of(f: &str) -> &'static str {
    if f == "f3" { "K2" } else { "K1" }
}
fn whole(f: &str) -> Vec<Piece> {
    (1..=13).map(|i| Piece { f: if i <= 2 { "header".into() } else { f.to_string() }, i, fl: [false; 2] }).collect()
}
impl Machine for SnapFile {
    fn run(&mut self, beh: &Value) -> Result<(), (usize, String)> {
        let mut at = 0;
        let _ = self.seed;
        let r = catch_unwind(AssertUnwindSafe(|| self.go(beh, &mut at))).unwrap_or_else(|p| Err(format!("the code panicked: {}", panic_text(&p))));
        let _ = fs::remove_dir_all(&self.dir);
        r.map_err(|e| (at, e))
    }
    fn stats(&self) -> Value {
        let ops: BTreeMap<_, _> = self.ops.iter().map(|(k, v)| (k.clone(), vec![v.0, v.1])).collect();
        json!({"ops": ops, "counts": self.counts})
    }
}
