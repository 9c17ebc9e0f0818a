//! Replays behaviours of Forged.tla: what is sealed under the right key but is no state.
use crate::{conc::rbytes, pool::Machine, replay::panic_text};
use crypto::keys::x25519;
use engine::{snapshot::{compress, decompress, read, read_from, write}, vault::{ClientId, RecordId}};
use iota_stronghold::{procedures::CompareSecret, sync::SyncSnapshotsConfig, Client, KeyProvider, LoadFromPath, Location, Snapshot, SnapshotPath, Stronghold};
use rand::{rngs::StdRng, Rng, SeedableRng};
use serde_json::{json, Value};
use std::{
    collections::{BTreeMap, HashMap},
    fs,
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    time::Duration,
};

type Res<T> = Result<T, String>;
fn er<T>(r: Result<T, impl std::fmt::Display>) -> Res<T> {
    r.map_err(|e| e.to_string())
}
fn s(v: &Value) -> &str {
    v.as_str().unwrap_or("")
}
fn n(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}
fn loc() -> Location {
    Location::generic("vault", "record")
}
fn sk_loc() -> Location {
    Location::generic("handshake", "key")
}
fn set(c: &Client, x: &[u8]) -> Res<()> {
    er(c.vault("vault").write_secret(loc(), x.to_vec()))?;
    er(c.store().insert(b"key".to_vec(), x.to_vec(), None)).map(|_| ())
}
fn holds(c: &Client, x: &[u8]) -> Res<()> {
    let r = c.execute_procedure(CompareSecret { location: loc(), expected: x.to_vec() }).map_err(|e| format!("its secret cannot be used: {e}"))?;
    if r.first() != Some(&1) {
        return Err("its secret has changed".into());
    }
    if er(c.store().get(b"key"))?.as_deref() != Some(x) {
        return Err("its store has changed".into());
    }
    Ok(())
}
fn sealed(stream: &[u8], layer: impl Fn(Vec<u8>) -> Vec<u8>, key: &[u8; 32]) -> Vec<u8> {
    let mut out = vec![];
    write(&layer(compress(stream)), &mut out, key, &[]).unwrap();
    out
}
pub struct Forged {
    dir: PathBuf,
    r: StdRng,
    places: usize,
    /// per door: the stream of a proper state
    good: BTreeMap<String, Vec<u8>>,
    inside: Vec<u8>,
    header: Vec<u8>,
    key: [u8; 32],
    sk: [u8; 32],
    peer: [u8; 32],
    counts: BTreeMap<String, u64>,
    ops: BTreeMap<String, (u64, u64)>,
}
/// What is held while forged states arrive.
struct Held {
    sh: Stronghold,
    live: Client,
    x: Vec<u8>,
    captured: Option<Vec<u8>>,
    sn: Snapshot,
    y: Vec<u8>,
}
impl Forged {
    pub fn new(params: &Value, seed: u64, dir: &Path) -> Self {
        let mut r = StdRng::seed_from_u64(seed);
        let _ = fs::remove_dir_all(dir);
        fs::create_dir_all(dir).unwrap();
        let k = |r: &mut StdRng| rbytes(r, 32).try_into().unwrap();
        let (key, sk, peer) = (k(&mut r), k(&mut r), k(&mut r));
        Forged { dir: dir.into(), r, places: n(&params["places"]), good: BTreeMap::new(), inside: vec![], header: vec![], key, sk, peer, counts: BTreeMap::new(), ops: BTreeMap::new() }
    }
    fn count(&mut self, k: &str) {
        *self.counts.entry(k.into()).or_default() += 1;
    }
    fn shared(&self) -> [u8; 32] {
        *x25519::SecretKey::from_bytes(self.peer).diffie_hellman(&x25519::SecretKey::from_bytes(self.sk).public_key()).as_bytes()
    }
    fn prepare(&mut self) -> Res<()> {
        let sh = Stronghold::default();
        let l = [1, 3, 40, 300][self.r.gen_range(0..4)];
        self.inside = rbytes(&mut self.r, l);
        let c = er(sh.create_client("inside"))?;
        set(&c, &self.inside)?;
        if self.r.gen() {
            er(c.vault("second").write_secret(Location::generic("second", "a"), rbytes(&mut self.r, 7)))?;
            er(c.vault("second").write_secret(Location::generic("second", "b"), rbytes(&mut self.r, 70)))?;
            er(c.vault("second").revoke_secret("a"))?;
            er(c.store().insert(b"more".to_vec(), vec![7; 20], Some(Duration::from_secs(3000))))?;
        }
        if self.r.gen() {
            er(sh.create_client("empty"))?;
        }
        let p = self.dir.join("good");
        let kp = KeyProvider::try_from(self.key.to_vec()).unwrap();
        er(sh.commit_with_keyprovider(&SnapshotPath::from_path(&p), &kp))?;
        self.header = fs::read(&p).unwrap()[..7].to_vec();
        self.good.insert("file".into(), er(read_from(&p, &self.key, &[]))?);
        // as exported for the peer
        let sn = er(Snapshot::read_from_snapshot(&SnapshotPath::from_path(&p), self.key, None))?;
        let mut sel = HashMap::new();
        let id = ClientId::load_from_path(b"inside", b"inside");
        let (v, rid) = loc().resolve();
        sel.insert(id, HashMap::from([(v, vec![rid])]));
        let (pk, bytes) = er(sn.export_to_serialized_state(sel, x25519::SecretKey::from_bytes(self.sk).public_key()))?;
        let key = *x25519::SecretKey::from_bytes(self.sk).diffie_hellman(&pk).as_bytes();
        let packed = er(read(&mut bytes.as_slice(), &key, &[]))?;
        self.good.insert("peer".into(), er(decompress(&packed))?);
        Ok(())
    }
    fn held(&mut self) -> Res<Held> {
        let sh = Stronghold::default();
        let (x, y) = (rbytes(&mut self.r, 9), rbytes(&mut self.r, 9));
        let live = er(sh.create_client("live"))?;
        set(&live, &x)?;
        // the snapshot a peer's state is merged into
        let other = Stronghold::default();
        let c = er(other.create_client("kept"))?;
        set(&c, &y)?;
        let p = SnapshotPath::from_path(self.dir.join("held"));
        er(other.commit_with_keyprovider(&p, &KeyProvider::try_from(self.key.to_vec()).unwrap()))?;
        let mut sn = er(Snapshot::read_from_snapshot(&p, self.key, None))?;
        er(sn.store_secret_key(self.sk, sk_loc()))?;
        Ok(Held { sh, live, x, captured: None, sn, y })
    }
    fn place(&mut self, i: usize, len: usize) -> usize {
        let (a, b) = ((i - 1) * len / self.places, i * len / self.places);
        if a >= b { a.min(len) } else { self.r.gen_range(a..b) }
    }
    fn word(b: &mut Vec<u8>, at: usize, f: impl Fn(u64) -> u64) {
        let at = at.min(b.len().saturating_sub(8));
        if let Some(w) = b.get_mut(at..at + 8) {
            let v = f(u64::from_le_bytes((&*w).try_into().unwrap()));
            w.copy_from_slice(&v.to_le_bytes());
        }
    }
    fn alter(&mut self, b: &mut Vec<u8>, k: &str, i: usize) {
        let at = self.place(i, b.len());
        let bit = self.r.gen_range(0..8);
        match k {
            "cut" => b.truncate(at),
            "empty" => b.clear(),
            "junk" => {
                let l = self.r.gen_range(0..200);
                *b = rbytes(&mut self.r, l)
            }
            "flip" if at < b.len() => b[at] ^= 1 << bit,
            "ones" => Self::word(b, at, |_| !0),
            "zeros" => Self::word(b, at, |_| 0),
            "big" => {
                let k = self.r.gen_range(20..63);
                Self::word(b, at, |_| 1 << k)
            }
            "more" => Self::word(b, at, |v| v.wrapping_add(1)),
            "less" => Self::word(b, at, |v| v.wrapping_sub(1)),
            "insert" => {
                let l = self.r.gen_range(1..9);
                let x = rbytes(&mut self.r, l);
                b.splice(at..at, x);
            }
            "remove" => {
                let l = self.r.gen_range(1..9).min(b.len() - at);
                b.drain(at..at + l);
            }
            "twice" => {
                let x = b[at..].to_vec();
                b.extend(x);
            }
            "append" => {
                let x = rbytes(&mut self.r, 9);
                b.extend(x);
            }
            _ => (),
        }
    }
    /// Lets the sealed bytes in; whether they were taken, and what is left.
    fn enter(&mut self, h: &mut Held, door: &str, stream: &[u8], packed: Option<&[u8]>, sweep: bool) -> Res<bool> {
        let key = if door == "peer" { self.shared() } else { self.key };
        let body = sealed(stream, |p| packed.map(|x| x.to_vec()).unwrap_or(p), &key);
        let what = if door == "peer" { "import_from_serialized_state" } else { "loading the file" };
        let panicked = |e: Box<dyn std::any::Any + Send>| format!("{what} panicked: {}", panic_text(&e));
        let took;
        if door == "peer" {
            let pk = x25519::SecretKey::from_bytes(self.peer).public_key();
            took = catch_unwind(AssertUnwindSafe(|| h.sn.import_from_serialized_state(body, sk_loc(), pk, SyncSnapshotsConfig::default()).is_ok())).map_err(panicked)?;
        } else {
            let p = self.dir.join("forged");
            fs::write(&p, [&self.header[..], &body[..]].concat()).unwrap();
            let sp = SnapshotPath::from_path(&p);
            let how = if sweep { 2 } else { self.r.gen_range(0..3) };
            let kp = KeyProvider::try_from(self.key.to_vec()).unwrap();
            took = catch_unwind(AssertUnwindSafe(|| match how {
                0 => h.sh.load_client_from_snapshot("inside", &kp, &sp).is_ok(),
                1 => h.sh.load_snapshot(&kp, &sp).is_ok(),
                _ => Snapshot::read_from_snapshot(&sp, self.key, None).is_ok(),
            }))
            .map_err(panicked)?;
            if took && how < 2 {
                // what was taken can be used, or not
                let c = if how == 0 { h.sh.get_client("inside") } else { h.sh.load_client("inside") };
                catch_unwind(AssertUnwindSafe(|| {
                    if let Ok(c) = c {
                        let _ = holds(&c, &[1]);
                    }
                    let _ = h.sh.load_client("empty");
                }))
                .map_err(|e| format!("using what was taken panicked: {}", panic_text(&e)))?;
            }
            // (a load replaces what was captured)
            if took && how < 2 {
                h.captured = None;
                for c in ["inside", "empty", "captured"] {
                    if let Ok(c) = h.sh.get_client(c) {
                        er(h.sh.unload_client(c).map(|_| ()))?;
                    }
                }
            }
        }
        self.count(if took { "taken" } else { "refused" });
        Ok(took)
    }
    /// What was held is as it was.
    fn look(&mut self, h: &mut Held, took: Option<(&str, bool)>) -> Res<()> {
        holds(&h.live, &h.x).map_err(|e| format!("of the client in use: {e}"))?;
        if let Some(x) = h.captured.clone() {
            if h.sh.get_client("live").is_err() {
                return Err("the client in use is gone".into());
            }
            let c = h.sh.load_client("captured").map_err(|e| format!("a captured client cannot be loaded: {e}"))?;
            holds(&c, &x).map_err(|e| format!("of a captured client: {e}"))?;
            er(h.sh.unload_client(c).map(|_| ()))?;
        }
        // the snapshot of the other door
        let id = ClientId::load_from_path(b"kept", b"kept");
        let (keys, db, store) = h.sn.get_state(id).map_err(|e| format!("the snapshot merged into has lost a client: {e}"))?;
        let (vid, rid) = loc().resolve();
        let mut v = vec![];
        let key = keys.get(&vid).ok_or("the snapshot merged into has lost a vault key")?;
        er(db.get_guard::<std::convert::Infallible, _>(key, vid, rid, |g| {
            v = g.borrow().to_vec();
            Ok(())
        }))
        .map_err(|e| format!("of the snapshot merged into: {e}"))?;
        if v != h.y {
            return Err("the snapshot merged into has another secret".into());
        }
        if store.get(&b"key".to_vec()) != Some(&h.y) {
            return Err("the snapshot merged into has lost a store entry".into());
        }
        if let Some(("peer", false)) = took {
            let inside = ClientId::load_from_path(b"inside", b"inside");
            if h.sn.has_data(inside) {
                return Err("the snapshot merged into has a client of a refused state".into());
            }
        }
        Ok(())
    }
    fn sweep(&mut self, h: &mut Held, door: &str) -> Res<()> {
        let good = self.good[door].clone();
        for at in 0..good.len() {
            for k in 0..7 {
                let mut b = good.clone();
                let w = at.min(b.len() - 8);
                match k {
                    0 => b.truncate(at),
                    1 => b[at] ^= 1 << self.r.gen_range(0..8),
                    2 => Self::word(&mut b, w, |_| !0),
                    3 => Self::word(&mut b, w, |_| 1 << 44),
                    4 => Self::word(&mut b, w, |_| 0),
                    5 => Self::word(&mut b, w, |v| v.wrapping_add(1)),
                    _ => Self::word(&mut b, w, |v| v.wrapping_sub(1)),
                }
                let took = self.enter(h, door, &b, None, true).map_err(|e| format!("place {at} of {}, alteration {k}: {e}", good.len()))?;
                if took && k == 0 {
                    return Err(format!("taken although cut to {at} of {} bytes", good.len()));
                }
            }
        }
        self.look(h, None)
    }
    fn go(&mut self, beh: &Value, at: &mut usize) -> Res<()> {
        self.prepare()?;
        let mut h = self.held()?;
        let door = s(&beh["door"]).to_string();
        let mut stream = self.good[&door].clone();
        let mut packed: Option<Vec<u8>> = None;
        for (i, st) in beh["steps"].as_array().unwrap().iter().enumerate() {
            *at = i;
            let op = &st["op"];
            match s(&op["k"]) {
                "alter" if s(&op["c"]["layer"]) == "stream" => self.alter(&mut stream, s(&op["c"]["k"]), n(&op["c"]["i"])),
                "alter" => {
                    let mut p = packed.take().unwrap_or_else(|| compress(&stream));
                    self.alter(&mut p, s(&op["c"]["k"]), n(&op["c"]["i"]));
                    packed = Some(p);
                }
                "fresh" => {
                    stream = self.good[&door].clone();
                    packed = None;
                }
                "write" => {
                    h.x = rbytes(&mut self.r, 9);
                    let x = h.x.clone();
                    set(&h.live, &x)?;
                }
                "capture" => {
                    let c = er(h.sh.create_client("captured"))?;
                    let x = rbytes(&mut self.r, 9);
                    set(&c, &x)?;
                    er(h.sh.write_client("captured"))?;
                    er(h.sh.unload_client(c).map(|_| ()))?;
                    h.captured = Some(x);
                }
                "enter" => {
                    let took = self.enter(&mut h, &door, &stream.clone(), packed.clone().as_deref(), false)?;
                    let o = self.ops.entry("enter".into()).or_default();
                    if took { o.0 += 1 } else { o.1 += 1 }
                    match (s(&st["want"]), took) {
                        ("taken", false) => return Err("a proper state was refused".into()),
                        ("refused", true) => return Err("a state that was cut was taken".into()),
                        _ => (),
                    }
                    self.look(&mut h, Some((&door, took)))?;
                    if took && door == "peer" {
                        h = self.held()?;
                    }
                }
                "sweep" => self.sweep(&mut h, &door)?,
                k => return Err(format!("no operation {k}")),
            }
        }
        Ok(())
    }
}
impl Machine for Forged {
    fn run(&mut self, beh: &Value) -> Result<(), (usize, String)> {
        let mut at = 0;
        fs::create_dir_all(&self.dir).unwrap();
        let r = catch_unwind(AssertUnwindSafe(|| self.go(beh, &mut at))).unwrap_or_else(|p| Err(format!("the code panicked: {}", panic_text(&p))));
        let _ = fs::remove_dir_all(&self.dir);
        r.map_err(|e| (at, e))
    }
    fn stats(&self) -> Value {
        let ops: BTreeMap<_, _> = self.ops.iter().map(|(k, v)| (k.clone(), vec![v.0, v.1])).collect();
        json!({"ops": ops, "counts": self.counts})
    }
}
