//! Replays behaviours of AtRest.tla: what the bytes of snapshot files and exports give away.
use crate::{
    conc::{clamped, rbytes},
    pool::Machine,
    replay::panic_text,
};
use crypto::keys::x25519;
use engine::vault::{ClientId, RecordId, VaultId};
use iota_stronghold::{
    procedures::{GenerateKey, KeyType, StrongholdProcedure},
    Client, KeyProvider, LoadFromPath, Location, Snapshot, SnapshotPath, Stronghold,
};
use rand::{rngs::StdRng, Rng, SeedableRng};
use serde_json::{json, Value};
use std::{
    collections::{BTreeMap, HashMap, HashSet},
    fs,
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
};

type Res<T> = Result<T, String>;
fn s(v: &Value) -> &str {
    v.as_str().unwrap_or("")
}
fn arr(v: &Value) -> Vec<Value> {
    v.as_array().cloned().unwrap_or_default()
}
fn er<T>(r: Result<T, impl std::fmt::Display>) -> Res<T> {
    r.map_err(|e| e.to_string())
}
const W: usize = 8;
fn windows(b: &[u8]) -> impl Iterator<Item = u64> + '_ {
    b.windows(W).map(|w| u64::from_le_bytes(w.try_into().unwrap()))
}
fn base64(b: &[u8], url: bool) -> Vec<u8> {
    let t: Vec<u8> = (b'A'..=b'Z').chain(b'a'..=b'z').chain(b'0'..=b'9').chain(if url { *b"-_" } else { *b"+/" }).collect();
    b.chunks_exact(3).flat_map(|c| {
        let x = (c[0] as u32) << 16 | (c[1] as u32) << 8 | c[2] as u32;
        [t[(x >> 18) as usize], t[(x >> 12 & 63) as usize], t[(x >> 6 & 63) as usize], t[(x & 63) as usize]]
    }).collect()
}
/// What an observer would take for readable: the bytes, turned round, spelt out, or under a constant.
fn forms(b: &[u8]) -> Vec<(&'static str, Vec<u8>)> {
    let mut rev = b.to_vec();
    rev.reverse();
    let hex: String = b.iter().map(|x| format!("{x:02x}")).collect();
    let mut v = vec![("as it is", b.to_vec()), ("backwards", rev), ("in upper case hexadecimal", hex.to_uppercase().into_bytes()), ("in hexadecimal", hex.into_bytes())];
    for i in 0..3.min(b.len()) {
        v.push(("in base64", base64(&b[i..], false)));
        v.push(("in base64", base64(&b[i..], true)));
    }
    v
}
fn diffs(b: &[u8]) -> (Vec<u8>, Vec<u8>) {
    (b.windows(2).map(|w| w[0] ^ w[1]).collect(), b.windows(2).map(|w| w[1].wrapping_sub(w[0])).collect())
}
/// The forms under which needle is found in a file with these windows.
struct Scan {
    raw: HashSet<u64>,
    xor: HashSet<u64>,
    sub: HashSet<u64>,
}
impl Scan {
    fn new(b: &[u8]) -> Self {
        let (x, d) = diffs(b);
        Scan { raw: windows(b).collect(), xor: windows(&x).collect(), sub: windows(&d).collect() }
    }
    fn find(&self, n: &Needle) -> Option<&'static str> {
        for (how, f) in &n.raw {
            if f.iter().any(|w| self.raw.contains(w)) {
                return Some(how);
            }
        }
        if n.xor.iter().any(|w| self.xor.contains(w)) || n.sub.iter().any(|w| self.sub.contains(w)) {
            return Some("under a constant");
        }
        None
    }
}
/// Something that must not be readable.
struct Needle {
    name: String,
    bytes: Vec<u8>,
    raw: Vec<(&'static str, Vec<u64>)>,
    xor: Vec<u64>,
    sub: Vec<u64>,
}
impl Needle {
    fn new(name: String, bytes: Vec<u8>) -> Self {
        let set = |b: &[u8]| windows(b).collect::<HashSet<u64>>().into_iter().collect::<Vec<u64>>();
        let raw = forms(&bytes).into_iter().map(|(how, f)| (how, set(&f))).collect();
        let (x, d) = diffs(&bytes);
        Needle { name, raw, xor: set(&x), sub: set(&d), bytes }
    }
}
fn chi2(b: &[u8]) -> f64 {
    let mut n = [0f64; 256];
    b.iter().for_each(|x| n[*x as usize] += 1.0);
    let e = b.len() as f64 / 256.0;
    n.iter().map(|x| (x - e) * (x - e) / e).sum()
}

struct Out {
    what: String,
    body: Vec<u8>, // without the header
    scan: Scan,
}
pub struct AtRest {
    dir: PathBuf,
    r: StdRng,
    sh: Stronghold,
    clients: HashMap<String, Client>,
    needles: Vec<Needle>,
    keys: HashMap<String, Vec<u8>>, // raw keys
    pass: HashMap<String, Vec<u8>>,
    peers: HashMap<String, [u8; 32]>,
    names: HashMap<String, Vec<u8>>,
    in_file: HashMap<String, String>,
    outs: Vec<Out>,
    n: u64,
    ops: BTreeMap<String, (u64, u64)>,
    counts: BTreeMap<String, u64>,
}
impl AtRest {
    pub fn new(params: &Value, seed: u64, dir: &Path) -> Self {
        let mut r = StdRng::seed_from_u64(seed);
        let _ = fs::remove_dir_all(dir);
        fs::create_dir_all(dir).unwrap();
        let mut keys = HashMap::new();
        let mut pass = HashMap::new();
        let mut needles = vec![];
        for (i, k) in arr(&params["keys"]).iter().enumerate() {
            let b = if i == 1 {
                let p = text(&mut r, 24);
                needles.push(Needle::new(format!("passphrase {k}"), p.clone()));
                let h = KeyProvider::with_passphrase_hashed_blake2b(p.clone()).unwrap();
                pass.insert(s(k).to_string(), p);
                let x = h.try_unlock().unwrap().borrow().to_vec();
                x
            } else {
                rbytes(&mut r, 32)
            };
            needles.push(Needle::new(format!("snapshot key {k}"), b.clone()));
            keys.insert(s(k).to_string(), b);
        }
        let mut peers = HashMap::new();
        for k in arr(&params["peers"]) {
            let b: [u8; 32] = rbytes(&mut r, 32).try_into().unwrap();
            needles.push(Needle::new(format!("key of recipient {k}"), b.to_vec()));
            peers.insert(s(&k).to_string(), b);
        }
        AtRest { dir: dir.into(), r, sh: Stronghold::default(), clients: HashMap::new(), needles, keys, pass, peers, names: HashMap::new(),
                 in_file: HashMap::new(), outs: vec![], n: 0, ops: BTreeMap::new(), counts: BTreeMap::new() }
    }
    fn count(&mut self, k: &str, by: u64) {
        *self.counts.entry(k.into()).or_default() += by;
    }
    fn name(&mut self, k: &str) -> Vec<u8> {
        if let Some(b) = self.names.get(k) {
            return b.clone();
        }
        let l = self.r.gen_range(10..60);
        let b = if self.r.gen() { text(&mut self.r, l) } else { rbytes(&mut self.r, l) };
        self.needles.push(Needle::new(format!("path {k}"), b.clone()));
        self.names.insert(k.into(), b.clone());
        b
    }
    fn value(&mut self, shape: &str) -> Vec<u8> {
        let r = &mut self.r;
        let l = r.gen_range(16..2000);
        match shape {
            "zeros" => vec![0; 3 * l + 8],
            "ones" => vec![255; l + 8],
            "repeat" => rbytes(r, 16).into_iter().cycle().take(5 * l + 16).collect(),
            "text" => text(r, l),
            "long" => rbytes(r, 20000),
            "runs" => (0..l).flat_map(|i| vec![(i * 7) as u8; 9]).collect(),
            _ => rbytes(r, l),
        }
    }
    fn provider(&self, k: &str) -> KeyProvider {
        match self.pass.get(k) {
            Some(p) => KeyProvider::with_passphrase_hashed_blake2b(p.clone()).unwrap(),
            None => KeyProvider::try_from(self.keys[k].clone()).unwrap(),
        }
    }
    fn file(&self, f: &str) -> PathBuf {
        self.dir.join(f)
    }
    fn client(&mut self, p: &str) -> Res<Client> {
        let path = self.name(p);
        if !self.clients.contains_key(p) {
            let c = er(self.sh.create_client(&path))?;
            self.clients.insert(p.into(), c);
        }
        Ok(self.clients[p].clone())
    }
    fn step(&mut self, op: &Value) -> Res<()> {
        let k = s(&op["k"]);
        self.ops.entry(k.into()).or_default().0 += 1;
        match k {
            "put" => {
                let c = self.client(s(&op["p"]))?;
                self.n += 1;
                let (n, what, shape) = (self.n, s(&op["what"]), s(&op["shape"]));
                if what == "store" {
                    let (key, v) = (self.name(&format!("k{n}")), self.value(shape));
                    self.needles.push(Needle::new(format!("store value {n} ({shape})"), v.clone()));
                    er(c.store().insert(key, v, None))?;
                } else {
                    let (v, r) = (self.name(s(&op["v"])), self.name(s(&op["r"])));
                    let loc = if self.r.gen_bool(0.2) { Location::counter(v.clone(), 3usize) } else { Location::generic(v.clone(), r) };
                    if what == "secret" {
                        let x = self.value(shape);
                        self.needles.push(Needle::new(format!("secret {n} ({shape})"), x.clone()));
                        er(c.vault(v).write_secret(loc, x))?;
                    } else {
                        let p: StrongholdProcedure = GenerateKey { ty: KeyType::Ed25519, output: loc }.into();
                        er(c.execute_procedure(p))?;
                    }
                }
            }
            "setkey" => {
                let (l, k) = (Location::generic(self.name("keyvault"), self.name("keyrecord")), self.provider(s(&op["key"])));
                er(self.sh.store_snapshot_key_at_location(k, l))?;
                self.in_file.insert("stored".into(), s(&op["key"]).into());
            }
            "commit" | "stored" => {
                let f = s(&op["f"]);
                let p = SnapshotPath::from_path(self.file(f));
                let key = if k == "commit" {
                    er(self.sh.commit_with_keyprovider(&p, &self.provider(s(&op["key"]))))?;
                    s(&op["key"]).to_string()
                } else {
                    er(self.sh.commit(&p))?;
                    self.in_file["stored"].clone()
                };
                self.in_file.insert(f.into(), key.clone());
                let b = er(fs::read(self.file(f)))?;
                self.secrets_of(f, &key)?;
                self.control(f, &key)?;
                // five bytes of magic and two of version may be the same in every file
                self.output(format!("snapshot file {f} under {key}"), b.get(7..).unwrap_or(&[]).to_vec())?;
            }
            "export" => {
                let (f, to) = (s(&op["f"]), s(&op["to"]));
                let key = self.in_file[f].clone();
                let sn = self.snapshot(f, &key)?;
                let mut sel: HashMap<ClientId, HashMap<VaultId, Vec<RecordId>>> = HashMap::new();
                for cid in self.client_ids(&sn) {
                    let st = er(sn.get_state(cid))?;
                    for vid in st.1.list_vaults() {
                        let l = st.1.list_records(&vid);
                        sel.entry(cid).or_default().insert(vid, l);
                    }
                }
                let sk = x25519::SecretKey::from_bytes(self.peers[to]);
                let (pk, b) = er(sn.export_to_serialized_state(sel, sk.public_key()))?;
                let shared = sk.diffie_hellman(&pk);
                er(engine::snapshot::read(&mut b.as_slice(), shared.as_bytes(), &[])).map_err(|e| format!("the recipient cannot open the export: {e}"))?;
                self.needles.push(Needle::new(format!("key of export {}", self.outs.len()), shared.as_bytes().to_vec()));
                self.output(format!("export of {f} to {to}"), b)?;
            }
            "load" => {
                let f = s(&op["f"]);
                let key = self.in_file[f].clone();
                self.sh = Stronghold::default();
                er(self.sh.load_snapshot(&self.provider(&key), &SnapshotPath::from_path(self.file(f))))?;
                self.in_file.remove("stored");
                self.clients.clear();
                let sn = self.snapshot(f, &key)?;
                let names: Vec<(String, Vec<u8>)> = self.names.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                for (k, p) in names {
                    if k.starts_with('p') && sn.has_data(ClientId::load_from_path(&p, &p)) {
                        let c = er(self.sh.load_client(&p))?;
                        self.clients.insert(k, c);
                    }
                }
            }
            k => panic!("harness: operation {k}"),
        }
        Ok(())
    }
    fn snapshot(&self, f: &str, key: &str) -> Res<Snapshot> {
        let k: [u8; 32] = self.keys[key].clone().try_into().unwrap();
        er(Snapshot::read_from_snapshot(&SnapshotPath::from_path(self.file(f)), k, None))
    }
    fn client_ids(&self, sn: &Snapshot) -> Vec<ClientId> {
        self.names.iter().filter(|(k, _)| k.starts_with('p')).map(|(_, p)| ClientId::load_from_path(p, p)).filter(|c| sn.has_data(*c)).collect()
    }
    /// Vault keys and generated secrets, as found in a file opened with its key.
    fn secrets_of(&mut self, f: &str, key: &str) -> Res<()> {
        let sn = self.snapshot(f, key)?;
        let mut new = vec![];
        for cid in self.client_ids(&sn) {
            let st = er(sn.get_state(cid))?;
            for (vid, k) in &st.0 {
                new.push(("vault key".to_string(), k.key.borrow().to_vec()));
                for rid in st.1.list_records(vid) {
                    let mut got = vec![];
                    er(st.1.get_guard::<String, _>(k, *vid, rid, |b| {
                        got = b.borrow().to_vec();
                        Ok(())
                    }))?;
                    new.push(("secret".to_string(), got));
                }
            }
        }
        for x in new {
            if !self.needles.iter().any(|y| y.bytes == x.1) {
                self.needles.push(Needle::new(x.0, x.1));
            }
        }
        Ok(())
    }
    /// How much of what is looked for is there to be seen once the file is open.
    fn control(&mut self, f: &str, key: &str) -> Res<()> {
        let k: [u8; 32] = self.keys[key].clone().try_into().unwrap();
        if let Ok(p) = engine::snapshot::read_from(&self.file(f), &k, &[]) {
            let sc = Scan::new(&p);
            let n = self.needles.iter().filter(|b| sc.find(b).is_some()).count();
            self.count("seen_in_opened_files", n as u64);
        }
        Ok(())
    }
    /// Looks at a new output.
    fn output(&mut self, what: String, body: Vec<u8>) -> Res<()> {
        self.count("outputs", 1);
        let scan = Scan::new(&body);
        for b in &self.needles {
            if let Some(how) = scan.find(b) {
                return Err(format!("{what} shows {} {how}", b.name));
            }
        }
        self.count("searches", self.needles.len() as u64);
        for o in &self.outs {
            if windows(&o.body).any(|w| scan.raw.contains(&w)) {
                return Err(format!("{what} and {} written before have bytes in common", o.what));
            }
            let n = o.body.len().min(body.len());
            let same = o.body.iter().zip(&body).filter(|(x, y)| x == y).count() as f64;
            let mean = n as f64 / 256.0;
            if same > mean + 12.0 * mean.sqrt() + 12.0 {
                return Err(format!("{what} and {} written before agree in {same} of {n} bytes", o.what));
            }
        }
        self.count("pairs", self.outs.len() as u64);
        if body.len() >= 2560 {
            let x = chi2(&body);
            self.count("distributions", 1);
            if x > 255.0 + 14.0 * 22.6 {
                return Err(format!("the bytes of {what} are not evenly distributed (chi squared {x:.0} over 255)"));
            }
        }
        // keys that everybody knows
        let mut guesses: Vec<[u8; 32]> = vec![[0; 32], [255; 32], [1; 32]];
        if let Some(b) = body.get(..32) {
            guesses.push(b.try_into().unwrap());
            guesses.push(clamped(b).try_into().unwrap());
        }
        let known: HashSet<Vec<u8>> = self.keys.values().map(|k| clamped(k)).collect();
        for g in guesses {
            if !known.contains(&clamped(&g)) && engine::snapshot::read(&mut body.as_slice(), &g, &[]).is_ok() {
                return Err(format!("{what} opens with a key that everybody knows"));
            }
        }
        if body.len() < 48 {
            return Err(format!("{what} has {} bytes", body.len()));
        }
        self.outs.push(Out { what, body, scan });
        Ok(())
    }
    /// Nothing else lies around in readable form either, and earlier outputs do not show what came later.
    fn all(&mut self) -> Res<()> {
        for e in fs::read_dir(&self.dir).unwrap() {
            let e = e.unwrap();
            if e.file_type().unwrap().is_file() {
                let sc = Scan::new(&fs::read(e.path()).unwrap());
                if let Some((name, how)) = self.needles.iter().find_map(|b| sc.find(b).map(|h| (&b.name, h))) {
                    return Err(format!("file {:?} shows {name} {how}", e.file_name()));
                }
            }
        }
        for o in &self.outs {
            if let Some((name, how)) = self.needles.iter().find_map(|b| o.scan.find(b).map(|h| (&b.name, h))) {
                return Err(format!("{} shows {name} {how}", o.what));
            }
        }
        Ok(())
    }
}
fn text(r: &mut StdRng, l: usize) -> Vec<u8> {
    (0..l).map(|_| if r.gen_bool(0.15) { b' ' } else { r.gen_range(b'a'..=b'z') }).collect()
}
impl Machine for AtRest {
    fn run(&mut self, beh: &Value) -> Result<(), (usize, String)> {
        let mut at = 0;
        let steps = arr(&beh["steps"]);
        let r = catch_unwind(AssertUnwindSafe(|| {
            for (i, st) in steps.iter().enumerate() {
                at = i;
                self.step(&st["op"])?;
                // the specification has it that nothing is readable and nothing related
                let outs = arr(&st["st"]["outs"]);
                if outs.len() != self.outs.len() || !arr(&st["st"]["related"]).is_empty() || outs.iter().any(|o| o["readable"] != 0) {
                    panic!("harness: the specification expects something else");
                }
            }
            self.all()
        }))
        .unwrap_or_else(|p| Err(format!("the code panicked: {}", panic_text(&p))));
        let _ = fs::remove_dir_all(&self.dir);
        r.map_err(|e| (at, e))
    }
    fn stats(&self) -> Value {
        let ops: BTreeMap<_, _> = self.ops.iter().map(|(k, v)| (k.clone(), vec![v.0, v.1])).collect();
        json!({"ops": ops, "counts": self.counts})
    }
}
