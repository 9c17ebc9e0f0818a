//! Replays behaviours of Engine.tla on the vault engine (DbView).
use crate::{conc::rbytes, mem::Vals, pool::Machine, replay::panic_text};
use engine::vault::{view::Record, BlobId, BoxProvider, DbView, Key, RecordHint, RecordId, VaultId};
use iota_stronghold::Provider;
use rand::{rngs::StdRng, seq::SliceRandom, Rng, SeedableRng};
use serde_json::{json, Value};
use std::{
    collections::{BTreeMap, BTreeSet, HashMap},
    panic::{catch_unwind, AssertUnwindSafe},
};

type Res<T> = Result<T, String>;
type K = Key<Provider>;
fn s(v: &Value) -> &str {
    v.as_str().unwrap_or("")
}
fn n(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}
fn arr(v: &Value) -> Vec<Value> {
    v.as_array().cloned().unwrap_or_default()
}
pub struct Db {
    db: DbView<Provider>,
    packs: Vec<Vec<(RecordId, Record)>>,
    keys: BTreeMap<String, (Vec<u8>, K)>,
    vids: BTreeMap<String, VaultId>,
    rids: Vec<RecordId>,
    hints: HashMap<String, RecordHint>,
    lens: HashMap<String, usize>,
    blobs: HashMap<u64, BlobId>,
    vals: Vals,
    r: StdRng,
    ops: BTreeMap<String, (u64, u64)>,
    steps: u64,
    compares: u64,
    wrong: u64,
}
/// Identifiers that differ in one bit or one byte only, among others.
fn near(r: &mut StdRng, base: &[u8], i: usize) -> Vec<u8> {
    let mut x = base.to_vec();
    match i % 4 {
        0 => (),
        1 => x[r.gen_range(0..24)] ^= 1 << r.gen_range(0..8),
        2 => x[23] = x[23].wrapping_add(1),
        _ => x = rbytes(r, 24),
    }
    x
}
impl Db {
    pub fn new(params: &Value, seed: u64) -> Self {
        let mut r = StdRng::seed_from_u64(seed);
        let kb = rbytes(&mut r, 32);
        let mut keys = BTreeMap::new();
        for (i, k) in arr(&params["keys"]).iter().enumerate() {
            let b = match i % 3 {
                0 if i == 0 => kb.clone(),
                1 => {
                    let mut b = kb.clone();
                    b[r.gen_range(0..32)] ^= 1 << r.gen_range(0..8);
                    b
                }
                2 => vec![0; 32],
                _ => rbytes(&mut r, 32),
            };
            keys.insert(s(k).to_string(), (b.clone(), K::load(b).unwrap()));
        }
        let mut fresh = |r: &mut StdRng, taken: &mut BTreeSet<Vec<u8>>, base: &[u8], i: usize| loop {
            let x = near(r, base, i);
            if taken.insert(x.clone()) {
                return x;
            }
            let x = rbytes(r, 24);
            if taken.insert(x.clone()) {
                return x;
            }
        };
        let base = if r.gen_bool(0.2) { vec![0; 24] } else { rbytes(&mut r, 24) };
        // identifiers of vaults and of records are of different kinds: they may be equal
        let (mut tv, mut tr) = (BTreeSet::new(), BTreeSet::new());
        let vids = arr(&params["vids"]).iter().enumerate().map(|(i, v)| (s(v).to_string(), VaultId::load(&fresh(&mut r, &mut tv, &base, i)).unwrap())).collect();
        let rids = (0..n(&params["rids"])).map(|i| RecordId::load(&fresh(&mut r, &mut tr, &base, i)).unwrap()).collect();
        let mut hints = HashMap::new();
        for (i, h) in arr(&params["hints"]).iter().enumerate() {
            let b = match i {
                0 => vec![],
                1 => rbytes(&mut r, 24),
                _ => rbytes(&mut r, 1 + i),
            };
            hints.insert(s(h).to_string(), RecordHint::new(b).unwrap());
        }
        let mut lens = HashMap::new();
        for v in arr(&params["vals"]).iter().map(|v| s(v).to_string()).chain(["x".to_string()]) {
            lens.insert(v, *[0, 1, 5, 24, 112, 1000, 4096, 70000].choose(&mut r).unwrap());
        }
        lens.insert("x".into(), 1);
        Db { db: DbView::new(), packs: vec![], keys, vids, rids, hints, lens, blobs: HashMap::new(), vals: Vals::new(&mut r), r,
             ops: BTreeMap::new(), steps: 0, compares: 0, wrong: 0 }
    }
    fn key(&self, v: &Value) -> K {
        self.keys[s(v)].1.clone()
    }
    fn vid(&self, v: &Value) -> VaultId {
        self.vids[s(v)]
    }
    fn rid(&self, v: &Value) -> RecordId {
        self.rids[n(v) - 1]
    }
    fn value(&mut self, v: &Value) -> Vec<u8> {
        arr(v).iter().flat_map(|x| { let l = self.lens[s(x)]; self.vals.bytes(s(x), l) }).collect()
    }
    fn step(&mut self, op: &Value, res: &Value, ran: &Value) -> Res<()> {
        let k = s(&op["k"]).to_string();
        let (key, vid) = (op.get("key").map(|x| self.key(x)), op.get("vid").map(|x| self.vid(x)));
        let rid = op.get("rid").map(|x| self.rid(x));
        let mut listed: Option<Vec<u64>> = None;
        let r: Result<(), String> = match k.as_str() {
            "init" => {
                self.db.init_vault(&key.unwrap(), vid.unwrap());
                Ok(())
            }
            "write" => {
                let v = self.value(&op["val"]);
                let h = self.hints[s(&op["hint"])];
                self.db.write(&key.unwrap(), vid.unwrap(), rid.unwrap(), &v, h).map_err(|e| e.to_string())
            }
            "revoke" => self.db.revoke_record(&key.unwrap(), vid.unwrap(), rid.unwrap()).map_err(|e| e.to_string()),
            "gc" => {
                self.db.garbage_collect_vault(&key.unwrap(), vid.unwrap());
                Ok(())
            }
            "exec" => {
                let src: Vec<(K, VaultId, RecordId)> =
                    arr(&op["src"]).iter().map(|x| (self.key(&x["key"]), self.vid(&x["vid"]), self.rid(&x["rid"]))).collect();
                let tail = self.value(&json!(["x"]));
                let fail = op["fail"].as_bool().unwrap();
                let mut called = 0;
                let h = self.hints[s(&op["hint"])];
                macro_rules! go {
                    ($src:expr) => {
                        self.db
                            .exec_procedure($src, &key.unwrap(), vid.unwrap(), rid.unwrap(), h, |bufs| {
                                called += 1;
                                let mut out: Vec<u8> = vec![];
                                for b in bufs.iter() {
                                    out.extend_from_slice(&b.borrow());
                                }
                                out.extend_from_slice(&tail);
                                if fail {
                                    Err("refused".to_string())
                                } else {
                                    Ok(out)
                                }
                            })
                            .map_err(|e| e.to_string())
                    };
                }
                let r = match src.len() {
                    0 => go!([]),
                    1 => go!([src[0].clone()]),
                    _ => go!([src[0].clone(), src[1].clone()]),
                };
                if called != if ran.as_bool().unwrap() { 1 } else { 0 } {
                    return Err(format!("the function was called {called} times, its sources are {}readable", if ran.as_bool().unwrap() { "" } else { "not all " }));
                }
                r
            }
            "export" => {
                let mut ids: Vec<usize> = arr(&op["rids"]).iter().map(n).collect();
                ids.shuffle(&mut self.r);
                match self.db.export_records(vid.unwrap(), ids.iter().map(|i| self.rids[*i - 1]).collect::<Vec<_>>()) {
                    Ok(mut p) => {
                        let pos = |rid: &RecordId| self.rids.iter().position(|x| x == rid).map(|x| x as u64 + 1).unwrap_or(0);
                        p.sort_by_key(|x| pos(&x.0));
                        listed = Some(p.iter().map(|x| pos(&x.0)).collect());
                        self.packs.push(p);
                        Ok(())
                    }
                    Err(e) => Err(e.to_string()),
                }
            }
            "rekey" => {
                let (old, new) = (self.key(&op["old"]), self.key(&op["new"]));
                let (oid, nid) = (self.rid(&op["oid"]), self.rid(&op["nid"]));
                let x = &mut self.packs[n(&op["p"]) - 1][n(&op["i"]) - 1];
                let r = x.1.update_meta(&old, oid.into(), &new, nid.into()).map_err(|e| e.to_string());
                if r.is_ok() {
                    x.0 = nid;
                }
                r
            }
            "relabel" => {
                let nid = self.rid(&op["nid"]);
                self.packs[n(&op["p"]) - 1][n(&op["i"]) - 1].0 = nid;
                Ok(())
            }
            "flip" => {
                let x = &mut self.packs[n(&op["p"]) - 1][n(&op["i"]) - 1];
                let mut b = bincode::serialize(&x.1).unwrap();
                // 24 bytes of identifier, the sealed description, the revocation, the sealed contents
                let l = u64::from_le_bytes(b[24..32].try_into().unwrap()) as usize;
                let mut at: Vec<usize> = (32..32 + l).collect();
                let tail = if b[32 + l] == 0 { 33 + l } else { 33 + l + 8 + u64::from_le_bytes(b[33 + l..41 + l].try_into().unwrap()) as usize };
                at.extend(tail + 8..b.len());
                let i = *at.choose(&mut self.r).unwrap();
                b[i] ^= 1 << self.r.gen_range(0..8);
                x.1 = bincode::deserialize(&b).map_err(|e| format!("harness: {e}"))?;
                Ok(())
            }
            "import" => {
                let mut p = self.packs[n(&op["p"]) - 1].clone();
                // of two records with one id the last one counts
                if p.iter().map(|x| x.0).collect::<BTreeSet<_>>().len() == p.len() {
                    p.shuffle(&mut self.r);
                }
                let (old, new) = (self.key(&op["old"]), self.key(&op["new"]));
                self.db.import_records(&old, &new, vid.unwrap(), p).map_err(|e| e.to_string())
            }
            "clear" => {
                self.db.clear();
                Ok(())
            }
            "serde" => {
                let b = bincode::serialize(&self.db).map_err(|e| e.to_string())?;
                self.db = bincode::deserialize(&b).map_err(|e| e.to_string())?;
                for p in &mut self.packs {
                    *p = bincode::deserialize(&bincode::serialize(p).unwrap()).map_err(|e| e.to_string())?;
                }
                Ok(())
            }
            "clone" => {
                // the copy is used from now on; what happens to the original does not matter to it
                let c = self.db.clone();
                for (v, id) in &self.vids {
                    for k in self.keys.values() {
                        for rid in &self.rids {
                            let _ = self.db.write(&k.1, *id, *rid, v.as_bytes(), self.hints.values().next().copied().unwrap());
                            let _ = self.db.revoke_record(&k.1, *id, *rid);
                        }
                        self.db.garbage_collect_vault(&k.1, *id);
                    }
                }
                self.db = c;
                Ok(())
            }
            k => panic!("harness: operation {k}"),
        };
        let ok = res["ok"].as_bool().unwrap();
        let e = self.ops.entry(k.clone()).or_default();
        if ok {
            e.0 += 1
        } else {
            e.1 += 1
        }
        match (&r, ok) {
            (Ok(()), false) => return Err(format!("{k} succeeds, it must be refused")),
            (Err(e), true) => return Err(format!("{k} is refused: {e}")),
            _ => (),
        }
        if let Some(l) = listed {
            let want: Vec<u64> = arr(&res["v"]).iter().map(|x| x.as_u64().unwrap()).collect();
            if l != want {
                return Err(format!("exported records {l:?}, not {want:?}"));
            }
        }
        Ok(())
    }
    fn compare(&mut self, st: &Value) -> Res<()> {
        self.compares += 1;
        let vaults = st["vaults"].as_object().cloned().unwrap_or_default();
        let mut have: Vec<VaultId> = self.db.list_vaults();
        let mut want: Vec<VaultId> = vaults.keys().map(|v| self.vids[v]).collect();
        have.sort();
        want.sort();
        if have != want {
            return Err(format!("the vaults are {have:?}, not {want:?}"));
        }
        for (name, vid) in self.vids.clone() {
            let v = vaults.get(&name);
            if self.db.contains_vault(&vid) != v.is_some() {
                return Err(format!("contains_vault({name}) is {}", v.is_none()));
            }
            let recs = v.map(|v| arr(&v["recs"])).unwrap_or_default();
            // without a key: which records there are
            let mut l = self.db.list_records(&vid);
            let mut w: Vec<RecordId> = recs.iter().map(|r| self.rid(&r["rid"])).collect();
            l.sort();
            w.sort();
            if l != w {
                return Err(format!("list_records of {name} has {} records, {} are live", l.len(), w.len()));
            }
            for i in 0..self.rids.len() {
                if self.db.contains_record(vid, self.rids[i]) != w.contains(&self.rids[i]) {
                    return Err(format!("contains_record({name}, {}) is {}", i + 1, !w.contains(&self.rids[i])));
                }
            }
            let mut keys: Vec<(String, K)> = self.keys.iter().map(|(n, k)| (n.clone(), k.1.clone())).collect();
            keys.push(("another".into(), K::random()));
            for (kn, key) in keys {
                let opens = v.map_or(false, |v| s(&v["key"]) == kn);
                let hints = self.db.list_hints_and_ids(&key, vid);
                let blobs = self.db.list_records_with_blob_id(&key, vid);
                if !opens {
                    self.wrong += 1;
                    if !hints.is_empty() {
                        return Err(format!("key {kn} lists hints of vault {name}"));
                    }
                    match blobs {
                        Ok(x) if !x.is_empty() || v.is_none() => return Err(format!("key {kn} lists {} blob ids of vault {name}", x.len())),
                        _ => (),
                    }
                } else {
                    let blobs = blobs.map_err(|e| format!("list_records_with_blob_id of {name}: {e}"))?;
                    if hints.len() != recs.len() || blobs.len() != recs.len() {
                        return Err(format!("vault {name} lists {} hints and {} blob ids, it has {} records", hints.len(), blobs.len(), recs.len()));
                    }
                    for r in &recs {
                        let rid = self.rid(&r["rid"]);
                        if !hints.contains(&(rid, self.hints[s(&r["hint"])])) {
                            return Err(format!("record {} of {name} is not listed with the hint it was first written with", r["rid"]));
                        }
                        let b = self.db.get_blob_id(&key, vid, rid).map_err(|e| format!("get_blob_id({name}, {}): {e}", r["rid"]))?;
                        if !blobs.contains(&(rid, b)) {
                            return Err(format!("record {} of {name} is listed with another blob id than get_blob_id gives", r["rid"]));
                        }
                        let no = r["blob"].as_u64().unwrap();
                        match self.blobs.get(&no) {
                            Some(x) if *x != b => return Err(format!("the blob id of record {} of {name} changed without a write", r["rid"])),
                            None if self.blobs.values().any(|x| *x == b) => return Err(format!("the blob id of record {} of {name} did not change with the write", r["rid"])),
                            _ => (),
                        }
                        self.blobs.insert(no, b);
                        let val = self.value(&r["val"]);
                        let mut got: Option<Vec<u8>> = None;
                        self.db
                            .get_guard::<String, _>(&key, vid, rid, |b| {
                                got = Some(b.borrow().to_vec());
                                Ok(())
                            })
                            .map_err(|e| format!("read of record {} of {name}: {e}", r["rid"]))?;
                        let got = got.ok_or("the reader was not called")?;
                        if got != val {
                            return Err(format!("record {} of {name} reads as {} bytes, not what was written ({} bytes)", r["rid"], got.len(), val.len()));
                        }
                        if self.db.get_guard(&key, vid, rid, |_| Err("refused".to_string())).is_ok() {
                            return Err("a reader's failure is not reported".into());
                        }
                    }
                    if recs.len() > 1 {
                        let (a, b) = (self.r.gen_range(0..recs.len()), self.r.gen_range(0..recs.len()));
                        let (va, vb) = (self.value(&recs[a]["val"]), self.value(&recs[b]["val"]));
                        let mut same = false;
                        let ids = [(key.clone(), vid, self.rid(&recs[a]["rid"])), (key.clone(), vid, self.rid(&recs[b]["rid"]))];
                        self.db.get_guards::<String, _, 2>(ids, |g| { same = *g[0].borrow() == va[..] && *g[1].borrow() == vb[..]; Ok(()) }).map_err(|e| e.to_string())?;
                        if !same {
                            return Err(format!("records {} and {} of {name} read together differ", recs[a]["rid"], recs[b]["rid"]));
                        }
                    }
                }
                for (i, rid) in self.rids.iter().enumerate() {
                    if opens && w.contains(rid) {
                        continue;
                    }
                    let mut called = false;
                    let why = if opens { "which is not live".to_string() } else { format!("with key {kn}") };
                    if self.db.get_guard::<String, _>(&key, vid, *rid, |_| { called = true; Ok(()) }).is_ok() || called {
                        return Err(format!("record {} of {name} can be read {why}", i + 1));
                    }
                    if self.db.get_blob_id(&key, vid, *rid).is_ok() {
                        return Err(format!("get_blob_id answers for record {} of {name} {why}", i + 1));
                    }
                }
            }
        }
        // what was exported stays sealed
        for (i, p) in self.packs.iter().enumerate() {
            if p.len() != n(&st["packs"][i]) {
                return Err(format!("harness: pack {i}"));
            }
        }
        if let Some(p) = self.packs.last() {
            let bytes = bincode::serialize(p).unwrap();
            for v in self.lens.clone() {
                if v.1 >= 24 {
                    let b = self.vals.bytes(&v.0, 24);
                    if bytes.windows(24).any(|w| w == b) {
                        return Err("exported records show a value".into());
                    }
                }
            }
            for (_, h) in &self.hints {
                if h.as_ref().iter().filter(|x| **x != 0).count() > 20 && bytes.windows(24).any(|w| w == h.as_ref()) {
                    return Err("exported records show a hint".into());
                }
            }
            for (_, (b, _)) in &self.keys {
                if b.iter().any(|x| *x != 0) && bytes.windows(32).any(|w| w == &b[..]) {
                    return Err("exported records show a key".into());
                }
            }
        }
        Ok(())
    }
}
impl Machine for Db {
    fn run(&mut self, beh: &Value) -> Result<(), (usize, String)> {
        let steps = arr(&beh["steps"]);
        for (i, st) in steps.iter().enumerate() {
            self.steps += 1;
            let r = catch_unwind(AssertUnwindSafe(|| {
                self.step(&st["op"], &st["res"], &st["res"]["ran"])?;
                if st["st"].get("vaults").is_some() {
                    self.compare(&st["st"])?;
                }
                Ok(())
            }));
            match r {
                Ok(Ok(())) => (),
                Ok(Err(e)) => return Err((i, e)),
                Err(p) => return Err((i, format!("panic: {}", panic_text(&p)))),
            }
        }
        Ok(())
    }
    fn stats(&self) -> Value {
        json!({"ops": self.ops, "counts": {"steps": self.steps, "compares": self.compares, "listings_and_reads_with_wrong_keys": self.wrong}})
    }
}
