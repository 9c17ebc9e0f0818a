//! Replays behaviours of SnapSync.tla on in-memory snapshots.
use crate::{
    conc::{rbytes, Conc},
    pool::Machine,
    replay::panic_text,
};
use crypto::keys::x25519;
use engine::vault::{ClientId, Key, RecordHint, RecordId, VaultId};
use iota_stronghold::{
    sync::{MergePolicy, SyncClientsConfig, SyncSnapshotsConfig},
    LoadFromPath, Location, Provider, Snapshot, SnapshotPath, UseKey,
};
use rand::Rng;
use serde_json::{json, Value};
use std::{
    collections::{BTreeMap, BTreeSet, HashMap},
    fs,
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
};

type Res<T> = Result<T, String>;
fn s(v: &Value) -> &str {
    v.as_str().unwrap_or("")
}
fn n(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}
fn arr(v: &Value) -> Vec<Value> {
    v.as_array().cloned().unwrap_or_default()
}
/// The entries of a function with string domain (an empty one is written as an empty array).
fn fun(v: &Value) -> Vec<(String, Value)> {
    v.as_object().map(|o| o.iter().map(|(k, v)| (k.clone(), v.clone())).collect()).unwrap_or_default()
}
struct Msg {
    pk: x25519::PublicKey,
    bytes: Vec<u8>,
}
pub struct Sync {
    c: Conc,
    dir: PathBuf,
    snaps: BTreeMap<String, Snapshot>,
    paths: Vec<String>,
    vaults: Vec<String>,
    recs: Vec<String>,
    sks: Vec<[u8; 32]>,
    msgs: Vec<Msg>,
    vals: HashMap<u64, Vec<u8>>,
    n: u64,
    ops: BTreeMap<String, (u64, u64)>,
    steps: u64,
    compares: u64,
    reads: u64,
}
fn sk(b: &[u8; 32]) -> x25519::SecretKey {
    x25519::SecretKey::from_bytes(*b)
}
impl Sync {
    pub fn new(params: &Value, seed: u64, dir: &Path) -> Self {
        let list = |k: &str| arr(&params[k]).iter().map(|x| s(x).to_string()).collect::<Vec<_>>();
        let mut c = Conc::new(seed, &json!({}), params["plain"] == true);
        let sks = (0..n(&params["sks"])).map(|_| rbytes(&mut c.r, 32).try_into().unwrap()).collect();
        Sync { dir: dir.to_path_buf(), snaps: list("snaps").into_iter().map(|x| (x, Snapshot::default())).collect(), paths: list("paths"), vaults: list("vaults"),
               recs: list("recs"), sks, msgs: vec![], vals: HashMap::new(), n: 0, ops: BTreeMap::new(), steps: 0, compares: 0, reads: 0, c }
    }
    fn cid(&mut self, p: &str) -> ClientId {
        let b = self.c.name("client", p);
        ClientId::load_from_path(&b, &b)
    }
    fn rid(&mut self, id: &Value) -> RecordId {
        self.c.loc(s(&id[0]), s(&id[1])).resolve().1
    }
    fn vid(&mut self, v: &str) -> VaultId {
        self.c.loc(v, &self.recs[0].clone()).resolve().0
    }
    fn value(&mut self, t: u64) -> Vec<u8> {
        if let Some(v) = self.vals.get(&t) {
            return v.clone();
        }
        let l = [0, 1, 20, 300, 300, 5000, 70000][self.c.r.gen_range(0..7)];
        let mut v = rbytes(&mut self.c.r, l);
        v.extend(t.to_le_bytes());
        self.vals.insert(t, v.clone());
        v
    }
    fn client_config(&mut self, cfg: &Value) -> SyncClientsConfig {
        let mut conf = SyncClientsConfig::new(policy(&cfg["pol"]));
        if !cfg["all"].as_bool().unwrap() {
            conf.sync_selected_vaults(arr(&cfg["sv"]).iter().map(|v| self.c.name("vault", s(v))).collect::<Vec<_>>());
        }
        for (v, ids) in fun(&cfg["sr"]) {
            let vp = self.c.name("vault", &v);
            let rs: Vec<Vec<u8>> = arr(&ids).iter().map(|id| self.c.name("rec", s(&id[1]))).collect();
            conf.sync_selected_record(vp, rs);
        }
        let m: HashMap<_, _> = fun(&cfg["mp"]).into_iter().map(|(v, w)| (self.c.name("vault", &v), self.c.name("vault", s(&w)))).collect();
        conf.map_vaults(m);
        conf
    }
    fn config(&mut self, cfg: &Value) -> SyncSnapshotsConfig {
        let mut conf = SyncSnapshotsConfig::new(policy(&cfg["pol"]));
        if !cfg["all"].as_bool().unwrap() {
            conf.sync_selected_clients(arr(&cfg["sc"]).iter().map(|p| self.c.name("client", s(p))).collect::<Vec<_>>());
        }
        for (p, c) in fun(&cfg["cc"]) {
            let c = self.client_config(&c);
            conf.config_client_sync(self.c.name("client", &p), c);
        }
        let m: HashMap<_, _> = fun(&cfg["mc"]).into_iter().map(|(v, w)| (self.c.name("client", &v), self.c.name("client", s(&w)))).collect();
        conf.map_clients(m);
        conf
    }
    fn snap(&mut self, v: &Value) -> &mut Snapshot {
        self.snaps.get_mut(s(v)).unwrap()
    }
    /// Changes one client of a snapshot.
    fn edit<T>(&mut self, op: &Value, f: impl FnOnce(&mut (HashMap<VaultId, Key<Provider>>, engine::vault::DbView<Provider>, engine::store::Cache<Vec<u8>, Vec<u8>>)) -> Res<T>) -> Res<T> {
        let cid = self.cid(s(&op["p"]));
        let sn = self.snap(&op["x"]);
        let mut st = sn.get_state(cid).map_err(|e| format!("harness: get_state: {e}"))?;
        let r = f(&mut st)?;
        sn.add_data(cid, st).map_err(|e| format!("harness: add_data: {e}"))?;
        Ok(r)
    }
    fn selection(&mut self, sel: &Value) -> HashMap<ClientId, HashMap<VaultId, Vec<RecordId>>> {
        let mut out = HashMap::new();
        for (p, vs) in fun(sel) {
            let mut m = HashMap::new();
            for (v, ids) in fun(&vs) {
                let ids: Vec<RecordId> = arr(&ids).iter().map(|id| self.rid(id)).collect();
                m.insert(self.vid(&v), ids);
            }
            out.insert(self.cid(&p), m);
        }
        out
    }
    fn step(&mut self, op: &Value, res: &Value) -> Res<()> {
        let k = s(&op["k"]).to_string();
        let r: Result<(), String> = match k.as_str() {
            "write" => {
                let (vid, rid) = self.c.loc(s(&op["l"][0]), s(&op["l"][1])).resolve();
                let v = self.value(self.n + 1);
                let r = self.edit(op, |st| {
                    let key = st.0.entry(vid).or_insert_with(Key::random);
                    Ok(st.1.write(key, vid, rid, &v, RecordHint::new("").unwrap()).map_err(|e| e.to_string()))
                })?;
                if r.is_ok() {
                    self.n += 1;
                }
                r
            }
            "revoke" => {
                let (vid, rid) = (self.vid(s(&op["v"])), self.rid(&op["id"]));
                self.edit(op, |st| match st.0.get(&vid) {
                    Some(k) => st.1.revoke_record(k, vid, rid).map_err(|e| format!("harness: {e}")),
                    None => Ok(()),
                })
            }
            "gc" => {
                let vid = self.vid(s(&op["v"]));
                self.edit(op, |st| {
                    if let Some(k) = st.0.get(&vid) {
                        st.1.garbage_collect_vault(k, vid)
                    }
                    Ok(())
                })
            }
            "put" => {
                let key = self.c.name("skey", s(&op["key"]));
                let v = self.value(self.n + 1);
                self.n += 1;
                self.edit(op, |st| {
                    st.2.insert(key, v, None);
                    Ok(())
                })
            }
            "purge" => {
                let cid = self.cid(s(&op["p"]));
                self.snap(&op["x"]).purge_client(cid).map_err(|e| e.to_string())
            }
            "setsk" => {
                let l = sk_loc(&mut self.c, s(&op["l"]));
                let b = self.sks[n(&op["j"]) - 1];
                self.snap(&op["x"]).store_secret_key(b, l).map_err(|e| e.to_string())
            }
            "merge" => {
                let conf = self.config(&op["cfg"]);
                let st = self.snap(&op["y"]).get_snapshot_state().map_err(|e| format!("get_snapshot_state: {e}"))?;
                self.snap(&op["x"]).merge_state(st, conf).map_err(|e| e.to_string())
            }
            "export" => {
                let pk = sk(&self.sks[n(&op["j"]) - 1]).public_key();
                let sel = self.selection(&op["sel"]);
                let mut r = self.snap(&op["x"]).export_to_serialized_state(sel.clone(), pk);
                if r.is_err() && res["maybe"] == true {
                    // refused for its revoked records: without them it is not
                    let mut sel = sel;
                    let sn = self.snap(&op["x"]);
                    for (cid, vs) in &mut sel {
                        let st = sn.get_state(*cid).map_err(|e| e.to_string())?;
                        for (vid, ids) in vs {
                            ids.retain(|r| st.1.contains_record(*vid, *r));
                        }
                    }
                    r = sn.export_to_serialized_state(sel, pk);
                }
                r.map(|(pk, bytes)| self.msgs.push(Msg { pk, bytes })).map_err(|e| e.to_string())
            }
            "damage" => {
                let i = n(&op["m"]) - 1;
                let b = &mut self.msgs[i].bytes;
                let r = &mut self.c.r;
                match r.gen_range(0..6) {
                    0 if b.len() > 0 => b.truncate(r.gen_range(0..b.len())),
                    1 => b.push(r.gen()),
                    2 if b.len() > 40 => {
                        b.remove(r.gen_range(0..b.len()));
                    }
                    _ if b.len() > 0 => {
                        let j = r.gen_range(0..b.len());
                        b[j] ^= 1 << r.gen_range(0..8)
                    }
                    _ => b.push(1),
                }
                Ok(())
            }
            "import" => {
                let conf = self.config(&op["cfg"]);
                let l = sk_loc(&mut self.c, s(&op["l"]));
                let (pk, b) = (self.msgs[n(&op["e"]) - 1].pk.clone(), self.msgs[n(&op["m"]) - 1].bytes.clone());
                self.snap(&op["x"]).import_from_serialized_state(b, l, pk, conf).map_err(|e| e.to_string())
            }
            "file" => {
                fs::create_dir_all(&self.dir).unwrap();
                let p = SnapshotPath::from_path(self.dir.join("s"));
                let key: [u8; 32] = rbytes(&mut self.c.r, 32).try_into().unwrap();
                let sn = self.snaps.get_mut(s(&op["x"])).unwrap();
                if self.c.r.gen() {
                    sn.write_to_snapshot(&p, UseKey::Key(key)).map_err(|e| e.to_string())?;
                } else {
                    let l = Location::generic(b"the snapshot key".to_vec(), rbytes(&mut self.c.r, 9));
                    sn.store_secret_key(key, l.clone()).map_err(|e| e.to_string())?;
                    sn.write_to_snapshot(&p, UseKey::Stored(l)).map_err(|e| e.to_string())?;
                }
                *sn = Snapshot::read_from_snapshot(&p, key, None).map_err(|e| e.to_string())?;
                Ok(())
            }
            k => panic!("harness: operation {k}"),
        };
        let ok = res["ok"].as_bool().unwrap();
        let e = self.ops.entry(k.clone()).or_default();
        if ok {
            e.0 += 1
        } else {
            e.1 += 1
        }
        match (r, ok) {
            (Ok(()), false) => Err(format!("{k} succeeds, it must be refused")),
            (Err(e), true) => Err(format!("{k} is refused: {e}")),
            _ => Ok(()),
        }
    }
    fn compare(&mut self, st: &Value) -> Res<()> {
        self.compares += 1;
        for x in self.snaps.keys().cloned().collect::<Vec<_>>() {
            let want: HashMap<String, Value> = arr(&st[&x]).into_iter().map(|e| (s(&e["p"]).to_string(), e["c"].clone())).collect();
            for p in self.paths.clone() {
                let cid = self.cid(&p);
                let state = self.snaps[&x].get_state(cid).map_err(|e| format!("get_state of {p} in {x}: {e}"))?;
                let empty = json!({"rs": [], "st": []});
                let c = want.get(&p).unwrap_or(&empty).clone();
                if !(arr(&c["rs"]).is_empty() && arr(&c["st"]).is_empty()) && !self.snaps[&x].has_data(cid) {
                    return Err(format!("snapshot {x} has no data of client {p}"));
                }
                let mut expect: BTreeMap<(VaultId, RecordId), (String, Vec<u8>)> = BTreeMap::new();
                for r in arr(&c["rs"]) {
                    let key = (self.vid(s(&r["v"])), self.rid(&json!([r["o"], r["r"]])));
                    let v = self.value(r["t"].as_u64().unwrap());
                    expect.insert(key, (format!("{} of {} in vault {}", r["r"], r["o"], r["v"]), v));
                }
                let mut have = BTreeSet::new();
                for vid in state.1.list_vaults() {
                    let Some(key) = state.0.get(&vid) else {
                        return Err(format!("client {p} of snapshot {x} has no key for one of its vaults"));
                    };
                    for (rid, _) in state.1.list_records_with_blob_id(key, vid).map_err(|e| format!("listing a vault of {p} in {x}: {e}"))? {
                        self.reads += 1;
                        have.insert((vid, rid));
                        let Some((name, v)) = expect.get(&(vid, rid)) else {
                            return Err(format!("client {p} of snapshot {x} has a record it must not have (vault {vid:?}, record {rid:?})"));
                        };
                        let mut got = vec![];
                        state.1.get_guard::<String, _>(key, vid, rid, |b| { got = b.borrow().to_vec(); Ok(()) }).map_err(|e| format!("record {name} of {p} in {x}: {e}"))?;
                        if got != *v {
                            return Err(format!("record {name} of client {p} in snapshot {x} has other contents than it must have"));
                        }
                    }
                }
                if let Some((_, (name, _))) = expect.iter().find(|(k, _)| !have.contains(k)) {
                    return Err(format!("client {p} of snapshot {x} lacks record {name}"));
                }
                let store: BTreeSet<Vec<u8>> = state.2.keys().into_iter().collect();
                let mut keys = BTreeSet::new();
                for e in arr(&c["st"]) {
                    let key = self.c.name("skey", s(&e["k"]));
                    let v = self.value(e["t"].as_u64().unwrap());
                    if state.2.get(&key) != Some(&v) {
                        return Err(format!("the store of client {p} in snapshot {x} has changed"));
                    }
                    keys.insert(key);
                }
                if keys != store {
                    return Err(format!("the store of client {p} in snapshot {x} has other keys"));
                }
            }
        }
        Ok(())
    }
}
fn policy(v: &Value) -> MergePolicy {
    if s(v) == "keep" {
        MergePolicy::KeepOld
    } else {
        MergePolicy::Replace
    }
}
/// Keys are kept at locations that may share a vault.
fn sk_loc(c: &mut Conc, l: &str) -> Location {
    let v = if l == "s2" || l == "s1" { "v1" } else { "v2" };
    Location::generic(c.name("vault", v), c.name("rec", l))
}
impl Machine for Sync {
    fn run(&mut self, beh: &Value) -> Result<(), (usize, String)> {
        for (i, st) in arr(&beh["steps"]).iter().enumerate() {
            self.steps += 1;
            let r = catch_unwind(AssertUnwindSafe(|| {
                self.step(&st["op"], &st["res"])?;
                if st["st"].get("x").is_none() || st["st"]["x"].is_array() {
                    self.compare(&st["st"])?;
                }
                Ok(())
            }));
            match r {
                Ok(Ok(())) => (),
                Ok(Err(e)) => return Err((i, e)),
                Err(p) => return Err((i, format!("panic: {}", panic_text(&p)))),
            }
        }
        let _ = fs::remove_dir_all(&self.dir);
        Ok(())
    }
    fn stats(&self) -> Value {
        json!({"ops": self.ops, "counts": {"steps": self.steps, "compares": self.compares, "records_read": self.reads}})
    }
}
