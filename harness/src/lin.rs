//! Runs programs of several threads on one session and records their histories in the terms of
//! Lin.tla.
use crate::{conc::*, pool::Machine, replay::*, sched};
use iota_stronghold::{procedures::*, Client, ClientError, KeyProvider, Location, SnapshotPath, Stronghold};
use serde_json::{json, Value};
use std::{
    collections::{BTreeMap, HashMap, HashSet},
    io::Write,
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    sync::{Arc, Mutex},
};

fn s(v: &Value) -> &str {
    v.as_str().unwrap_or("")
}
fn arr(v: &Value) -> Vec<Value> {
    v.as_array().cloned().unwrap_or_default()
}
type Key = (String, String);
/// What the bytes at a location or of an output may stand for.
pub struct Table {
    at: HashMap<Key, Vec<(Vec<u8>, Value)>>,
    outs: HashMap<String, Vec<(Vec<u8>, Value)>>,
}
struct Shared {
    ev: Mutex<(Vec<Value>, u64)>,
    tab: Table,
    names: Vec<(String, Vec<u8>)>,           // vaults
    locs: Vec<(String, String, Location)>, // vault, record
    skeys: Vec<(String, Vec<u8>)>,
    cpaths: Vec<(String, Vec<u8>)>,
    dir: PathBuf,
}
struct Ctx {
    sh: Stronghold,
    hs: HashMap<String, Client>,
}
fn sval(n: &str) -> Vec<u8> {
    format!("value {n}").into_bytes()
}
fn key(k: &str) -> Vec<u8> {
    let mut b = vec![7u8; 32];
    for (i, x) in k.bytes().enumerate() {
        b[i + 1] = x;
    }
    b
}
fn provider(k: &str) -> KeyProvider {
    KeyProvider::try_from(key(k)).unwrap()
}
fn okv(v: Value) -> Value {
    json!({"ok": true, "e": "", "v": v})
}
fn err(e: &str) -> Value {
    json!({"ok": false, "e": e, "v": "unit"})
}
fn kind(e: &ClientError) -> &'static str {
    match e {
        ClientError::ClientAlreadyLoaded(_) => "alreadyloaded",
        ClientError::ClientDataNotPresent => "notpresent",
        _ => "op",
    }
}
fn cerr(e: ClientError) -> Value {
    let mut v = err(kind(&e));
    if e.to_string().contains("oison") {
        v["e"] = json!("poisoned");
    }
    v
}
/// All terms with these bytes; none means that the bytes are unknown.
fn find(v: Option<&Vec<(Vec<u8>, Value)>>, b: &[u8]) -> Value {
    json!(v.map(|v| v.iter().filter(|x| x.0 == b).map(|x| x.1.clone()).collect::<Vec<_>>()).unwrap_or_default())
}
impl Shared {
    fn seen_client(&self, c: &Client) -> Result<Value, ClientError> {
        let mut vs = vec![];
        for (n, b) in &self.names {
            if c.vault_exists(b)? {
                vs.push(json!(n));
            }
        }
        let mut rs = vec![];
        for (v, r, l) in &self.locs {
            let e = c.record_exists(l)?;
            let vp = &self.names.iter().find(|x| x.0 == *v).unwrap().1;
            match extract(c, vp, l) {
                Some(b) => {
                    let t = if e { find(self.tab.at.get(&(v.clone(), r.clone())), &b) } else { json!([]) };
                    rs.push(json!({"v": v, "r": r, "t": t}));
                }
                None if !e => {}
                None => rs.push(json!({"v": v, "r": r, "t": []})),
            }
        }
        let st = c.store();
        let mut sv = vec![];
        let mut n = 0;
        for (k, b) in &self.skeys {
            if let Some(x) = st.get(b)? {
                n += 1;
                sv.push(json!({"k": k, "val": String::from_utf8_lossy(&x).strip_prefix("value ").unwrap_or("unknown")}));
            }
        }
        if st.keys()?.len() != n {
            sv.push(json!({"k": "unknown", "val": "unknown"}));
        }
        Ok(json!({"vs": vs, "rs": rs, "st": sv}))
    }
    fn seen_snap(&self, sh: &Stronghold) -> Result<Value, ClientError> {
        let mut out = vec![];
        for (p, b) in &self.cpaths {
            match sh.load_client(b) {
                Ok(c) => out.push(json!({"p": p, "c": self.seen_client(&c)?})),
                Err(ClientError::ClientDataNotPresent) => {}
                Err(e) => return Err(e),
            }
        }
        Ok(json!(out))
    }
    fn file(&self, f: &str) -> SnapshotPath {
        SnapshotPath::from_path(self.dir.join(format!("{f}.stronghold")))
    }
    fn call(&self, op: &Value, f: impl FnOnce() -> Value) -> Value {
        let i = {
            let mut g = self.ev.lock().unwrap();
            g.1 += 1;
            let i = g.1;
            g.0.push(json!({"t": "inv", "i": i, "op": op}));
            i
        };
        let r = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => r,
            Err(p) => json!({"ok": false, "e": "panic", "v": panic_text(&p)}),
        };
        self.ev.lock().unwrap().0.push(json!({"t": "res", "i": i, "res": r}));
        r
    }
}
type Prepared = Box<dyn FnOnce(&mut Ctx, &Shared) + Send>;

pub struct Lin {
    w: World,
    params: Value,
    dir: PathBuf,
    ops: BTreeMap<String, (u64, u64)>,
    counts: BTreeMap<String, u64>,
    seed: u64,
}
impl Lin {
    pub fn new(params: &Value, seed: u64, dir: &Path) -> Self {
        crate::clock::real();
        Lin { w: World::new(params, seed, dir), params: params.clone(), dir: dir.to_path_buf(), ops: BTreeMap::new(), counts: BTreeMap::new(), seed }
    }
    /// Possible terms per location, following the flow of the program's procedures.
    fn table(&mut self, all: &[Value]) -> Option<Table> {
        let lk = |l: &Value| (s(&l[0]).to_string(), s(&l[1]).to_string());
        let mut at: HashMap<Key, Vec<Value>> = HashMap::new();
        let mut steps: Vec<Value> = vec![];
        for op in all {
            match s(&op["k"]) {
                "exec" => steps.push(op["st"].clone()),
                "chain" => steps.extend(arr(&op["sts"])),
                "vwrite" => steps.push(json!({"p": "write", "s": [], "d": op["l"], "a": op["a"]})),
                _ => {}
            }
        }
        let derivs = steps.iter().filter(|x| matches!(s(&x["p"]), "copy" | "hkdf" | "concat" | "ckdf")).count();
        for _ in 0..=derivs {
            let mut grew = false;
            for st in &steps {
                let src: Vec<Vec<Value>> = arr(&st["s"]).iter().map(|l| at.get(&lk(l)).cloned().unwrap_or_default()).collect();
                let new: Vec<Value> = match s(&st["p"]) {
                    "write" => vec![json!(["pay", st["a"]])],
                    "copy" => src[0].clone(),
                    "hkdf" | "ckdf" => src[0].iter().map(|t| json!([st["p"], st["a"], t])).collect(),
                    "concat" => src[0].iter().flat_map(|t| src[1].iter().map(move |u| json!(["cat", t, u]))).collect(),
                    _ => continue,
                };
                let e = at.entry(lk(&st["d"])).or_default();
                for t in new {
                    if !e.contains(&t) {
                        e.push(t);
                        grew = true;
                    }
                }
                if e.len() > 400 {
                    return None;
                }
            }
            if !grew {
                break;
            }
        }
        let mut outs = HashMap::new();
        for st in &steps {
            let p = s(&st["p"]);
            if matches!(p, "hmac" | "pub_ed" | "pub_x" | "sign" | "aeadenc") {
                let mut v = vec![];
                for t in at.get(&lk(&st["s"][0])).cloned().unwrap_or_default() {
                    let len = self.w.c.eval(&t)?.len();
                    if (matches!(p, "pub_ed" | "sign") && len < 32) || (matches!(p, "pub_x" | "aeadenc") && len != 32) {
                        continue;
                    }
                    let o = json!(["o_use", p, st["a"], t]);
                    if let Some(Expect::Bytes(b)) = self.w.c.output(&o) {
                        v.push((b, o));
                    }
                }
                outs.insert(st.to_string(), v);
            } else if p == "wrap" {
                let mut v = vec![];
                for k in at.get(&lk(&st["s"][0])).cloned().unwrap_or_default() {
                    for t in at.get(&lk(&st["s"][1])).cloned().unwrap_or_default() {
                        if self.w.c.eval(&k)?.len() != 32 || self.w.c.eval(&t)?.len() % 8 != 0 {
                            continue;
                        }
                        let o = json!(["o_wrap", k, t]);
                        if let Some(Expect::Bytes(b)) = self.w.c.output(&o) {
                            v.push((b, o));
                        }
                    }
                }
                outs.insert(st.to_string(), v);
            }
        }
        let mut bytes = HashMap::new();
        for (l, ts) in at {
            let mut v = vec![];
            for t in ts {
                v.push((self.w.c.eval(&t)?, t));
            }
            bytes.insert(l, v);
        }
        Some(Table { at: bytes, outs })
    }
    /// Everything that needs the generator of names is done before the threads start.
    fn prepare(&mut self, op: &Value) -> Prepared {
        let op = op.clone();
        let k = s(&op["k"]).to_string();
        let steps: Vec<Value> = match k.as_str() {
            "exec" => vec![op["st"].clone()],
            "chain" => arr(&op["sts"]),
            _ => vec![],
        };
        let procs: Vec<StrongholdProcedure> = steps.iter().map(|st| self.w.proc(st).expect("procedure")).collect();
        let name = |w: &mut World, kind: &str, v: &Value| if v.is_string() { w.c.name(kind, s(v)) } else { vec![] };
        let path = name(&mut self.w, "path", &op["p"]);
        let vault = if op["l"].is_array() { self.w.c.name("vault", s(&op["l"][0])) } else { name(&mut self.w, "vault", &op["v"]) };
        let loc = if op["l"].is_array() { Some(self.w.c.loc(s(&op["l"][0]), s(&op["l"][1]))) } else { None };
        let rec = if op["l"].is_array() { self.w.c.name("rec", s(&op["l"][1])) } else { vec![] };
        let pay = if k == "vwrite" { self.w.c.pay(s(&op["a"])) } else { vec![] };
        let skey = if op["k"].as_str().unwrap().starts_with('s') && op["key"].is_string() { self.w.c.store_key(s(&op["key"])) } else { vec![] };
        // decided by the operation, so that a schedule can be repeated
        let typed = procs.len() == 1 && op.to_string().bytes().fold(self.seed, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)) >> 20 & 1 == 0;
        let life = op["life"].as_i64().unwrap_or(1000);
        let mut snap_loc = None;
        if k == "setkey" {
            snap_loc = Some(Location::generic(b"keys".to_vec(), format!("key{}", op["loc"]).into_bytes()));
        }
        let cfg = if k == "sync" { Some(self.w.client_config(&op["cfg"])) } else { None };
        Box::new(move |cx: &mut Ctx, sh: &Shared| {
            let mut cl = None;
            if let Some(h) = op["h0"].as_str() {
                if h != "session" {
                    match cx.hs.get(h) {
                        Some(c) => cl = Some(c.clone()),
                        None => return,
                    }
                }
            }
            let store = || match &cl {
                Some(c) => c.store(),
                None => cx.sh.store(),
            };
            let mut got: Option<Client> = None;
            let handle = |r: Result<Client, ClientError>, got: &mut Option<Client>| match r {
                Ok(c) => {
                    *got = Some(c);
                    okv(json!("handle"))
                }
                Err(e) => cerr(e),
            };
            let unit = |r: Result<(), ClientError>| match r {
                Ok(()) => okv(json!("unit")),
                Err(e) => cerr(e),
            };
            let boolean = |r: Result<bool, ClientError>| match r {
                Ok(b) => okv(json!(b)),
                Err(e) => cerr(e),
            };
            let opt = |r: Result<Option<Vec<u8>>, ClientError>| match r {
                Ok(None) => okv(json!("absent")),
                Ok(Some(b)) => okv(json!(String::from_utf8_lossy(&b).strip_prefix("value ").unwrap_or("unknown"))),
                Err(e) => cerr(e),
            };
            sh.call(&op, || match k.as_str() {
                "exec" | "chain" => {
                    let c = cl.as_ref().unwrap();
                    let mut procs = procs;
                    let r = if typed {
                        run_typed(c, procs.pop().unwrap()).map(|x| vec![x])
                    } else {
                        c.execute_procedure_chained(procs).map(|v| v.into_iter().map(Vec::<u8>::from).collect::<Vec<_>>())
                    };
                    match r {
                        Ok(outs) => okv(json!(outs
                            .iter()
                            .zip(&steps)
                            .map(|(o, st)| match s(&st["p"]) {
                                "cmp" => json!([["o_bool", *o == vec![1]]]),
                                "hmac" | "pub_ed" | "pub_x" | "sign" | "aeadenc" | "wrap" => find(sh.tab.outs.get(&st.to_string()), o),
                                _ if o.is_empty() => json!([["o_unit"]]),
                                _ => json!([]),
                            })
                            .collect::<Vec<_>>())),
                        Err(e) => err(if e.to_string().contains("oison") { "poisoned" } else { "op" }),
                    }
                }
                "vwrite" => unit(cl.clone().unwrap().vault(&vault).write_secret(loc.unwrap(), pay)),
                "vrevoke" => unit(cl.clone().unwrap().vault(&vault).revoke_secret(rec)),
                "vdelete" => boolean(cl.clone().unwrap().vault(&vault).delete_secret(rec)),
                "vcleanup" => boolean(cl.clone().unwrap().vault(&vault).cleanup()),
                "rexists" => boolean(cl.clone().unwrap().record_exists(&loc.unwrap())),
                "vexists" => boolean(cl.clone().unwrap().vault_exists(&vault)),
                "sput" => opt(store().insert(skey, sval(s(&op["val"])), if life == 1000 { None } else { Some(std::time::Duration::from_secs(life as u64)) })),
                "sdel" => opt(store().delete(&skey)),
                "sget" => opt(store().get(&skey)),
                "skeys" => match store().keys() {
                    Ok(v) => okv(json!(v
                        .iter()
                        .map(|b| sh.skeys.iter().find(|x| x.1 == *b).map(|x| x.0.clone()).unwrap_or("unknown".into()))
                        .collect::<Vec<_>>())),
                    Err(e) => cerr(e),
                },
                "create" => handle(cx.sh.create_client(&path), &mut got),
                "get" => handle(cx.sh.get_client(&path), &mut got),
                "loadc" => handle(cx.sh.load_client(&path), &mut got),
                "loadf" => handle(cx.sh.load_client_from_snapshot(&path, &provider(s(&op["key"])), &sh.file(s(&op["f"]))), &mut got),
                "unload" => unit(cx.sh.unload_client(cl.clone().unwrap()).map(|_| ())),
                "purge" => unit(cx.sh.purge_client(cl.clone().unwrap())),
                "capture" => unit(cx.sh.write_client(&path)),
                "clear" => unit(cx.sh.clear()),
                "setkey" => unit(cx.sh.store_snapshot_key_at_location(provider(s(&op["key"])), snap_loc.unwrap())),
                "commitk" => unit(cx.sh.commit_with_keyprovider(&sh.file(s(&op["f"])), &provider(s(&op["key"])))),
                "commit" => unit(cx.sh.commit(&sh.file(s(&op["f"])))),
                "load" => unit(cx.sh.load_snapshot(&provider(s(&op["key"])), &sh.file(s(&op["f"])))),
                "sync" => unit(cl.clone().unwrap().sync_with(&cx.hs[s(&op["h1"])], cfg.unwrap())),
                x => panic!("operation {x}"),
            });
            if let Some(c) = got {
                cx.hs.insert(s(&op["h"]).into(), c);
            }
        })
    }
    /// One run. The events, what the scheduler did, and whether threads were stuck.
    fn once(&mut self, prog: &Value, ch: sched::Chooser, names: &[&'static str]) -> Result<(Vec<Value>, sched::Outcome), String> {
        let mut all: Vec<Value> = arr(&prog["setup"]);
        for t in arr(&prog["threads"]) {
            all.extend(arr(&t));
        }
        all.extend(arr(&prog["after"]));
        let tab = self.table(&all).ok_or("harness: too many terms")?;
        let list = |v: &Value| arr(v).iter().map(|x| s(x).to_string()).collect::<Vec<_>>();
        let (vaults, recs, skeys, cpaths) = (list(&self.params["vaults"]), list(&self.params["recs"]), list(&self.params["skeys"]), list(&self.params["paths"]));
        let mut locs = vec![];
        for v in &vaults {
            for r in &recs {
                locs.push((v.clone(), r.clone(), self.w.c.loc(v, r)));
            }
        }
        std::fs::create_dir_all(&self.dir).unwrap();
        for e in std::fs::read_dir(&self.dir).unwrap().flatten() {
            if e.path().extension().map_or(false, |x| x == "stronghold") {
                let _ = std::fs::remove_file(e.path());
            }
        }
        let sh = Arc::new(Shared {
            ev: Mutex::new((vec![], 0)),
            tab,
            names: vaults.iter().map(|v| (v.clone(), self.w.c.name("vault", v))).collect(),
            locs,
            skeys: skeys.iter().map(|k| (k.clone(), self.w.c.store_key(k))).collect(),
            cpaths: cpaths.iter().map(|k| (k.clone(), self.w.c.name("path", k))).collect(),
            dir: self.dir.clone(),
        });
        let mut cx = Ctx { sh: Stronghold::default(), hs: HashMap::new() };
        for op in arr(&prog["setup"]) {
            self.prepare(&op)(&mut cx, &sh);
        }
        let done: Arc<Mutex<Vec<HashMap<String, Client>>>> = Arc::new(Mutex::new(vec![]));
        let mut threads: Vec<Box<dyn FnOnce() + Send>> = vec![];
        for t in arr(&prog["threads"]) {
            let ops: Vec<Prepared> = arr(&t).iter().map(|op| self.prepare(op)).collect();
            let mut c = Ctx { sh: cx.sh.clone(), hs: cx.hs.clone() };
            let (sh, done) = (sh.clone(), done.clone());
            threads.push(Box::new(move || {
                for o in ops {
                    o(&mut c, &sh);
                }
                done.lock().unwrap().push(c.hs);
            }));
        }
        let out = sched::run(threads, ch, names);
        if out.deadlock {
            let ev = sh.ev.lock().unwrap().0.clone();
            let begun: HashSet<u64> = ev.iter().filter(|e| e["t"] == "inv").map(|e| e["i"].as_u64().unwrap()).collect();
            let ended: HashSet<u64> = ev.iter().filter(|e| e["t"] == "res").map(|e| e["i"].as_u64().unwrap()).collect();
            let open: Vec<String> = ev
                .iter()
                .filter(|e| e["t"] == "inv" && begun.contains(&e["i"].as_u64().unwrap()) && !ended.contains(&e["i"].as_u64().unwrap()))
                .map(|e| label(&e["op"]))
                .collect();
            return Err(format!("deadlock: these calls never return: {}", open.join(", ")));
        }
        for hs in done.lock().unwrap().drain(..) {
            cx.hs.extend(hs);
        }
        for op in arr(&prog["after"]) {
            self.prepare(&op)(&mut cx, &sh);
        }
        // what can be seen at rest
        let mut hs: Vec<(String, Client)> = cx.hs.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
        hs.sort_by(|a, b| a.0.cmp(&b.0));
        let probe = b"\xf0probe\xf0".to_vec();
        let mut classes: Vec<Vec<usize>> = vec![];
        for i in 0..hs.len() {
            if classes.iter().any(|c| c.contains(&i)) {
                continue;
            }
            hs[i].1.store().insert(probe.clone(), vec![1], None).map_err(|e| format!("store: {e}"))?;
            let c: Vec<usize> = (0..hs.len()).filter(|j| hs[*j].1.store().contains_key(&probe).unwrap_or(false)).collect();
            hs[i].1.store().delete(&probe).map_err(|e| format!("store: {e}"))?;
            classes.push(c);
        }
        sh.call(&json!({"k": "obssame", "o": 0}), || {
            okv(json!(classes.iter().map(|c| c.iter().map(|i| hs[*i].0.clone()).collect::<Vec<_>>()).collect::<Vec<_>>()))
        });
        for c in &classes {
            let h = &hs[c[0]];
            sh.call(&json!({"k": "obsclient", "o": 0, "h0": h.0}), || match sh.seen_client(&h.1) {
                Ok(x) => okv(x),
                Err(e) => cerr(e),
            });
        }
        if prog["session"] == true {
            let mut loaded = vec![];
            for (p, b) in &sh.cpaths {
                if let Ok(c) = cx.sh.get_client(b) {
                    let _ = c.store().insert(probe.clone(), vec![1], None);
                    let h = hs.iter().find(|h| h.1.store().contains_key(&probe).unwrap_or(false)).map(|h| h.0.clone()).unwrap_or("unknown".into());
                    let _ = c.store().delete(&probe);
                    loaded.push(json!({"p": p, "h": h}));
                }
            }
            sh.call(&json!({"k": "obsloaded", "o": 0}), || okv(json!(loaded)));
            let mut files: BTreeMap<String, HashSet<String>> = BTreeMap::new();
            for op in &all {
                match s(&op["k"]) {
                    "commitk" => {
                        files.entry(s(&op["f"]).into()).or_default().insert(s(&op["key"]).into());
                    }
                    "commit" => {
                        for o in all.iter().filter(|o| o["k"] == "setkey") {
                            files.entry(s(&op["f"]).into()).or_default().insert(s(&o["key"]).into());
                        }
                    }
                    _ => {}
                }
            }
            for (f, ks) in files {
                let path = sh.file(&f);
                if !path.exists() {
                    sh.call(&json!({"k": "obsfile", "o": 0, "f": f}), || okv(json!([])));
                    sh.call(&json!({"k": "obskey", "o": 0, "f": f}), || okv(json!("nokey")));
                    continue;
                }
                let mut opened = "unknown".to_string();
                for k in ks {
                    let x = Stronghold::default();
                    if x.load_snapshot(&provider(&k), &path).is_ok() {
                        opened = k;
                        sh.call(&json!({"k": "obsfile", "o": 0, "f": f}), || match sh.seen_snap(&x) {
                            Ok(x) => okv(x),
                            Err(e) => cerr(e),
                        });
                    }
                }
                sh.call(&json!({"k": "obskey", "o": 0, "f": f}), || okv(json!(opened)));
            }
            let leftovers: Vec<String> = std::fs::read_dir(&self.dir)
                .unwrap()
                .flatten()
                .map(|e| e.file_name().to_string_lossy().into_owned())
                .filter(|n| !n.ends_with(".stronghold") && n != "plainfile")
                .collect();
            if !leftovers.is_empty() {
                return Err(format!("files left behind by commits: {leftovers:?}"));
            }
            for (_, b) in &sh.cpaths {
                if let Ok(c) = cx.sh.get_client(b) {
                    let _ = cx.sh.unload_client(c);
                }
            }
            sh.call(&json!({"k": "forget", "o": 0}), || okv(json!("unit")));
            sh.call(&json!({"k": "obssnap", "o": 0}), || match sh.seen_snap(&cx.sh) {
                Ok(x) => okv(x),
                Err(e) => cerr(e),
            });
        }
        let ev = sh.ev.lock().unwrap().0.clone();
        for e in &ev {
            if e["res"]["e"] == "panic" || e["res"]["e"] == "poisoned" {
                let op = ev.iter().find(|x| x["t"] == "inv" && x["i"] == e["i"]).unwrap();
                return Err(format!("{} {}: {}", label(&op["op"]), s(&e["res"]["e"]), e["res"]["v"]));
            }
        }
        Ok((ev, out))
    }
}
impl Machine for Lin {
    fn run(&mut self, beh: &Value) -> Result<(), (usize, String)> {
        let p = self.params.clone();
        let names: Vec<&'static str> = arr(&p["points"]).iter().map(|x| &*Box::leak(s(x).to_string().into_boxed_str())).collect();
        let n = arr(&beh["threads"]).len();
        let mut seen: HashSet<String> = HashSet::new();
        let mut hist = vec![];
        let cap = p["cap"].as_u64().unwrap_or(100);
        let bound = p["bound"].as_u64().unwrap_or(100) as usize;
        for t in arr(&beh["threads"]) {
            for op in arr(&t) {
                self.ops.entry(label(&op)).or_default();
            }
        }
        let all: Vec<Value> = [&beh["setup"], &beh["after"]].into_iter().flat_map(arr).chain(arr(&beh["threads"]).iter().flat_map(arr)).collect();
        if self.table(&all).is_none() {
            *self.counts.entry("programs_with_too_many_terms_skipped".into()).or_default() += 1;
            return Ok(());
        }
        let mut one = |me: &mut Lin, ch: sched::Chooser, key: Value| -> Result<Vec<(usize, usize)>, (usize, String)> {
            let (ev, out) = catch_unwind(AssertUnwindSafe(|| me.once(beh, ch, &names)))
                .unwrap_or_else(|p| Err(format!("panic: {}", panic_text(&p))))
                .map_err(|e| (0, format!("{e} (schedule {key})")))?;
            *me.counts.entry("runs".into()).or_default() += 1;
            *me.counts.entry("scheduling_points".into()).or_default() += out.points;
            for e in ev.iter().filter(|e| e["t"] == "res") {
                let op = ev.iter().find(|x| x["t"] == "inv" && x["i"] == e["i"]).unwrap();
                let c = me.ops.entry(label(&op["op"])).or_default();
                if e["res"]["ok"] == true {
                    c.0 += 1
                } else {
                    c.1 += 1
                }
            }
            let text = serde_json::to_string(&ev).unwrap();
            if beh["nolin"] != true && seen.insert(text) {
                hist.push(json!({"prog": beh["id"], "key": key, "ev": ev}));
            }
            Ok(out.taken)
        };
        let r = (|| {
            if beh["schedule"].is_array() {
                let pre = arr(&beh["schedule"]).iter().map(|x| x.as_u64().unwrap() as usize).collect();
                return one(self, sched::Chooser::Dfs(pre, bound), json!(null)).map(|_| ());
            }
            match s(&p["mode"]) {
                "dfs" => {
                    let mut pre = vec![];
                    for i in 0..cap {
                        let taken = one(self, sched::Chooser::Dfs(pre.clone(), bound), json!(pre))?;
                        match sched::next(&taken) {
                            Some(x) => pre = x,
                            None => {
                                *self.counts.entry("programs_exhausted".into()).or_default() += 1;
                                break;
                            }
                        }
                        let _ = i;
                    }
                    Ok(())
                }
                "random" => {
                    for i in 0..cap {
                        let sd = self.seed.wrapping_add(i * 7919);
                        one(self, sched::random(sd, n), json!(format!("random {sd}")))?;
                    }
                    Ok(())
                }
                _ => {
                    for _ in 0..cap {
                        one(self, sched::Chooser::Free, json!("free"))?;
                    }
                    Ok(())
                }
            }
        })();
        *self.counts.entry("programs".into()).or_default() += 1;
        *self.counts.entry("histories".into()).or_default() += hist.len() as u64;
        if let Some(f) = p["hist"].as_str() {
            let mut f = std::fs::OpenOptions::new().create(true).append(true).open(format!("{f}.{}", std::process::id())).unwrap();
            for h in hist {
                writeln!(f, "{h}").unwrap();
            }
        }
        r
    }
    fn stats(&self) -> Value {
        json!({"ops": self.ops, "counts": self.counts})
    }
}
