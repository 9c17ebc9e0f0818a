//! Commits under faults, kills and losses of power (CommitFS.tla), and at the same time from several
//! threads and processes (Register.tla).
use crate::{fsx, fsx::Fault, pool::Machine, replay};
use iota_stronghold::{KeyProvider, Location, SnapshotPath, Stronghold};
use rand::{rngs::StdRng, Rng, RngCore, SeedableRng};
use serde_json::{json, Value};
use std::{
    collections::BTreeMap,
    fs,
    io::{BufRead, BufReader, Write},
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    process::{Command, Stdio},
    sync::{Arc, Mutex},
};

fn arr(v: &Value) -> Vec<Value> {
    v.as_array().cloned().unwrap_or_default()
}
fn key(v: u64, shared: bool) -> [u8; 32] {
    // without the bits that an x25519 key does not have
    let mut k = [if shared { 0x48 } else { (v / 2 * 8) as u8 }; 32];
    k[31] = 0x48;
    k[1] = 7;
    k
}
fn kp(k: [u8; 32]) -> KeyProvider {
    KeyProvider::try_from(k.to_vec()).expect("key provider")
}
const CLIENTS: [&[u8]; 3] = [b"a", b"b", b"c"];
fn secret(v: u64, c: usize) -> Vec<u8> {
    (0..32).map(|i| (v as u8).wrapping_mul(37).wrapping_add(i * 3 + c as u8)).collect()
}
fn loc() -> Location {
    Location::generic(b"vault".to_vec(), b"record".to_vec())
}
/// Gives every client the contents of version v.
fn set(sh: &Stronghold, v: u64, size: usize, r: &mut StdRng) -> Result<(), String> {
    for (i, c) in CLIENTS.iter().enumerate() {
        let cl = sh.get_client(c).or_else(|_| sh.load_client(c)).or_else(|_| sh.create_client(c)).map_err(|e| e.to_string())?;
        let st = cl.store();
        st.insert(b"version".to_vec(), v.to_le_bytes().to_vec(), None).map_err(|e| e.to_string())?;
        let mut fill = vec![0; size / 3];
        r.fill_bytes(&mut fill);
        st.insert(b"fill".to_vec(), fill, None).map_err(|e| e.to_string())?;
        cl.vault(b"vault").write_secret(loc(), secret(v, i)).map_err(|e| e.to_string())?;
    }
    Ok(())
}
/// The version that the file holds: 0 if there is none, -1 if it is not a complete snapshot.
fn load(path: &Path, newest: u64, shared: bool, why: &mut String) -> i64 {
    if !path.exists() {
        return 0;
    }
    let sp = SnapshotPath::from_path(path);
    let mut tried = vec![];
    for v in (1..=newest).rev() {
        let k = key(v, shared);
        if tried.contains(&k) {
            continue;
        }
        tried.push(k);
        let sh = Stronghold::default();
        match sh.load_snapshot(&kp(k), &sp) {
            Err(e) => *why = e.to_string(),
            Ok(()) => {
                let mut found = None;
                for (i, c) in CLIENTS.iter().enumerate() {
                    let r = (|| {
                        let cl = sh.load_client(c).map_err(|e| e.to_string())?;
                        let b = cl.store().get(b"version").map_err(|e| e.to_string())?.ok_or("no version entry")?;
                        let v = u64::from_le_bytes(b.try_into().map_err(|_| "a torn entry")?);
                        if *found.get_or_insert(v) != v {
                            return Err(format!("clients of versions {} and {v}", found.unwrap()));
                        }
                        if replay::extract(&cl, b"vault", &loc()) != Some(secret(v, i)) {
                            return Err(format!("the secret of client {i} is not that of version {v}"));
                        }
                        Ok(())
                    })();
                    if let Err(e) = r {
                        *why = e;
                        return -1;
                    }
                }
                return found.unwrap() as i64;
            }
        }
    }
    -1
}

pub struct Commit {
    params: Value,
    dir: PathBuf,
    rng: StdRng,
    seed: u64,
    counts: BTreeMap<String, u64>,
    ops: BTreeMap<String, (u64, u64)>,
}
struct Run<'a> {
    m: &'a mut Commit,
    dir: PathBuf,
    path: PathBuf,
    sh: Stronghold,
    v: u64,
    ev: Vec<Value>,
    calls: Vec<&'static str>,
}
impl Run<'_> {
    fn api(&mut self, api: &str) -> Result<(), String> {
        let sp = SnapshotPath::from_path(&self.path);
        match api {
            "stored" => {
                let l = Location::generic(format!("keys{}", self.v), "k");
                self.sh.store_snapshot_key_at_location(kp(key(self.v, false)), l).map_err(|e| e.to_string())?;
                self.sh.commit(&sp).map_err(|e| e.to_string())
            }
            _ => self.sh.commit_with_keyprovider(&sp, &kp(key(self.v, false))).map_err(|e| e.to_string()),
        }
    }
    /// One commit of the next version. Returns whether the process is "dead" afterwards.
    fn commit(&mut self, c: &Value, plan: Option<(usize, Fault)>, power: Option<u64>) -> Result<bool, String> {
        self.v += 1;
        let size = c["size"].as_u64().unwrap_or(10) as usize;
        set(&self.sh, self.v, size, &mut self.m.rng)?;
        self.ev.push(json!({"k": "begin", "v": self.v}));
        fsx::watch(&self.dir, &self.path, plan);
        let r = catch_unwind(AssertUnwindSafe(|| self.api(c["api"].as_str().unwrap_or("kp"))));
        let rec = fsx::stop();
        let r = r.map_err(|p| format!("a commit panicked: {}", replay::panic_text(&p)))?;
        *self.m.counts.entry("file_operations".into()).or_default() += rec.calls.len() as u64;
        self.ev.extend(rec.events);
        self.calls = rec.calls;
        if rec.dead {
            if let Some(x) = power {
                fsx::lose(self.path.parent().unwrap(), &rec.dirty, x);
                self.ev.push(json!({"k": "power"}));
            }
            self.sh = Stronghold::default();
        } else {
            let o = self.m.ops.entry("commit".into()).or_default();
            match &r {
                Ok(()) => {
                    o.0 += 1;
                    self.ev.push(json!({"k": "ok"}))
                }
                Err(e) => {
                    o.1 += 1;
                    self.ev.push(json!({"k": "err", "e": e}))
                }
            }
        }
        self.load();
        Ok(rec.dead)
    }
    fn load(&mut self) -> i64 {
        let mut why = String::new();
        let r = load(&self.path, self.v, false, &mut why);
        self.ev.push(if r < 0 { json!({"k": "load", "r": r, "why": why}) } else { json!({"k": "load", "r": r}) });
        r
    }
    /// A new session goes on from the file.
    fn again(&mut self, r: i64) -> Result<(), String> {
        self.sh = Stronghold::default();
        if r > 0 {
            self.sh.load_snapshot(&kp(key(r as u64, false)), &SnapshotPath::from_path(&self.path)).map_err(|e| format!("the file cannot be loaded: {e}"))?;
        }
        Ok(())
    }
}

impl Commit {
    pub fn new(params: &Value, seed: u64, dir: &Path) -> Self {
        Commit { params: params.clone(), dir: dir.to_path_buf(), rng: StdRng::seed_from_u64(seed), seed, counts: BTreeMap::new(), ops: BTreeMap::new() }
    }
    fn start(&mut self, beh: &Value) -> Run<'_> {
        let _ = fs::remove_dir_all(&self.dir);
        fs::create_dir_all(&self.dir).unwrap();
        let dir = self.dir.clone();
        let path = match beh["path"].as_str() {
            Some("sub") => dir.join("x/y/snap"),
            Some("dot") => dir.join("my.snapshot.stronghold"),
            _ => dir.join("snap"),
        };
        *self.counts.entry("runs".into()).or_default() += 1;
        Run { m: self, dir, path, sh: Stronghold::default(), v: 0, ev: vec![], calls: vec![] }
    }
    /// The last commit of the behaviour with this fault, then a commit without.
    fn faulted(&mut self, beh: &Value, plan: Option<(usize, Fault)>, power: Option<u64>) -> Result<(Vec<Value>, Vec<&'static str>), String> {
        let cs = arr(&beh["steps"]);
        let mut run = self.start(beh);
        for c in &cs[..cs.len() - 1] {
            run.commit(c, None, None)?;
        }
        let dead = run.commit(&cs[cs.len() - 1], plan, power)?;
        let calls = run.calls.clone();
        let last = run.ev.last().unwrap()["r"].as_i64().unwrap();
        if dead && last >= 0 {
            run.again(last)?;
        }
        if plan.is_some() && last >= 0 {
            run.commit(&json!({"size": 50}), None, None)?;
            let e = &run.ev[run.ev.len() - 2];
            if e["k"] != "ok" {
                return Err(format!("a commit without any fault, after one with {plan:?} {power:?}, fails: {e}"));
            }
        }
        Ok((run.ev, calls))
    }
    fn random(&mut self, beh: &Value) -> Result<Vec<Value>, String> {
        let mut r = StdRng::seed_from_u64(self.seed ^ 0x5eed);
        let mut run = self.start(beh);
        for c in arr(&beh["steps"]) {
            let k = r.gen_range(0..12);
            let f = match r.gen_range(0..12) {
                0 | 1 => Some(Fault::Error(libc::EIO, r.gen())),
                2 => Some(Fault::Error(libc::ENOSPC, r.gen())),
                3 => Some(Fault::Again),
                4 => Some(Fault::Short),
                5 => Some(Fault::Full),
                6 | 7 => Some(Fault::Kill),
                8 | 9 => Some(Fault::KillIn),
                _ => None,
            };
            let power = if r.gen() { Some(r.gen_range(0..3)) } else { None };
            let dead = run.commit(&c, f.map(|f| (k, f)), power)?;
            let last = run.ev.last().unwrap()["r"].as_i64().unwrap();
            if last < 0 {
                break;
            }
            if dead || r.gen_bool(0.2) {
                run.again(last)?;
            }
        }
        Ok(run.ev)
    }
    /// Threads and processes commit to and load from one path; see Register.tla.
    fn race(&mut self, beh: &Value) -> Result<Vec<Value>, String> {
        let _ = fs::remove_dir_all(&self.dir);
        fs::create_dir_all(&self.dir).unwrap();
        let path = self.dir.join("snap");
        let log: Arc<Mutex<Vec<(u64, Value)>>> = Arc::default();
        let mut hs = vec![];
        let n = arr(&beh["threads"]).len() as u64;
        let newest = (n + 1) * 1000;
        for (i, t) in arr(&beh["threads"]).into_iter().enumerate() {
            let i = i as u64 + 1;
            let (log, path) = (log.clone(), path.clone());
            let seed = self.seed ^ i;
            hs.push(std::thread::spawn(move || match t["k"].as_str() {
                Some("commit") => writer(&path, i, t["n"].as_u64().unwrap(), seed, &mut |x| log.lock().unwrap().push((now(), x))),
                Some("child") => {
                    let exe = std::env::current_exe().unwrap();
                    let mut c = Command::new(exe)
                        .args(["commit-child", path.to_str().unwrap(), &i.to_string(), &t["n"].to_string(), &seed.to_string()])
                        .stdout(Stdio::piped())
                        .spawn()
                        .unwrap();
                    let out = c.stdout.take().unwrap();
                    let after = t["kill"].as_u64().unwrap_or(0);
                    if after > 0 {
                        std::thread::sleep(std::time::Duration::from_micros(after));
                        let _ = c.kill();
                    }
                    for l in BufReader::new(out).lines() {
                        let Ok(v) = serde_json::from_str::<Value>(&l.unwrap_or_default()) else { continue };
                        log.lock().unwrap().push((v[0].as_u64().unwrap(), v[1].clone()));
                    }
                    let _ = c.wait();
                    log.lock().unwrap().push((now(), json!({"t": i, "k": "gone"})));
                }
                _ => {
                    for _ in 0..t["n"].as_u64().unwrap() {
                        let mut why = String::new();
                        let t0 = now();
                        let r = load(&path, newest, true, &mut why);
                        let mut g = log.lock().unwrap();
                        g.push((t0, json!({"t": i, "k": "lb"})));
                        g.push((now(), json!({"t": i, "k": "load", "r": r, "why": why})));
                    }
                }
            }));
        }
        for h in hs {
            h.join().map_err(|p| format!("panic: {}", replay::panic_text(&p)))?;
        }
        let mut why = String::new();
        let t0 = now();
        let r = load(&path, newest, true, &mut why);
        let mut l = log.lock().unwrap().clone();
        l.push((t0, json!({"t": 0, "k": "lb"})));
        l.push((now(), json!({"t": 0, "k": "load", "r": r, "why": why})));
        l.sort_by_key(|x| x.0);
        *self.counts.entry("runs".into()).or_default() += 1;
        for (_, e) in &l {
            if e["k"] == "ok" || e["k"] == "err" {
                let o = self.ops.entry("concurrent commit".into()).or_default();
                if e["k"] == "ok" {
                    o.0 += 1
                } else {
                    o.1 += 1
                }
            }
            if e["k"] == "load" {
                self.ops.entry("concurrent load".into()).or_default().0 += 1;
            }
        }
        Ok(l.into_iter().map(|x| x.1).collect())
    }
}
/// Monotonic time of the machine, in nanoseconds.
fn now() -> u64 {
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t);
        t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
    }
}
fn writer(path: &Path, i: u64, n: u64, seed: u64, log: &mut dyn FnMut(Value)) {
    let sh = Stronghold::default();
    let mut r = StdRng::seed_from_u64(seed);
    let sp = SnapshotPath::from_path(path);
    for k in 0..n {
        let v = i * 1000 + k;
        let size = [10, 3000, 60_000][r.gen_range(0..3)];
        set(&sh, v, size, &mut r).unwrap();
        log(json!({"t": i, "k": "begin", "v": v}));
        match sh.commit_with_keyprovider(&sp, &kp(key(v, true))) {
            Ok(()) => log(json!({"t": i, "k": "ok"})),
            Err(e) => log(json!({"t": i, "k": "err", "e": e.to_string()})),
        }
    }
}
/// PATH I N SEED: commits N versions and reports them on the standard output
pub fn child(a: &[String]) -> i32 {
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let mut out = std::io::stdout();
    writer(Path::new(&a[0]), n(1), n(2), n(3), &mut |x| {
        let _ = writeln!(out, "{}", json!([now(), x]));
        let _ = out.flush();
    });
    0
}

impl Machine for Commit {
    fn run(&mut self, beh: &Value) -> Result<(), (usize, String)> {
        let mut hist: Vec<(Value, Vec<Value>)> = vec![];
        let mode = self.params["mode"].as_str().unwrap_or("sweep").to_string();
        let r = (|| {
            match mode.as_str() {
                "race" => {
                    let ev = self.race(beh)?;
                    hist.push((json!("race"), ev));
                }
                "random" => {
                    let ev = self.random(beh)?;
                    hist.push((json!("random"), ev));
                }
                _ => {
                    let (ev, calls) = self.faulted(beh, None, None)?;
                    hist.push((json!("none"), ev));
                    let mut plans = vec![];
                    for (k, what) in calls.iter().enumerate() {
                        for e in [libc::EIO, libc::ENOSPC, libc::EACCES] {
                            plans.push(((k, Fault::Error(e, false)), None));
                        }
                        plans.push(((k, Fault::Error(libc::ENOSPC, true)), None));
                        if *what == "write" || *what == "open" {
                            plans.push(((k, Fault::Again), None));
                        }
                        if *what == "write" {
                            plans.push(((k, Fault::Short), None));
                            plans.push(((k, Fault::Full), None));
                        }
                        for p in [None, Some(0), Some(1), Some(2)] {
                            plans.push(((k, Fault::Kill), p));
                            plans.push(((k, Fault::KillIn), p));
                        }
                    }
                    for (p, power) in plans {
                        let (ev, _) = self.faulted(beh, Some(p), power).map_err(|e| format!("{e} (fault {p:?} {power:?})"))?;
                        hist.push((json!(format!("{p:?} {power:?}")), ev));
                    }
                }
            }
            Ok(())
        })();
        let _ = fs::remove_dir_all(&self.dir);
        *self.counts.entry("programs".into()).or_default() += 1;
        *self.counts.entry("histories".into()).or_default() += hist.len() as u64;
        if let Some(f) = self.params["hist"].as_str() {
            let mut f = fs::OpenOptions::new().create(true).append(true).open(format!("{f}.{}", std::process::id())).unwrap();
            for (k, ev) in hist {
                writeln!(f, "{}", json!({"prog": beh["id"], "key": k, "ev": ev})).unwrap();
            }
        }
        r.map_err(|e: String| (0, e))
    }
    fn stats(&self) -> Value {
        json!({"ops": self.ops, "counts": self.counts})
    }
}
