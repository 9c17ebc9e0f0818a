//! Replays behaviours of Names.tla: reads and writes through locations made of related paths.
use crate::{
    conc::{hmac_norm, rbytes},
    pool::Machine,
    replay::panic_text,
};
use crypto::{hashes::sha::SHA512, macs::hmac::HMAC_SHA512};
use iota_stronghold::{
    procedures::{CompareSecret, CopyRecord, RevokeData},
    Client, KeyProvider, Location, SnapshotPath, Stronghold,
};
use rand::{rngs::StdRng, seq::SliceRandom, Rng, SeedableRng};
use serde_json::{json, Value};
use std::{
    collections::BTreeMap,
    fs,
    io::Write,
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    process::{Command, Stdio},
};

type Res<T> = Result<T, String>;
fn s(v: &Value) -> &str {
    v.as_str().unwrap_or("")
}
fn n(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}
fn arr(v: &Value) -> Vec<Value> {
    v.as_array().cloned().unwrap_or_default()
}
fn e<T>(r: Result<T, impl std::fmt::Display>) -> Res<T> {
    r.map_err(|e| e.to_string())
}

/// The bytes of a path of the specification.
fn bytes(p: &[Value], ctr: &[usize]) -> Vec<u8> {
    let Some(h) = p.first() else { return vec![] };
    let rest = |p: &[Value]| bytes(&p[1..], ctr);
    match s(&h[0]) {
        "sha" => {
            let mut d = [0u8; 64];
            SHA512(&rest(p), &mut d);
            d.to_vec()
        }
        "id" => {
            let mut d = [0u8; 64];
            let x = rest(p);
            HMAC_SHA512(&x, &x, &mut d);
            d[..24].to_vec()
        }
        "dbg" => {
            let c = ctr[n(&h[1]) - 1];
            let c = if c == 0 { "first_record".to_string() } else { c.to_string() };
            format!("{:?}{}", rest(p), c).into_bytes()
        }
        "word" => ["first_record".repeat(n(&h[1])).into_bytes(), rest(p)].concat(),
        b => [vec![u8::from_str_radix(b, 16).unwrap(); n(&h[1])], rest(p)].concat(),
    }
}

/// Everything a process needs to look at all locations.
struct Eyes {
    tab: Vec<Vec<u8>>,
    ctr: Vec<usize>,
    locs: Vec<Value>,
    vals: Vec<Vec<u8>>,
}
impl Eyes {
    fn loc(&self, l: &Value) -> Location {
        let v = self.tab[n(&l["v"]) - 1].clone();
        match s(&l["s"]) {
            "rec" => Location::generic(v, self.tab[n(&l["i"]) - 1].clone()),
            _ => Location::counter(v, self.ctr[n(&l["i"]) - 1]),
        }
    }
    fn show(&self, l: &Value) -> String {
        let p = |i: &Value| {
            let b = &self.tab[n(i) - 1];
            format!("{:?}{}", String::from_utf8_lossy(&b[..b.len().min(40)]), if b.len() > 40 { format!("..({} bytes)", b.len()) } else { String::new() })
        };
        match s(&l["s"]) {
            "rec" => format!("record {} of vault {} of client {}", p(&l["i"]), p(&l["v"]), p(&l["c"])),
            "ctr" => format!("counter {} of vault {} of client {}", self.ctr[n(&l["i"]) - 1], p(&l["v"]), p(&l["c"])),
            _ => format!("store key {} of client {}", p(&l["i"]), p(&l["c"])),
        }
    }
    /// The number of the value found at a location, 0 if there is none; guesses are tried first.
    fn look(&self, clients: &[Client], l: &Value, guesses: &[usize]) -> Res<usize> {
        let c = &clients[n(&l["c"]) - 1];
        if s(&l["s"]) == "st" {
            let key = &self.tab[n(&l["i"]) - 1];
            return Ok(match e(c.store().get(key))? {
                None => 0,
                Some(b) => 1 + self.vals.iter().position(|v| *v == b).ok_or_else(|| format!("{} holds an unknown value", self.show(l)))?,
            });
        }
        let loc = self.loc(l);
        if !e(c.record_exists(&loc))? {
            return Ok(0);
        }
        let all: Vec<usize> = guesses.iter().cloned().chain(1..=self.vals.len()).filter(|i| *i > 0).collect();
        for i in all {
            let r = c.execute_procedure(CompareSecret { location: loc.clone(), expected: self.vals[i - 1].clone() }).map_err(|x| format!("{} exists, but reading it fails: {x}", self.show(l)))?;
            if r.first() == Some(&1) {
                return Ok(i);
            }
        }
        Err(format!("{} holds an unknown value", self.show(l)))
    }
}

pub struct Names {
    dir: PathBuf,
    r: StdRng,
    seed: u64,
    ncounters: usize,
    ops: BTreeMap<String, (u64, u64)>,
    counts: BTreeMap<String, u64>,
}
fn key(k: &[u8]) -> KeyProvider {
    KeyProvider::try_from(k.to_vec()).unwrap()
}
fn reopen(file: &Path, k: &[u8], tab: &[Vec<u8>]) -> Res<(Stronghold, Vec<Client>)> {
    let sh = Stronghold::default();
    e(sh.load_snapshot(&key(k), &SnapshotPath::from_path(file)))?;
    let cl = tab.iter().map(|p| e(sh.load_client(p)).map_err(|x| format!("client {:?} is not loaded again: {x}", String::from_utf8_lossy(p)))).collect::<Res<Vec<_>>>()?;
    Ok((sh, cl))
}
impl Names {
    pub fn new(params: &Value, seed: u64, dir: &Path) -> Self {
        let _ = fs::remove_dir_all(dir);
        fs::create_dir_all(dir).unwrap();
        Names { dir: dir.into(), r: StdRng::seed_from_u64(seed), seed, ncounters: n(&params["counters"]), ops: BTreeMap::new(), counts: BTreeMap::new() }
    }
    fn count(&mut self, k: &str, by: u64) {
        *self.counts.entry(k.into()).or_default() += by;
    }
    fn go(&mut self, beh: &Value, at: &mut usize) -> Res<()> {
        // counters that are easily taken for one another
        let base = [0usize, 1, 2, 9, 10, 11, 255, 256, 1 << 16, 1 << 32, u32::MAX as usize, usize::MAX];
        let mut cs = vec![*base.choose(&mut self.r).unwrap()];
        while cs.len() < self.ncounters {
            let c = *cs.choose(&mut self.r).unwrap();
            let d = match self.r.gen_range(0..6) {
                0 => c.wrapping_add(1 << [8, 16, 24, 31, 32, 63][self.r.gen_range(0..6)]),
                1 => c.wrapping_mul(10),
                2 => c.wrapping_add(1),
                3 => c.wrapping_neg(),
                4 => c & 0xffff_ffff,
                _ => *base.choose(&mut self.r).unwrap(),
            };
            if !cs.contains(&d) {
                cs.push(d);
            }
        }
        let mut w = Eyes { tab: arr(&beh["tab"]).iter().map(|p| bytes(&arr(p), &cs)).collect(), ctr: cs, locs: arr(&beh["locs"]), vals: vec![] };
        let norms: Vec<Vec<u8>> = w.tab.iter().map(|p| hmac_norm(p)).collect();
        for i in 0..w.tab.len() {
            for j in 0..i {
                // by accident (say, a digest that ends with a zero) a table may be other than specified
                let same = !arr(&beh["steps"]).iter().any(|x| !arr(&x["st"]["n"]).is_empty());
                if w.tab[i] == w.tab[j] || (same && norms[i] == norms[j]) {
                    self.count("tables_left_out", 1);
                    return Ok(());
                }
            }
        }
        let k = rbytes(&mut self.r, 32);
        let file = self.dir.join("snap");
        let mut sh = Stronghold::default();
        let mut cl = vec![];
        for p in &w.tab {
            cl.push(e(sh.create_client(p)).map_err(|x| format!("client {:?} cannot be created: {x}", String::from_utf8_lossy(p)))?);
        }
        // what the specifications with and without the known finding allow
        let (mut exact, mut norm) = (true, true);
        for (i, st) in arr(&beh["steps"]).iter().enumerate() {
            *at = i;
            let op = &st["op"];
            let kind = s(&op["k"]);
            let ok = match kind {
                "restart" => {
                    e(sh.commit_with_keyprovider(&SnapshotPath::from_path(&file), &key(&k)))?;
                    drop(cl);
                    sh.clear().ok();
                    (sh, cl) = reopen(&file, &k, &w.tab)?;
                    true
                }
                _ => {
                    let l = &op["l"];
                    let c = &cl[n(&l["c"]) - 1];
                    if s(&l["s"]) == "st" {
                        let store = c.store();
                        let key = w.tab[n(&l["i"]) - 1].clone();
                        if kind == "write" {
                            let len = self.r.gen_range(0..20);
                            w.vals.push([vec![w.vals.len() as u8], rbytes(&mut self.r, len)].concat());
                            e(store.insert(key, w.vals.last().unwrap().clone(), None))?;
                        } else {
                            e(store.delete(&key))?;
                        }
                        true
                    } else {
                        let loc = w.loc(l);
                        let vault = c.vault(loc.vault_path());
                        match kind {
                            "write" => {
                                let len = self.r.gen_range(0..20);
                                w.vals.push([vec![w.vals.len() as u8], rbytes(&mut self.r, len)].concat());
                                vault.write_secret(loc, w.vals.last().unwrap().clone()).is_ok()
                            }
                            "copy" => c.execute_procedure(CopyRecord { source: loc, target: w.loc(&op["d"]) }).is_ok(),
                            _ => {
                                let r = match (s(&l["s"]), self.r.gen_bool(0.5)) {
                                    ("rec", true) => vault.revoke_secret(loc.record_path()).is_ok(),
                                    _ => c.execute_procedure(RevokeData { location: loc, should_gc: false }).is_ok(),
                                };
                                if kind == "delete" {
                                    vault.cleanup().ok();
                                }
                                r
                            }
                        }
                    }
                }
            };
            let o = self.ops.entry(kind.into()).or_default();
            if ok { o.0 += 1 } else { o.1 += 1 }
            let (we, wn) = (arr(&st["st"]["e"]), arr(&st["st"]["n"]));
            let mut found = vec![];
            for (j, x) in we.iter().enumerate() {
                let x = n(x);
                let y = wn.get(j).map(n).unwrap_or(x);
                let l = &w.locs[j];
                let guesses = if exact { [x, y] } else { [y, x] };
                let f = w.look(&cl, l, &guesses)?;
                let v = |x: usize| if x == 0 { "nothing".to_string() } else { format!("value {x}") };
                exact &= f == x;
                norm &= f == y;
                if !exact && !norm {
                    return Err(format!("{} holds {} instead of {}", w.show(l), v(f), v(x)));
                }
                found.push(f);
            }
            self.count("reads", we.len() as u64);
            if kind == "restart" && !we.is_empty() && self.seed % 16 == 3 {
                self.other(&w, &file, &k, &found)?;
            }
        }
        if !exact {
            self.count("known_finding_hits", 1);
        }
        Ok(())
    }
    /// Another process finds the same at every location.
    fn other(&mut self, w: &Eyes, file: &Path, k: &[u8], found: &[usize]) -> Res<()> {
        self.count("other_processes", 1);
        let mut ch = Command::new(std::env::current_exe().unwrap()).arg("names-child").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().unwrap();
        let msg = json!({"file": file, "key": k, "tab": w.tab, "ctr": w.ctr, "locs": w.locs, "vals": w.vals, "found": found});
        ch.stdin.take().unwrap().write_all(msg.to_string().as_bytes()).unwrap();
        let out = ch.wait_with_output().unwrap();
        match out.status.success() {
            true => Ok(()),
            false => Err(format!("another process: {}", String::from_utf8_lossy(&out.stdout))),
        }
    }
}
pub fn child() -> i32 {
    let v: Value = serde_json::from_reader(std::io::stdin()).unwrap();
    let b = |v: &Value| arr(v).iter().map(|x| n(x) as u8).collect::<Vec<u8>>();
    let w = Eyes { tab: arr(&v["tab"]).iter().map(b).collect(), ctr: arr(&v["ctr"]).iter().map(n).collect(), locs: arr(&v["locs"]),
                   vals: arr(&v["vals"]).iter().map(b).collect() };
    let r = reopen(Path::new(s(&v["file"])), &b(&v["key"]), &w.tab).and_then(|(_sh, cl)| {
        for (l, f) in w.locs.iter().zip(arr(&v["found"]).iter().map(n)) {
            let g = w.look(&cl, l, &[f])?;
            if g != f {
                return Err(format!("{} holds value {g} instead of value {f}", w.show(l)));
            }
        }
        Ok(())
    });
    match r {
        Ok(()) => 0,
        Err(e) => {
            println!("{e}");
            1
        }
    }
}
impl Machine for Names {
    fn run(&mut self, beh: &Value) -> Result<(), (usize, String)> {
        let mut at = 0;
        let r = catch_unwind(AssertUnwindSafe(|| self.go(beh, &mut at))).unwrap_or_else(|p| Err(format!("the code panicked: {}", panic_text(&p))));
        let _ = fs::remove_dir_all(&self.dir);
        r.map_err(|e| (at, e))
    }
    fn stats(&self) -> Value {
        let ops: BTreeMap<_, _> = self.ops.iter().map(|(k, v)| (k.clone(), vec![v.0, v.1])).collect();
        json!({"ops": ops, "counts": self.counts})
    }
}
