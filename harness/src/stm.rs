//! Runs programs of concurrent transactions and records their histories in the terms of Stm.tla.
use crate::{pool::Machine, sched};
use serde_json::{json, Value};
use std::{
    collections::{BTreeMap, HashSet},
    io::Write,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{Arc, Mutex},
};
use stronghold_stm::stm::{
    error::TxError,
    shared_value::SharedValue::{self, *},
    stm::Stm,
    transaction::Transaction,
    tvar::TVar,
};

fn arr(v: &Value) -> Vec<Value> {
    v.as_array().cloned().unwrap_or_default()
}
fn s(v: &Value) -> &str {
    v.as_str().unwrap_or("")
}
/// Values of the specification are numbers; variables have different types.
fn shared(ty: usize, n: u64) -> SharedValue {
    match ty % 5 {
        0 => SharedUsize(n as usize),
        1 => SharedString(n.to_string()),
        2 => SharedVectorOfUsize(vec![n as usize; 40]),
        3 => SharedVectorOfString(vec![n.to_string(), "x".into()]),
        _ => SharedHashSetOfString([n.to_string()].into_iter().collect()),
    }
}
const TORN: u64 = 999_999;
fn load(ty: usize, tx: &mut Transaction, v: &TVar) -> Result<u64, TxError> {
    Ok(match ty % 5 {
        0 => tx.load::<usize>(v)? as u64,
        1 => tx.load::<String>(v)?.parse().unwrap_or(TORN),
        2 => {
            let x = tx.load::<Vec<usize>>(v)?;
            if x.len() == 40 && x.iter().all(|y| *y == x[0]) {
                x[0] as u64
            } else {
                TORN
            }
        }
        3 => tx.load::<Vec<String>>(v)?[0].parse().unwrap_or(TORN),
        _ => tx.load::<HashSet<String>>(v)?.iter().next().and_then(|x| x.parse().ok()).unwrap_or(TORN),
    })
}
fn peek(ty: usize, v: &TVar) -> Result<u64, TxError> {
    Ok(match ty % 5 {
        0 => v.try_get_data::<usize>()? as u64,
        1 => v.try_get_data::<String>()?.parse().unwrap_or(TORN),
        2 => v.try_get_data::<Vec<usize>>()?[0] as u64,
        3 => v.try_get_data::<Vec<String>>()?[0].parse().unwrap_or(TORN),
        _ => v.try_get_data::<HashSet<String>>()?.iter().next().and_then(|x| x.parse().ok()).unwrap_or(TORN),
    })
}
type Log = Arc<Mutex<Vec<Value>>>;
struct Shared {
    stm: Stm,
    vars: Vec<TVar>,
    types: usize,
    log: Log,
    most: std::sync::atomic::AtomicU64,
    free: bool,
}
impl Shared {
    /// One transaction: {"ro", "ops": [["r", x] | ["w", x, v]], "fail": n}
    fn transaction(&self, t: usize, tx: &Value) -> u64 {
        let foot: Vec<u64> = {
            let mut f: Vec<u64> = arr(&tx["ops"]).iter().map(|o| o[1].as_u64().unwrap()).collect();
            f.sort();
            f.dedup();
            f
        };
        let ops = arr(&tx["ops"]);
        let tries = Mutex::new(0u64);
        let fail = tx["fail"].as_u64().unwrap_or(0);
        let put = |v: Value| self.log.lock().unwrap().push(v);
        let body = |x: &mut Transaction| -> Result<u64, TxError> {
            let n = {
                let mut g = tries.lock().unwrap();
                *g += 1;
                *g
            };
            put(json!({"t": t, "k": "att", "n": n}));
            if self.free && n > 10 {
                // someone sleeps with a lock held: attempts in a tight loop only fill the history
                std::thread::sleep(std::time::Duration::from_micros(if n < 20 { 100 } else { 10_000 }));
            }
            for o in &ops {
                let i = o[1].as_u64().unwrap() as usize;
                if s(&o[0]) == "r" {
                    match load(i + self.types, x, &self.vars[i]) {
                        Ok(v) => put(json!({"t": t, "k": "rd", "x": i, "v": v})),
                        Err(e) => {
                            put(json!({"t": t, "k": "no"}));
                            sched::poll_here();
                            return Err(e);
                        }
                    }
                } else {
                    let v = o[2].as_u64().unwrap();
                    x.store(&self.vars[i], shared(i + self.types, v))?;
                    put(json!({"t": t, "k": "wr", "x": i, "v": v}));
                }
                sched::yield_here();
            }
            if n <= fail {
                put(json!({"t": t, "k": "fail"}));
                return Err(TxError::Failed);
            }
            put(json!({"t": t, "k": "end"}));
            Ok(n)
        };
        put(json!({"t": t, "k": "call", "ro": tx["ro"] == true, "foot": foot}));
        let r = if tx["ro"] == true { self.stm.read_only(body) } else { self.stm.read_write(body) };
        let n = *tries.lock().unwrap();
        match r {
            Ok(x) => put(json!({"t": t, "k": "ret", "ok": x.res == n})),
            Err(e) => put(json!({"t": t, "k": "err", "e": e.to_string()})),
        }
        self.most.fetch_max(n, std::sync::atomic::Ordering::SeqCst);
        n
    }
}

pub struct StmMachine {
    params: Value,
    seed: u64,
    counts: BTreeMap<String, u64>,
    ops: BTreeMap<String, (u64, u64)>,
}
impl StmMachine {
    pub fn new(params: &Value, seed: u64) -> Self {
        sched::FAIR.store(40, std::sync::atomic::Ordering::SeqCst);
        StmMachine { params: params.clone(), seed, counts: BTreeMap::new(), ops: BTreeMap::new() }
    }
    fn once(&mut self, prog: &Value, ch: sched::Chooser) -> Result<(Vec<Value>, sched::Outcome), String> {
        let nv = prog["vars"].as_u64().unwrap() as usize;
        let stm = Stm::default();
        let types = prog["types"].as_u64().unwrap_or(0) as usize;
        let sh = Arc::new(Shared {
            vars: (0..nv).map(|i| stm.create(shared(i + types, i as u64))).collect(),
            stm,
            types,
            log: Arc::default(),
            most: Default::default(),
            free: self.params["mode"] == "free",
        });
        for tx in arr(&prog["setup"]) {
            sh.transaction(0, &tx);
        }
        let threads = arr(&prog["threads"])
            .into_iter()
            .enumerate()
            .map(|(i, txs)| {
                let sh = sh.clone();
                Box::new(move || {
                    for tx in arr(&txs) {
                        sh.transaction(i + 1, &tx);
                    }
                }) as Box<dyn FnOnce() + Send>
            })
            .collect();
        let out = sched::run(threads, ch, &[]);
        if out.deadlock {
            let ev = sh.log.lock().unwrap().clone();
            return Err(format!("transactions that never return; last events {}", json!(ev.iter().rev().take(6).collect::<Vec<_>>())));
        }
        // nothing is locked, and a transaction without conflicts commits at once
        for i in 0..nv {
            sh.vars[i].try_get_version().map_err(|e| format!("variable {i} after all transactions returned: {e}"))?;
            let v = peek(i + types, &sh.vars[i]).map_err(|e| format!("variable {i} after all transactions returned: {e}"))?;
            sh.log.lock().unwrap().push(json!({"t": 0, "k": "fin", "x": i, "v": v}));
        }
        let all: Vec<Value> = (0..nv).map(|i| json!(["r", i])).collect();
        sh.transaction(0, &json!({"ro": true, "ops": all}));
        sh.transaction(0, &json!({"ro": false, "ops": all}));
        let w: Vec<Value> = (0..nv).map(|i| json!(["w", i, 900 + i])).collect();
        sh.transaction(0, &json!({"ro": false, "ops": w}));
        for i in 0..nv {
            let v = peek(i + types, &sh.vars[i]).map_err(|e| format!("variable {i}: {e}"))?;
            sh.log.lock().unwrap().push(json!({"t": 0, "k": "fin", "x": i, "v": v}));
        }
        let ev = sh.log.lock().unwrap().clone();
        if let Some(e) = ev.iter().find(|e| e["k"] == "err") {
            return Err(format!("a transaction returned an error: {}", s(&e["e"])));
        }
        let m = self.counts.entry("most_attempts".into()).or_default();
        *m = (*m).max(sh.most.load(std::sync::atomic::Ordering::SeqCst));
        Ok((ev, out))
    }
}
impl Machine for StmMachine {
    fn run(&mut self, beh: &Value) -> Result<(), (usize, String)> {
        let n = arr(&beh["threads"]).len();
        let cap = self.params["cap"].as_u64().unwrap_or(100);
        let mut seen = HashSet::new();
        let mut hist = vec![];
        let mut one = |me: &mut Self, ch, key: Value| -> Result<Vec<(usize, usize)>, (usize, String)> {
            let (ev, out) = catch_unwind(AssertUnwindSafe(|| me.once(beh, ch)))
                .unwrap_or_else(|p| Err(format!("panic: {}", crate::replay::panic_text(&p))))
                .map_err(|e| (0, format!("{e} (schedule {key})")))?;
            *me.counts.entry("runs".into()).or_default() += 1;
            *me.counts.entry("scheduling_points".into()).or_default() += out.points;
            for e in &ev {
                if e["k"] == "ret" || e["k"] == "no" || e["k"] == "fail" {
                    let c = me.ops.entry("transaction attempt".into()).or_default();
                    if e["k"] == "ret" {
                        c.0 += 1
                    } else {
                        c.1 += 1
                    }
                }
            }
            if ev.len() > 1500 {
                *me.counts.entry("histories_too_long_to_validate".into()).or_default() += 1;
            } else if seen.insert(serde_json::to_string(&ev).unwrap()) {
                hist.push(json!({"prog": beh["id"], "key": key, "ev": ev, "vars": beh["vars"]}));
            }
            Ok(out.taken)
        };
        let r = (|| {
            if beh["schedule"].is_array() {
                let pre = arr(&beh["schedule"]).iter().map(|x| x.as_u64().unwrap() as usize).collect();
                return one(self, sched::Chooser::Dfs(pre, 1000), json!(null)).map(|_| ());
            }
            if self.params["mode"] == "dfs" {
                let bound = self.params["bound"].as_u64().unwrap_or(2) as usize;
                let mut pre = vec![];
                for _ in 0..cap {
                    let taken = one(self, sched::Chooser::Dfs(pre.clone(), bound), json!(pre))?;
                    match sched::next(&taken) {
                        Some(x) => pre = x,
                        None => {
                            *self.counts.entry("programs_exhausted".into()).or_default() += 1;
                            break;
                        }
                    }
                }
                return Ok(());
            }
            for i in 0..cap {
                let sd = self.seed.wrapping_add(i * 7919);
                if self.params["mode"] == "random" {
                    one(self, sched::random(sd, n), json!(format!("random {sd}")))?;
                } else {
                    one(self, sched::Chooser::Free, json!("free"))?;
                }
            }
            Ok(())
        })();
        *self.counts.entry("programs".into()).or_default() += 1;
        *self.counts.entry("histories".into()).or_default() += hist.len() as u64;
        if let Some(f) = self.params["hist"].as_str() {
            let mut f = std::fs::OpenOptions::new().create(true).append(true).open(format!("{f}.{}", std::process::id())).unwrap();
            for h in hist {
                writeln!(f, "{h}").unwrap();
            }
        }
        r
    }
    fn stats(&self) -> Value {
        json!({"ops": self.ops, "counts": self.counts})
    }
}
