//! Runs programs of sections over read-log-update variables and records their histories in the
//! terms of Rlu.tla.
use crate::{pool::Machine, replay::panic_text, sched};
use serde_json::{json, Value};
use std::{
    collections::{BTreeMap, HashSet},
    io::Write,
    ops::{Deref, DerefMut},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{Arc, Mutex},
};
use stronghold_stm::rlu::{BusyBreaker, RLUStrategy, RLUVar, Read, TransactionError, Write as _, RLU};

fn arr(v: &Value) -> Vec<Value> {
    v.as_array().cloned().unwrap_or_default()
}
fn s(v: &Value) -> &str {
    v.as_str().unwrap_or("")
}
/// A value of the specification is a number; all elements are that number.
type T = Vec<u64>;
const TORN: u64 = 999_999;
fn val(n: u64) -> T {
    vec![n; 12]
}
fn num(t: &T) -> u64 {
    if t.len() == 12 && t.iter().all(|x| *x == t[0]) {
        t[0]
    } else {
        TORN
    }
}
enum Guard<'a> {
    R(usize, #[allow(dead_code)] Box<dyn Deref<Target = T> + 'a>),
    W(usize, Box<dyn DerefMut<Target = T> + 'a>),
}
struct Shared {
    rlu: RLU<T>,
    vars: Vec<RLUVar<T>>,
    log: Mutex<Vec<Value>>,
    ops: Arc<Mutex<BTreeMap<String, (u64, u64)>>>,
    bad: Mutex<Option<String>>,
}
impl Shared {
    fn put(&self, v: Value) {
        self.log.lock().unwrap().push(v)
    }
    fn count(&self, k: &str, ok: bool) {
        let mut g = self.ops.lock().unwrap();
        let e = g.entry(k.into()).or_default();
        if ok {
            e.0 += 1
        } else {
            e.1 += 1
        }
    }
    fn release(&self, t: usize, g: Guard) {
        match g {
            Guard::R(x, r) => {
                drop(r);
                self.put(json!({"t": t, "k": "drop", "x": x + 1}));
            }
            Guard::W(x, w) => {
                self.put(json!({"t": t, "k": "rel", "x": x + 1}));
                drop(w);
                self.put(json!({"t": t, "k": "reld", "x": x + 1}));
            }
        }
    }
    fn section(&self, t: usize, sec: &Value) -> bool {
        let ops = arr(&sec["ops"]);
        let fails = sec["fail"].as_u64().unwrap_or(0);
        let tries = Mutex::new(0u64);
        self.put(json!({"t": t, "k": "sec"}));
        let r = self.rlu.execute(|ctx| {
            let n = {
                let mut g = tries.lock().unwrap();
                *g += 1;
                *g
            };
            if n > 1 {
                self.put(json!({"t": t, "k": "err"}));
                self.put(json!({"t": t, "k": "sec"}));
            }
            let mut guards: Vec<Guard> = vec![];
            let mut res = Ok(());
            for o in &ops {
                let k = s(&o[0]);
                let x = o[1].as_u64().unwrap_or(1) as usize - 1;
                match k {
                    "g" | "m" => {
                        self.put(json!({"t": t, "k": "ask", "x": x + 1}));
                        let r: Result<(u64, Guard), TransactionError> = if k == "g" {
                            ctx.get(&self.vars[x]).map(|g| (num(&g), Guard::R(x, Box::new(g))))
                        } else {
                            ctx.get_mut(&self.vars[x]).map(|g| (num(&g), Guard::W(x, Box::new(g))))
                        };
                        self.count(if k == "g" { "read" } else { "write" }, r.is_ok());
                        match r {
                            Ok((v, g)) => {
                                self.put(json!({"t": t, "k": if k == "g" { "read" } else { "write" }, "x": x + 1, "v": v}));
                                guards.push(g);
                            }
                            Err(e) => {
                                self.put(json!({"t": t, "k": "no", "e": e.to_string()}));
                                res = Err(e);
                                break;
                            }
                        }
                    }
                    "s" => {
                        let v = o[2].as_u64().unwrap();
                        if let Some(Guard::W(_, w)) = guards.iter_mut().rev().find(|g| matches!(g, Guard::W(y, _) if *y == x)) {
                            // element by element: others may look in between
                            for i in 0..w.len() {
                                w[i] = v;
                                if i == 5 {
                                    sched::yield_here();
                                }
                            }
                            self.put(json!({"t": t, "k": "set", "x": x + 1, "v": v}));
                        }
                    }
                    "d" => {
                        if let Some(g) = guards.pop() {
                            self.release(t, g)
                        }
                    }
                    // the oldest
                    "o" if !guards.is_empty() => {
                        let g = guards.remove(0);
                        self.release(t, g)
                    }
                    _ => {}
                }
                sched::yield_here();
            }
            while let Some(g) = guards.pop() {
                self.release(t, g);
            }
            if n <= fails && res.is_ok() {
                res = Err(TransactionError::Failed);
            }
            res
        });
        let ran = *tries.lock().unwrap() > 0;
        self.put(json!({"t": t, "k": if r.is_ok() { "ok" } else { "err" }}));
        if !ran && r.is_ok() {
            *self.bad.lock().unwrap() = Some("a section that did not run is reported as done".into());
        }
        self.count("section", r.is_ok());
        if ran && r.is_ok() != (*tries.lock().unwrap() > fails) && r.is_ok() {
            *self.bad.lock().unwrap() = Some("a section that failed is reported as done".into());
        }
        ran
    }
    fn thread(&self, t: usize, secs: &[Value]) {
        for sec in secs {
            if let Some(x) = sec["get"].as_u64() {
                let v = num(&self.vars[x as usize - 1].get());
                if t == 0 {
                    self.put(json!({"t": t, "k": "get", "x": x, "v": v}));
                }
                continue;
            }
            for _ in 0..200 {
                if self.section(t, sec) {
                    break;
                }
                if t == 0 {
                    *self.bad.lock().unwrap() = Some("a section cannot begin".into());
                }
                sched::poll_here();
            }
        }
    }
}
fn strategy(n: &str) -> RLUStrategy {
    match n {
        "retry" => RLUStrategy::Retry,
        "breaker" => RLUStrategy::RetryWithBreaker(BusyBreaker::default()),
        _ => RLUStrategy::Abort,
    }
}

pub struct Rlu {
    params: Value,
    seed: u64,
    counts: BTreeMap<String, u64>,
    ops: Arc<Mutex<BTreeMap<String, (u64, u64)>>>,
}
impl Rlu {
    pub fn new(params: &Value, seed: u64) -> Self {
        Rlu { params: params.clone(), seed, counts: BTreeMap::new(), ops: Arc::default() }
    }
    fn once(&self, prog: &Value, ch: sched::Chooser) -> Result<(Vec<Value>, sched::Outcome), String> {
        let nv = prog["vars"].as_u64().unwrap();
        let rlu = RLU::with_strategy(strategy(s(&prog["strategy"])));
        let sh = Arc::new(Shared {
            vars: (1..=nv).map(|i| rlu.create(val(i))).collect(),
            rlu,
            log: Mutex::default(),
            ops: self.ops.clone(),
            bad: Mutex::default(),
        });
        sh.thread(0, &arr(&prog["setup"]));
        let threads = arr(&prog["threads"])
            .into_iter()
            .enumerate()
            .map(|(i, x)| {
                let sh = sh.clone();
                Box::new(move || {
                    if let Err(p) = catch_unwind(AssertUnwindSafe(|| sh.thread(i + 1, &arr(&x)))) {
                        sh.bad.lock().unwrap().get_or_insert(format!("panic: {}", panic_text(&p)));
                    }
                }) as Box<dyn FnOnce() + Send>
            })
            .collect();
        let out = sched::run(threads, ch, &[]);
        if out.deadlock {
            return Err("sections that never end".into());
        }
        let bad = || sh.bad.lock().unwrap().clone().map(Err).unwrap_or(Ok(()));
        bad()?;
        sh.thread(0, &arr(&prog["after"]));
        bad()?;
        let ev = sh.log.lock().unwrap().clone();
        Ok((ev, out))
    }
}
impl Machine for Rlu {
    fn run(&mut self, beh: &Value) -> Result<(), (usize, String)> {
        let n = arr(&beh["threads"]).len();
        let cap = self.params["cap"].as_u64().unwrap_or(100);
        let mut seen = HashSet::new();
        let mut hist = vec![];
        let mut one = |me: &mut Self, ch, key: Value| -> Result<Vec<(usize, usize)>, (usize, String)> {
            let (ev, out) = catch_unwind(AssertUnwindSafe(|| me.once(beh, ch)))
                .unwrap_or_else(|p| Err(format!("panic: {}", panic_text(&p))))
                .map_err(|e| (0, format!("{e} (schedule {key})")))?;
            *me.counts.entry("runs".into()).or_default() += 1;
            *me.counts.entry("scheduling_points".into()).or_default() += out.points;
            if seen.insert(serde_json::to_string(&ev).unwrap()) {
                hist.push(json!({"prog": beh["id"], "key": key, "ev": ev, "vars": beh["vars"]}));
            }
            Ok(out.taken)
        };
        let r = (|| {
            if n == 0 {
                return one(self, sched::Chooser::Free, json!("alone")).map(|_| ());
            }
            if beh["schedule"].is_array() {
                let pre = arr(&beh["schedule"]).iter().map(|x| x.as_u64().unwrap() as usize).collect();
                return one(self, sched::Chooser::Dfs(pre, 1000), json!(null)).map(|_| ());
            }
            if self.params["mode"] == "dfs" {
                let bound = self.params["bound"].as_u64().unwrap_or(2) as usize;
                let mut pre = vec![];
                for _ in 0..cap {
                    let taken = one(self, sched::Chooser::Dfs(pre.clone(), bound), json!(pre))?;
                    match sched::next(&taken) {
                        Some(x) => pre = x,
                        None => {
                            *self.counts.entry("programs_exhausted".into()).or_default() += 1;
                            break;
                        }
                    }
                }
                return Ok(());
            }
            for i in 0..cap {
                let sd = self.seed.wrapping_add(i * 7919);
                if self.params["mode"] == "random" {
                    one(self, sched::random(sd, n), json!(format!("random {sd}")))?;
                } else {
                    one(self, sched::Chooser::Free, json!("free"))?;
                }
            }
            Ok(())
        })();
        *self.counts.entry("programs".into()).or_default() += 1;
        *self.counts.entry("histories".into()).or_default() += hist.len() as u64;
        if let Some(f) = self.params["hist"].as_str() {
            let mut f = std::fs::OpenOptions::new().create(true).append(true).open(format!("{f}.{}", std::process::id())).unwrap();
            for h in hist {
                writeln!(f, "{h}").unwrap();
            }
        }
        r
    }
    fn stats(&self) -> Value {
        json!({"ops": *self.ops.lock().unwrap(), "counts": self.counts})
    }
}
