//! Runs programs of several threads that share guarded buffers or non-contiguous memories, and
//! records their histories in the terms of GuardConc.tla and ShardConc.tla.
use crate::{
    mem::Vals,
    pool::Machine,
    replay::panic_text,
    sched,
    shim,
};
use engine::runtime::{
    locked_memory::LockedMemory,
    memories::{
        buffer::{Buffer, Ref},
        frag::FragStrategy,
        noncontiguous_memory::{NCConfig, NonContiguousMemory},
    },
};
use rand::{rngs::StdRng, SeedableRng};
use serde_json::{json, Value};
use std::{
    collections::{BTreeMap, HashMap, HashSet},
    io::Write,
    mem::transmute,
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    sync::{Arc, Mutex},
};
use zeroize::Zeroize;

fn arr(v: &Value) -> Vec<Value> {
    v.as_array().cloned().unwrap_or_default()
}
fn s(v: &Value) -> &str {
    v.as_str().unwrap_or("")
}
fn ix(v: &Value) -> usize {
    v.as_u64().unwrap() as usize - 1
}
type Log = Arc<Mutex<Vec<Value>>>;
type Ops = Arc<Mutex<BTreeMap<String, (u64, u64)>>>;

// ---------------------------------------------------------------- guarded buffers

struct Guards {
    bufs: Vec<Box<Buffer<u8>>>,
    want: Vec<Vec<u8>>,
    addr: Vec<usize>,
    log: Log,
    ops: Ops,
    /// borrows handed from one thread to another
    pool: Mutex<Vec<(usize, Ref<'static, u8>)>>,
    bad: Mutex<Option<String>>,
}
fn prot(a: usize, n: usize) -> &'static str {
    match (shim::readable(a, n), shim::writable(a, n)) {
        (false, false) => "none",
        (true, false) => "r",
        _ => "rw",
    }
}
impl Guards {
    fn put(&self, v: Value) {
        self.log.lock().unwrap().push(v)
    }
    fn buf(&self, i: usize) -> &'static Buffer<u8> {
        let b: &Buffer<u8> = &self.bufs[i];
        unsafe { transmute(b) }
    }
    fn probe(&self, t: usize, b: usize) {
        self.put(json!({"t": t, "k": "pb", "b": b + 1}));
        let p = prot(self.addr[b], self.want[b].len());
        self.put(json!({"t": t, "k": "pe", "b": b + 1, "p": p}));
    }
    /// effects: [kind, buffer]; "+" one borrow more, "-" one less, "t" one for a while
    fn call<X>(&self, t: usize, eff: Vec<(&str, usize)>, f: impl FnOnce() -> Result<X, String>) -> Result<X, String> {
        let eff: Vec<Value> = eff.into_iter().map(|(k, b)| json!({"k": k, "b": b + 1})).collect();
        self.put(json!({"t": t, "k": "call", "eff": eff}));
        let r = catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|p| Err(format!("panic: {}", panic_text(&p))));
        self.put(json!({"t": t, "k": "ret"}));
        r
    }
    fn check(&self, b: usize, got: &[u8]) -> Result<(), String> {
        // a fault would end the process: ask first
        if !shim::readable(got.as_ptr() as usize, got.len()) {
            return Err(format!("borrowed memory of buffer {} cannot be read", b + 1));
        }
        if got != &self.want[b][..] {
            return Err(format!("a borrow of buffer {} does not read the data stored", b + 1));
        }
        Ok(())
    }
    fn thread(&self, t: usize, ops: &[Value]) -> Result<(), String> {
        let mut refs: Vec<(usize, Ref<'static, u8>)> = vec![];
        for o in ops {
            let k = s(&o[0]);
            match k {
                "borrow" => {
                    let b = ix(&o[1]);
                    let r = self.call(t, vec![("+", b)], || Ok(self.buf(b).borrow()))?;
                    refs.push((b, r));
                }
                "clone" => {
                    if let Some((b, r)) = refs.last() {
                        let (b, c) = (*b, self.call(t, vec![("+", *b)], || Ok(r.clone()))?);
                        refs.push((b, c));
                    }
                }
                "drop" | "dropold" => {
                    if !refs.is_empty() {
                        let (b, r) = if k == "drop" { refs.pop().unwrap() } else { refs.remove(0) };
                        self.call(t, vec![("-", b)], || {
                            drop(r);
                            Ok(())
                        })?;
                    }
                }
                "give" => {
                    if let Some(x) = refs.pop() {
                        self.pool.lock().unwrap().push(x);
                    }
                }
                "take" => {
                    let x = self.pool.lock().unwrap().pop();
                    refs.extend(x);
                }
                "read" => {
                    if let Some((b, r)) = refs.last() {
                        let d: &[u8] = r;
                        self.check(*b, d)?;
                        self.probe(t, *b);
                    }
                }
                "refeq" => {
                    if let (Some((a, x)), Some((b, y))) = (refs.first(), refs.last()) {
                        self.check(*a, x)?;
                        self.check(*b, y)?;
                        if (x == y) != (self.want[*a] == self.want[*b]) {
                            return Err("comparison of two borrows".into());
                        }
                    }
                }
                "eq" => {
                    let (a, b) = (ix(&o[1]), ix(&o[2]));
                    let e = self.call(t, vec![("t", a), ("t", b)], || Ok(self.buf(a) == self.buf(b)))?;
                    if e != (self.want[a] == self.want[b]) {
                        return Err(format!("buffers {} and {} compared equal: {e}", a + 1, b + 1));
                    }
                }
                "copy" | "serde" => {
                    let b = ix(&o[1]);
                    let c = self.call(t, vec![("t", b)], || {
                        if k == "copy" {
                            Ok(self.buf(b).clone())
                        } else {
                            let x = bincode::serialize(self.buf(b)).map_err(|e| e.to_string())?;
                            bincode::deserialize(&x).map_err(|e| e.to_string())
                        }
                    })?;
                    let r = c.borrow();
                    let (a, n) = (r.as_ptr() as usize, r.len());
                    self.check(b, &r)?;
                    if a == self.addr[b] {
                        return Err("a copy shares the original's memory".into());
                    }
                    drop(r);
                    let p = prot(a, n);
                    if p != "none" {
                        return Err(format!("a copy nobody borrows has protection {p}"));
                    }
                }
                "probe" => self.probe(t, ix(&o[1])),
                k => return Err(format!("harness: no operation {k}")),
            }
            self.ops.lock().unwrap().entry(k.into()).or_default().0 += 1;
            sched::yield_here();
        }
        while let Some((b, r)) = refs.pop() {
            self.call(t, vec![("-", b)], || {
                drop(r);
                Ok(())
            })?;
        }
        Ok(())
    }
}

fn guards(prog: &Value, seed: u64, ch: sched::Chooser, ops: &Ops) -> Result<(Vec<Value>, Value, sched::Outcome), String> {
    let mut vals = Vals::new(&mut StdRng::seed_from_u64(seed));
    let (mut bufs, mut want, mut addr) = (vec![], vec![], vec![]);
    for b in arr(&prog["bufs"]) {
        let n = b["len"].as_u64().unwrap() as usize;
        let w = vals.bytes(s(&b["val"]), n);
        let x = Box::new(Buffer::alloc(&w, n));
        addr.push(x.borrow().as_ptr() as usize);
        bufs.push(x);
        want.push(w);
    }
    let nb = bufs.len();
    let g = Arc::new(Guards { bufs, want, addr, log: Arc::default(), ops: ops.clone(), pool: Mutex::default(), bad: Mutex::default() });
    let threads = arr(&prog["threads"])
        .into_iter()
        .enumerate()
        .map(|(i, o)| {
            let g = g.clone();
            Box::new(move || {
                let r = catch_unwind(AssertUnwindSafe(|| g.thread(i + 1, &arr(&o)))).unwrap_or_else(|p| Err(format!("panic: {}", panic_text(&p))));
                if let Err(e) = r {
                    g.bad.lock().unwrap().get_or_insert(e);
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    let out = sched::run(threads, ch, &[]);
    if out.deadlock {
        std::mem::forget(g);
        return Err("threads that wait for ever".into());
    }
    if let Some(e) = g.bad.lock().unwrap().take() {
        // what is left may not even be droppable
        let _ = catch_unwind(AssertUnwindSafe(|| g.pool.lock().unwrap().clear()));
        std::mem::forget(g.clone());
        return Err(e);
    }
    for (b, r) in std::mem::take(&mut *g.pool.lock().unwrap()) {
        g.call(0, vec![("-", b)], || {
            drop(r);
            Ok(())
        })?;
    }
    for b in 0..nb {
        g.probe(0, b);
    }
    let ev = std::mem::take(&mut *g.log.lock().unwrap());
    // everything still works: an exclusive borrow, a new value, a last read
    let mut g = Arc::try_unwrap(g).map_err(|_| "harness: threads are gone, their buffers are not")?;
    for i in 0..nb {
        let n = g.want[i].len();
        let w = vals.bytes("after", n);
        let a = g.addr[i];
        let mut m = g.bufs[i].borrow_mut();
        m.copy_from_slice(&w);
        if prot(a, n) != "rw" {
            return Err("an exclusively borrowed buffer is not writable".into());
        }
        drop(m);
        if prot(a, n) != "none" {
            return Err("a buffer stays accessible after an exclusive borrow".into());
        }
        if g.bufs[i].borrow()[..] != w[..] {
            return Err("a buffer does not hold what was written last".into());
        }
    }
    drop(g);
    if shim::UNWIPED.load(std::sync::atomic::Ordering::SeqCst) > 0 {
        return Err("guarded memory was released with data in it".into());
    }
    Ok((ev, json!({"bufs": nb}), out))
}

// ---------------------------------------------------------------- split secrets

fn config(k: &str) -> NCConfig {
    match k {
        "nc.ram" => NCConfig::FullRam,
        "nc.file" => NCConfig::FullFile,
        "nc.mixed" => NCConfig::RamAndFile,
        "nc.map" => NCConfig::FragAllocation(FragStrategy::Map),
        "nc.direct" => NCConfig::FragAllocation(FragStrategy::Direct),
        _ => NCConfig::FragAllocation(FragStrategy::Hybrid),
    }
}
struct Shards {
    mem: NonContiguousMemory,
    secret: Vec<u8>,
    log: Log,
    ops: Ops,
    /// numbers of shard contents
    ids: [Mutex<HashMap<Vec<u8>, usize>>; 2],
    next: Mutex<usize>,
    bad: Mutex<Option<String>>,
}
impl Shards {
    fn put(&self, v: Value) {
        self.log.lock().unwrap().push(v)
    }
    fn call<X>(&self, t: usize, k: &str, m: usize, f: impl FnOnce() -> Result<X, String>) -> Result<X, String> {
        self.put(json!({"t": t, "k": k, "m": m}));
        let r = catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|p| Err(format!("panic: {}", panic_text(&p))));
        self.put(json!({"t": t, "k": "ret", "m": m}));
        r
    }
    fn unlock(&self, m: &NonContiguousMemory) -> Result<(), String> {
        let b = m.unlock().map_err(|e| format!("unlock failed: {e}"))?;
        if b.borrow()[..] != self.secret[..] {
            return Err("an unlock did not return the secret".into());
        }
        Ok(())
    }
    #[allow(unused_variables)]
    fn shards(&self, t: usize, m: &NonContiguousMemory, n: usize) -> Result<(), String> {
        #[cfg(vp_hooks)]
        {
            self.put(json!({"t": t, "k": "look", "m": n}));
            let (a, b) = m.vp_shards().map_err(|e| format!("shards: {e}"))?;
            if a == self.secret || b == self.secret || a == b {
                return Err("a shard equals the secret or the other shard".into());
            }
            let id = |i: usize, x: Vec<u8>| {
                let mut g = self.ids[i].lock().unwrap();
                let k = g.len() + 1;
                *g.entry(x).or_insert(k)
            };
            let (a, b) = (id(0, a), id(1, b));
            self.put(json!({"t": t, "k": "seen", "m": n, "a": a, "b": b}));
        }
        Ok(())
    }
    fn thread(&self, t: usize, ops: &[Value]) -> Result<(), String> {
        let mut own: Vec<(usize, NonContiguousMemory)> = vec![];
        for o in ops {
            let k = s(&o[0]);
            // operations on the shared memory, or on the thread's last clone
            let mine = o[1] == "own" && !own.is_empty();
            let (n, m): (usize, &NonContiguousMemory) = if mine { own.last().map(|x| (x.0, &x.1)).unwrap() } else { (1, &self.mem) };
            match k {
                "unlock" => self.call(t, "may", n, || self.unlock(m))?,
                "refresh" => self.call(t, "must", n, || m.refresh().map_err(|e| format!("refresh failed: {e}")))?,
                "serde" => {
                    let c: NonContiguousMemory = self.call(t, "may", n, || {
                        let x = bincode::serialize(m).map_err(|e| e.to_string())?;
                        bincode::deserialize(&x).map_err(|e| e.to_string())
                    })?;
                    self.unlock(&c)?
                }
                "look" => self.shards(t, m, n)?,
                "clone" => {
                    let c = self.call(t, "no", n, || Ok(m.clone()))?;
                    let id = {
                        let mut g = self.next.lock().unwrap();
                        *g += 1;
                        *g
                    };
                    self.put(json!({"t": t, "k": "new", "m": id}));
                    self.unlock(&c)?;
                    own.push((id, c));
                }
                "wipe" => {
                    if let Some((_, mut c)) = own.pop() {
                        c.zeroize();
                        if c.unlock().is_ok() {
                            return Err("a cleared memory can be unlocked".into());
                        }
                    }
                }
                "drop" => drop(own.pop()),
                "update" => {
                    if let Some((_, c)) = own.pop() {
                        let p = Buffer::alloc(&self.secret, 32);
                        let c = c.update(p, 32).map_err(|e| format!("update failed: {e}"))?;
                        self.unlock(&c)?;
                    }
                }
                k => return Err(format!("harness: no operation {k}")),
            }
            self.ops.lock().unwrap().entry(k.into()).or_default().0 += 1;
            sched::yield_here();
        }
        for (_, c) in &own {
            self.unlock(c)?;
        }
        Ok(())
    }
}
fn shards(prog: &Value, seed: u64, ch: sched::Chooser, ops: &Ops, narrow: bool) -> Result<(Vec<Value>, Value, sched::Outcome), String> {
    let mut vals = Vals::new(&mut StdRng::seed_from_u64(seed));
    let secret = vals.bytes(s(&prog["val"]), 32);
    let mem = NonContiguousMemory::alloc(&secret, 32, config(s(&prog["conf"]))).map_err(|e| e.to_string())?;
    let g = Arc::new(Shards { mem, secret, log: Arc::default(), ops: ops.clone(), ids: Default::default(), next: Mutex::new(1), bad: Mutex::default() });
    g.shards(0, &g.mem, 1)?;
    if narrow {
        // switch only at the locks of the shared memory itself
        let a = &g.mem as *const _ as usize;
        sched::FROM.store(a, std::sync::atomic::Ordering::Relaxed);
        sched::TO.store(a + std::mem::size_of::<NonContiguousMemory>(), std::sync::atomic::Ordering::Relaxed);
    }
    let threads = arr(&prog["threads"])
        .into_iter()
        .enumerate()
        .map(|(i, o)| {
            let g = g.clone();
            Box::new(move || {
                let r = catch_unwind(AssertUnwindSafe(|| g.thread(i + 1, &arr(&o)))).unwrap_or_else(|p| Err(format!("panic: {}", panic_text(&p))));
                if let Err(e) = r {
                    g.bad.lock().unwrap().get_or_insert(e);
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    let out = sched::run(threads, ch, &[]);
    sched::TO.store(0, std::sync::atomic::Ordering::Relaxed);
    if out.deadlock {
        std::mem::forget(g);
        return Err("threads that wait for ever".into());
    }
    if let Some(e) = g.bad.lock().unwrap().take() {
        std::mem::forget(g.clone());
        return Err(e);
    }
    g.shards(0, &g.mem, 1)?;
    g.call(0, "may", 1, || g.unlock(&g.mem))?;
    let ev = std::mem::take(&mut *g.log.lock().unwrap());
    let mut g = Arc::try_unwrap(g).map_err(|_| "harness: threads are gone, their memory is not")?;
    g.mem.zeroize();
    if g.mem.unlock().is_ok() {
        return Err("a cleared memory can be unlocked".into());
    }
    drop(g);
    if shim::UNWIPED.load(std::sync::atomic::Ordering::SeqCst) > 0 {
        return Err("guarded memory was released with data in it".into());
    }
    Ok((ev, json!({"mems": 1}), out))
}

// ---------------------------------------------------------------- the machine

pub struct MConc {
    params: Value,
    seed: u64,
    dir: PathBuf,
    counts: BTreeMap<String, u64>,
    ops: Ops,
}
impl MConc {
    pub fn new(params: &Value, seed: u64, dir: &Path) -> Self {
        let _ = std::fs::remove_dir_all(dir);
        std::fs::create_dir_all(dir).unwrap();
        std::env::set_var("XDG_DATA_HOME", dir);
        shim::watch(true);
        MConc { params: params.clone(), seed, dir: dir.into(), counts: BTreeMap::new(), ops: Arc::default() }
    }
}
impl Drop for MConc {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}
impl Machine for MConc {
    fn run(&mut self, beh: &Value) -> Result<(), (usize, String)> {
        let n = arr(&beh["threads"]).len();
        let cap = self.params["cap"].as_u64().unwrap_or(100);
        let mut seen = HashSet::new();
        let mut hist = vec![];
        let mut one = |me: &mut Self, ch, key: Value| -> Result<Vec<(usize, usize)>, (usize, String)> {
            let ops = me.ops.clone();
            let (seed, what) = (me.seed, s(&beh["kind"]) == "g");
            let narrow = me.params["mode"] == "dfs";
            let (ev, extra, out) = catch_unwind(AssertUnwindSafe(|| if what { guards(beh, seed, ch, &ops) } else { shards(beh, seed, ch, &ops, narrow) }))
                .unwrap_or_else(|p| Err(format!("panic: {}", panic_text(&p))))
                .map_err(|e| (0, format!("{e} (schedule {key})")))?;
            *me.counts.entry("runs".into()).or_default() += 1;
            *me.counts.entry("scheduling_points".into()).or_default() += out.points;
            if !what {
                let left = std::fs::read_dir(me.dir.join(".locked_memories")).map(|d| d.count()).unwrap_or(0);
                if left > 0 {
                    return Err((0, format!("{left} files are left behind when all memories are dropped (schedule {key})")));
                }
            }
            if seen.insert(serde_json::to_string(&ev).unwrap()) {
                let mut h = json!({"prog": beh["id"], "key": key, "ev": ev});
                for (k, v) in extra.as_object().unwrap() {
                    h[k] = v.clone();
                }
                hist.push(h);
            }
            Ok(out.taken)
        };
        let r = (|| {
            if beh["schedule"].is_array() {
                let pre = arr(&beh["schedule"]).iter().map(|x| x.as_u64().unwrap() as usize).collect();
                return one(self, sched::Chooser::Dfs(pre, 1000), json!(null)).map(|_| ());
            }
            if self.params["mode"] == "dfs" {
                let bound = self.params["bound"].as_u64().unwrap_or(2) as usize;
                let mut pre = vec![];
                for _ in 0..cap {
                    let taken = one(self, sched::Chooser::Dfs(pre.clone(), bound), json!(pre))?;
                    match sched::next(&taken) {
                        Some(x) => pre = x,
                        None => {
                            *self.counts.entry("programs_exhausted".into()).or_default() += 1;
                            break;
                        }
                    }
                }
                return Ok(());
            }
            for i in 0..cap {
                let sd = self.seed.wrapping_add(i * 7919);
                if self.params["mode"] == "random" {
                    one(self, sched::random(sd, n), json!(format!("random {sd}")))?;
                } else {
                    one(self, sched::Chooser::Free, json!("free"))?;
                }
            }
            Ok(())
        })();
        *self.counts.entry("programs".into()).or_default() += 1;
        *self.counts.entry("histories".into()).or_default() += hist.len() as u64;
        if let Some(f) = self.params["hist"].as_str() {
            let mut f = std::fs::OpenOptions::new().create(true).append(true).open(format!("{f}.{}", std::process::id())).unwrap();
            for h in hist {
                writeln!(f, "{h}").unwrap();
            }
        }
        r
    }
    fn stats(&self) -> Value {
        json!({"ops": *self.ops.lock().unwrap(), "counts": self.counts})
    }
}
