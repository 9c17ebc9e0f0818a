//! Replays behaviours of GuardedMem.tla and LockedMem.tla on engine/runtime.
use crate::{conc::rbytes, pool::Machine, replay::panic_text, shim};
use engine::runtime::{
    locked_memory::LockedMemory,
    memories::{
        buffer::{Buffer, Ref, RefMut},
        file_memory::FileMemory,
        frag::{Frag, FragStrategy},
        noncontiguous_memory::{NCConfig, NonContiguousMemory},
        ram_memory::RamMemory,
    },
    Bytes, MemoryError, DEBUG_MSG,
};
use rand::{rngs::StdRng, Rng, SeedableRng};
use serde_json::{json, Value};
use std::{
    collections::{BTreeMap, HashMap},
    fmt::Debug,
    mem::transmute,
    os::unix::fs::PermissionsExt,
    panic::{catch_unwind, AssertUnwindSafe},
    path::PathBuf,
};
use zeroize::Zeroize;

type Res<T> = Result<T, String>;
fn s(v: &Value) -> &str {
    v.as_str().unwrap_or("")
}
fn ix(v: &Value) -> usize {
    v.as_u64().unwrap() as usize - 1
}
/// Contents of named values: at every position the values differ, and no byte is zero.
pub struct Vals {
    base: Vec<u8>,
    names: Vec<String>,
}
impl Vals {
    pub fn new(r: &mut StdRng) -> Self {
        Vals { base: rbytes(r, 1 << 16), names: vec![] }
    }
    pub fn bytes(&mut self, name: &str, len: usize) -> Vec<u8> {
        if name == "zero" {
            return vec![0; len];
        }
        let j = match self.names.iter().position(|n| n == name) {
            Some(j) => j,
            None => {
                self.names.push(name.into());
                self.names.len() - 1
            }
        };
        (0..len).map(|i| ((self.base[i % self.base.len()] as usize + 61 * j) % 251 + 1) as u8).collect()
    }
}

pub trait Elem: Bytes + Eq + Debug + serde::Serialize + serde::de::DeserializeOwned + Send + Sync + 'static {
    fn of(b: u8) -> Self;
}
impl Elem for u8 {
    fn of(b: u8) -> Self {
        b
    }
}
impl Elem for u32 {
    fn of(b: u8) -> Self {
        b as u32 * 0x01010101
    }
}
impl Elem for u64 {
    fn of(b: u8) -> Self {
        b as u64 * 0x0101010101010101
    }
}
enum Br<T: Elem> {
    R(Ref<'static, T>),
    W(RefMut<'static, T>),
}
impl<T: Elem> Br<T> {
    fn get(&self) -> &[T] {
        match self {
            Br::R(r) => r,
            Br::W(w) => w,
        }
    }
}
pub struct GMem<T: Elem> {
    // borrows are dropped before the buffers
    brs: Vec<Option<Br<T>>>,
    bufs: Vec<Option<Box<Buffer<T>>>>,
    addr: Vec<Option<usize>>,
    rnd: HashMap<String, Vec<T>>,
    vals: Vals,
    r: StdRng,
    ops: BTreeMap<String, (u64, u64)>,
    steps: u64,
    compares: u64,
    probes: u64,
}
impl<T: Elem> GMem<T> {
    pub fn new(seed: u64) -> Self {
        let mut r = StdRng::seed_from_u64(seed);
        shim::watch(true);
        GMem { brs: vec![], bufs: vec![], addr: vec![], rnd: HashMap::new(), vals: Vals::new(&mut r), r, ops: BTreeMap::new(), steps: 0, compares: 0, probes: 0 }
    }
    fn content(&mut self, v: &Value, len: usize) -> Vec<T> {
        self.vals.bytes(s(v), len).into_iter().map(T::of).collect()
    }
    fn buf(&self, v: &Value) -> &'static Buffer<T> {
        let b: &Buffer<T> = self.bufs[ix(v)].as_ref().unwrap();
        unsafe { transmute(b) }
    }
    fn buf_mut(&mut self, v: &Value) -> &'static mut Buffer<T> {
        let b: &mut Buffer<T> = self.bufs[ix(v)].as_mut().unwrap();
        unsafe { transmute(b) }
    }
    fn add(&mut self, b: Buffer<T>) {
        let want = b.size();
        let c: Vec<usize> = shim::allocs().into_iter().filter(|x| x.1 == want && want > 0).map(|x| x.0).collect();
        self.addr.push(if c.len() == 1 { Some(c[0]) } else { None });
        self.bufs.push(Some(Box::new(b)));
    }
    fn step(&mut self, op: &Value, res: &Value) -> Res<()> {
        shim::allocs();
        let len = op["len"].as_u64().unwrap_or(0) as usize;
        let k = s(&op["k"]).to_string();
        match k.as_str() {
            "alloc" => {
                let c = self.content(&op["val"], len);
                self.add(Buffer::alloc(&c, len))
            }
            "from" => {
                let mut c = self.content(&op["val"], len);
                let b = Buffer::from(&mut c[..]);
                if len > 0 && c.iter().any(|x| *x != T::of(0)) {
                    return Err("the source of a transfer still holds the data".into());
                }
                self.add(b)
            }
            "zero" => self.add(Buffer::zero(len)),
            "random" => self.add(Buffer::random(len)),
            "clone" => {
                let b = self.buf(&op["b"]).clone();
                self.add(b)
            }
            "serde" => {
                let x = bincode::serialize(self.buf(&op["b"])).map_err(|e| e.to_string())?;
                let b: Buffer<T> = bincode::deserialize(&x).map_err(|e| e.to_string())?;
                self.add(b)
            }
            "debug" => {
                let t = format!("{:?}", self.buf(&op["b"]));
                if t != DEBUG_MSG {
                    return Err(format!("debug output {t}"));
                }
            }
            "borrow" => {
                let b = self.buf(&op["b"]);
                let r = if self.r.gen_bool(0.1) { std::thread::scope(|sc| sc.spawn(|| b.borrow()).join().map_err(|p| panic_text(&p)))? } else { b.borrow() };
                self.brs.push(Some(Br::R(r)));
            }
            "borrowmut" => {
                let w = self.buf_mut(&op["b"]).borrow_mut();
                self.brs.push(Some(Br::W(w)));
            }
            "refclone" => {
                let c = match &self.brs[ix(&op["r"])] {
                    Some(Br::R(r)) => r.clone(),
                    _ => return Err("harness".into()),
                };
                self.brs.push(Some(Br::R(c)));
            }
            "dropref" => {
                let x = self.brs[ix(&op["r"])].take();
                if self.r.gen_bool(0.1) {
                    std::thread::scope(|sc| sc.spawn(move || drop(x)).join().map_err(|p| panic_text(&p)))?
                } else {
                    drop(x)
                }
            }
            "write" => {
                let n = self.brs[ix(&op["r"])].as_ref().unwrap().get().len();
                let c = self.content(&op["val"], n);
                match &mut self.brs[ix(&op["r"])] {
                    Some(Br::W(w)) => w.copy_from_slice(&c),
                    _ => return Err("harness".into()),
                }
            }
            "eq" => {
                let e = self.buf(&op["b"]) == self.buf(&op["c"]);
                if json!(e) != res["v"] {
                    return Err(format!("equality gave {e}"));
                }
            }
            "refeq" => {
                let (a, b) = (self.brs[ix(&op["r"])].as_ref().unwrap(), self.brs[ix(&op["q"])].as_ref().unwrap());
                let e = match (a, b) {
                    (Br::R(a), Br::R(b)) => a == b,
                    (Br::R(a), Br::W(b)) => a == b,
                    (Br::W(a), Br::R(b)) => a == b,
                    _ => return Err("harness".into()),
                };
                if json!(e) != res["v"] {
                    return Err(format!("equality of borrows gave {e}"));
                }
            }
            "flood" => {
                let want = res["v"].as_u64().unwrap() as usize;
                let b = self.buf(&op["b"]);
                let mut v = vec![];
                for i in 0..=want {
                    match catch_unwind(AssertUnwindSafe(|| b.borrow())) {
                        Ok(r) if i < want => v.push(r),
                        Ok(_) => return Err("more shared borrows than can be counted".into()),
                        Err(_) if i == want => {}
                        Err(p) => return Err(format!("shared borrow {} of {want} refused: {}", i + 1, panic_text(&p))),
                    }
                }
                if v.len() > 1 {
                    // give them back in some order
                    for _ in 0..v.len() {
                        let i = self.r.gen_range(0..v.len());
                        drop(v.swap_remove(i));
                    }
                }
            }
            "wipe" => self.buf_mut(&op["b"]).zeroize(),
            "drop" => drop(self.bufs[ix(&op["b"])].take()),
            k => return Err(format!("harness: no operation {k}")),
        }
        self.ops.entry(k.clone()).or_default().0 += 1;
        if k == "wipe" {
            if let Some(a) = self.addr[ix(&op["b"])] {
                // the first element, whatever the buffer's length was
                if shim::peek(a, std::mem::size_of::<T>()).iter().any(|x| *x != 0) {
                    return Err("a wiped buffer's memory still holds data".into());
                }
            }
        }
        Ok(())
    }
    fn expected(&mut self, b: &Value) -> Res<Option<Vec<T>>> {
        let len = b["len"].as_u64().unwrap() as usize;
        if s(&b["val"]).starts_with("rnd") {
            let key = b["val"].to_string();
            return Ok(self.rnd.get(&key).map(|x| x[..len.min(x.len())].to_vec()));
        }
        Ok(Some(self.content(&b["val"], len)))
    }
    fn compare(&mut self, st: &Value, last: bool) -> Res<()> {
        let none = vec![];
        let bufs = st["bufs"].as_array().unwrap_or(&none);
        let brs = st["brs"].as_array().unwrap_or(&none);
        self.compares += 1;
        for (i, r) in brs.iter().enumerate().filter(|x| x.1["live"] == true) {
            let b = ix(&r["b"]);
            let want = self.expected(&bufs[b])?;
            let got = self.brs[i].as_ref().ok_or("harness: borrow")?.get().to_vec();
            if !got.is_empty() {
                self.addr[b] = Some(self.brs[i].as_ref().unwrap().get().as_ptr() as usize);
            }
            match want {
                Some(w) if w == got => {}
                Some(_) => return Err(format!("borrow {} of buffer {} does not read the data stored", i + 1, b + 1)),
                None => {
                    if got.len() as u64 != bufs[b]["len"].as_u64().unwrap() || (got.len() * T::size() >= 8 && got.iter().all(|x| *x == T::of(0))) {
                        return Err("a random buffer has the wrong length or is zero".into());
                    }
                    if !got.is_empty() {
                        self.rnd.insert(bufs[b]["val"].to_string(), got);
                    }
                }
            }
        }
        for (i, b) in bufs.iter().enumerate().filter(|x| x.1["live"] == true) {
            let len = b["len"].as_u64().unwrap() as usize;
            let buf = self.bufs[i].as_ref().ok_or("harness: buffer")?;
            if buf.len() != len || buf.is_empty() != (len == 0) || buf.size() != len * T::size() {
                return Err(format!("buffer {} reports length {} and size {}", i + 1, buf.len(), buf.size()));
            }
            if len > 0 {
                if let Some(a) = self.addr[i] {
                    self.probes += 1;
                    let (rd, wr) = (shim::readable(a, len * T::size()), shim::writable(a, len * T::size()));
                    let want = match s(&b["prot"]) {
                        "none" => (false, false),
                        "r" => (true, false),
                        _ => (true, true),
                    };
                    if (rd, wr) != want {
                        return Err(format!("memory of buffer {} (borrows: {}) is readable: {rd}, writable: {wr}", i + 1, s(&b["prot"])));
                    }
                }
            }
            if s(&b["prot"]) == "none" && (last || self.r.gen_bool(0.1)) {
                let want = self.expected(b)?;
                let buf = self.bufs[i].as_ref().unwrap();
                let got = buf.borrow().to_vec();
                match want {
                    Some(w) if w != got => return Err(format!("buffer {} does not hold the data stored", i + 1)),
                    _ => {}
                }
            }
        }
        if shim::UNWIPED.load(std::sync::atomic::Ordering::SeqCst) > 0 {
            return Err("guarded memory was released with data in it".into());
        }
        Ok(())
    }
}
/// Runs the steps of a behaviour; comparisons only where a state is recorded.
fn drive<M>(m: &mut M, beh: &Value, step: impl Fn(&mut M, &Value, &Value) -> Res<()>, cmp: impl Fn(&mut M, &Value, bool) -> Res<()>, key: &str) -> Result<(), (usize, String)> {
    let steps = beh["steps"].as_array().unwrap();
    for (i, x) in steps.iter().enumerate() {
        let r = catch_unwind(AssertUnwindSafe(|| {
            step(m, &x["op"], &x["res"])?;
            if x["st"].get(key).is_some() {
                cmp(m, &x["st"], i + 1 == steps.len())?
            }
            Ok(())
        }));
        match r {
            Err(p) => return Err((i, format!("panic: {}", panic_text(&p)))),
            Ok(Err(e)) => return Err((i, e)),
            Ok(Ok(())) => {}
        }
    }
    Ok(())
}
impl<T: Elem> Machine for GMem<T> {
    fn run(&mut self, beh: &Value) -> Result<(), (usize, String)> {
        self.steps += beh["steps"].as_array().unwrap().len() as u64;
        drive(self, beh, Self::step, Self::compare, "bufs")
    }
    fn stats(&self) -> Value {
        json!({"ops": self.ops, "counts": {"steps": self.steps, "compares": self.compares, "page_probes": self.probes}})
    }
}

// ---------------------------------------------------------------------------------------------
enum Mem {
    Ram(RamMemory),
    File(FileMemory),
    Nc(NonContiguousMemory),
    Frag(Frag<[u8; 32]>, Frag<[u8; 32]>),
}
pub struct LMem {
    mems: Vec<Option<Mem>>,
    shards: Vec<Vec<Vec<u8>>>,
    addr: Vec<Option<(usize, usize)>>,
    partner: Vec<Vec<u8>>,
    vals: Vals,
    dir: PathBuf,
    keep: PathBuf,
    known: BTreeMap<String, (u64, Vec<u8>)>, // file -> (number of kept link, content)
    nlink: u64,
    r: StdRng,
    ops: BTreeMap<String, (u64, u64)>,
    steps: u64,
    compares: u64,
    files: u64,
}
fn nc(kind: &str) -> NCConfig {
    match kind {
        "nc.ram" => NCConfig::FullRam,
        "nc.file" => NCConfig::FullFile,
        "nc.mixed" => NCConfig::RamAndFile,
        "nc.map" => NCConfig::FragAllocation(FragStrategy::Map),
        "nc.direct" => NCConfig::FragAllocation(FragStrategy::Direct),
        _ => NCConfig::FragAllocation(FragStrategy::Hybrid),
    }
}
fn strat(kind: &str) -> FragStrategy {
    match kind {
        "frag.map" => FragStrategy::Map,
        "frag.direct" => FragStrategy::Direct,
        _ => FragStrategy::Hybrid,
    }
}
impl LMem {
    pub fn new(seed: u64, dir: &std::path::Path) -> Self {
        let mut r = StdRng::seed_from_u64(seed);
        let data = PathBuf::from(std::env::var("XDG_DATA_HOME").unwrap()).join(".locked_memories");
        let _ = std::fs::remove_dir_all(&data);
        let _ = std::fs::remove_dir_all(dir);
        std::fs::create_dir_all(dir).unwrap();
        shim::watch(true);
        LMem { mems: vec![], shards: vec![], addr: vec![], partner: vec![], vals: Vals::new(&mut r), dir: data, keep: dir.to_path_buf(),
            known: BTreeMap::new(), nlink: 0, r, ops: BTreeMap::new(), steps: 0, compares: 0, files: 0 }
    }
    #[cfg(vp_hooks)]
    fn shards_of(m: &NonContiguousMemory) -> Result<(Vec<u8>, Vec<u8>), MemoryError> {
        m.vp_shards()
    }
    #[cfg(not(vp_hooks))]
    fn shards_of(_: &NonContiguousMemory) -> Result<(Vec<u8>, Vec<u8>), MemoryError> {
        Err(MemoryError::IllegalZeroizedUsage)
    }
    fn alloc(&mut self, kind: &str, v: &[u8], len: usize) -> Result<Mem, MemoryError> {
        Ok(match kind {
            "ram" => Mem::Ram(RamMemory::alloc(v, len)?),
            "file" => Mem::File(FileMemory::alloc(v, len)?),
            k if k.starts_with("nc.") => {
                // a size that is not supported comes with a payload of that size
                Mem::Nc(NonContiguousMemory::alloc(v, len, nc(k))?)
            }
            k => {
                let p = rbytes(&mut self.r, 32);
                let (a, b) = Frag::alloc_initialized(strat(k), <[u8; 32]>::try_from(v).unwrap(), <[u8; 32]>::try_from(&p[..]).unwrap())?;
                self.partner.resize(self.mems.len() + 1, vec![]);
                self.partner[self.mems.len()] = p;
                Mem::Frag(a, b)
            }
        })
    }
    fn add(&mut self, m: Mem, len: usize) {
        let c: Vec<_> = shim::allocs().into_iter().filter(|x| x.1 == len).collect();
        self.addr.push(match &m {
            Mem::Ram(_) if c.len() == 1 => Some(c[0]),
            Mem::Frag(a, _) => a.get().ok().map(|x| (x.as_ptr() as usize, 32)),
            _ => None,
        });
        self.shards.push(vec![]);
        self.partner.resize(self.mems.len() + 1, vec![]);
        self.mems.push(Some(m));
    }
    fn step(&mut self, op: &Value, res: &Value) -> Res<()> {
        shim::allocs();
        let len = op["len"].as_u64().unwrap_or(0) as usize;
        let want = res["ok"] == true;
        let k = s(&op["k"]).to_string();
        let v = op["val"].as_str().map(|x| x.to_string()).map(|x| self.vals.bytes(&x, len)).unwrap_or_default();
        let check = |r: Result<(), String>| -> Res<bool> {
            match (r, want) {
                (Ok(()), true) => Ok(true),
                (Err(_), false) => Ok(false),
                (Ok(()), false) => Err("succeeded, but must fail".into()),
                (Err(e), true) => Err(format!("failed: {e}")),
            }
        };
        self.link_files()?;
        let mut okay = want;
        match k.as_str() {
            "alloc" => {
                let r = self.alloc(s(&op["kind"]), &v, len);
                okay = match r {
                    Ok(m) => {
                        self.add(m, len);
                        check(Ok(()))?
                    }
                    Err(e) => check(Err(e.to_string()))?,
                };
            }
            "unlock" => {
                let i = ix(&op["m"]);
                let r: Result<Vec<u8>, String> = match self.mems[i].as_ref().unwrap() {
                    Mem::Ram(m) => m.unlock().map(|b| b.borrow().to_vec()).map_err(|e| e.to_string()),
                    Mem::File(m) => m.unlock().map(|b| b.borrow().to_vec()).map_err(|e| e.to_string()),
                    Mem::Nc(m) => m.unlock().map(|b| b.borrow().to_vec()).map_err(|e| e.to_string()),
                    Mem::Frag(m, n) => {
                        if let Ok(x) = n.get() {
                            if x[..] != self.partner[i][..] {
                                return Err("the second fragment changed".into());
                            }
                        }
                        m.get().map(|b| b.to_vec()).map_err(|e| e.to_string())
                    }
                };
                okay = check(r.clone().map(|_| ()))?;
                if let Ok(b) = r {
                    let w = self.vals.bytes(s(&res["v"][1]), res["v"][2].as_u64().unwrap() as usize);
                    if b != w {
                        return Err("unlocking does not return the bytes stored".into());
                    }
                }
                self.new_shards(i, want)?;
            }
            "refresh" => {
                let i = ix(&op["m"]);
                if let Mem::Nc(m) = self.mems[i].as_ref().unwrap() {
                    okay = check(m.refresh().map_err(|e| e.to_string()))?;
                }
                self.new_shards(i, want)?;
            }
            "clone" => {
                let i = ix(&op["m"]);
                let m = match self.mems[i].as_ref().unwrap() {
                    Mem::Ram(m) => Mem::Ram(m.clone()),
                    Mem::File(m) => Mem::File(m.clone()),
                    Mem::Nc(m) => Mem::Nc(m.clone()),
                    Mem::Frag(m, n) => {
                        let p = self.partner[i].clone();
                        self.partner.resize(self.mems.len() + 1, vec![]);
                        self.partner[self.mems.len()] = p;
                        Mem::Frag(m.clone(), n.clone())
                    }
                };
                let len = self.addr[i].map(|x| x.1).unwrap_or(0);
                self.add(m, len);
            }
            "serde" => {
                let i = ix(&op["m"]);
                let e = |e: Box<bincode::ErrorKind>| e.to_string();
                let m = match self.mems[i].as_ref().unwrap() {
                    Mem::Ram(m) => Mem::Ram(bincode::deserialize(&bincode::serialize(m).map_err(e)?).map_err(e)?),
                    Mem::File(m) => Mem::File(bincode::deserialize(&bincode::serialize(m).map_err(e)?).map_err(e)?),
                    Mem::Nc(m) => Mem::Nc(bincode::deserialize(&bincode::serialize(m).map_err(e)?).map_err(e)?),
                    Mem::Frag(..) => return Err("harness".into()),
                };
                self.add(m, 0);
                self.new_shards(i, true)?;
            }
            "deser" => {
                let b = bincode::serialize(&v).map_err(|e| e.to_string())?;
                let r = match s(&op["kind"]) {
                    "ram" => bincode::deserialize(&b).map(Mem::Ram),
                    "file" => bincode::deserialize(&b).map(Mem::File),
                    _ => bincode::deserialize(&b).map(Mem::Nc),
                };
                okay = match r {
                    Ok(m) => {
                        self.add(m, len);
                        check(Ok(()))?
                    }
                    Err(e) => check(Err(e.to_string()))?,
                };
            }
            "update" => {
                let i = ix(&op["m"]);
                let payload = if len > 0 { Buffer::alloc(&v, len) } else { Buffer::alloc(&[], 0) };
                let r = match self.mems[i].take().unwrap() {
                    Mem::Ram(m) => m.update(payload, len).map(Mem::Ram),
                    Mem::File(m) => m.update(payload, len).map(Mem::File),
                    Mem::Nc(m) => m.update(payload, len).map(Mem::Nc),
                    Mem::Frag(mut m, n) => {
                        let p = self.partner[i].clone();
                        self.partner.resize(self.mems.len() + 1, vec![]);
                        self.partner[self.mems.len()] = p;
                        m.set(<[u8; 32]>::try_from(&v[..]).unwrap()).map(|_| Mem::Frag(m, n))
                    }
                };
                okay = match r {
                    Ok(m) => {
                        self.add(m, len);
                        check(Ok(()))?
                    }
                    Err(e) => check(Err(e.to_string()))?,
                };
            }
            "far" => {
                let r = Frag::<[u8; 32]>::alloc_default(strat(s(&op["kind"])), 1 << 60);
                okay = check(r.map(|_| ()).map_err(|e| e.to_string()))?;
            }
            "debug" => {
                let t = match self.mems[ix(&op["m"])].as_ref().unwrap() {
                    Mem::Ram(m) => format!("{m:?}"),
                    Mem::File(m) => format!("{m:?}"),
                    Mem::Nc(m) => format!("{m:?}"),
                    Mem::Frag(..) => DEBUG_MSG.to_string(),
                };
                if t != DEBUG_MSG {
                    return Err(format!("debug output {t}"));
                }
            }
            "wipe" => {
                let i = ix(&op["m"]);
                match self.mems[i].as_mut().unwrap() {
                    Mem::Ram(m) => {
                        m.zeroize();
                        if let Some((a, n)) = self.addr[i] {
                            if shim::peek(a, n).iter().any(|x| *x != 0) {
                                return Err("cleared memory still holds the secret".into());
                            }
                        }
                    }
                    Mem::File(m) => m.zeroize(),
                    Mem::Nc(m) => {
                        m.zeroize();
                        if Self::shards_of(m).is_ok() {
                            return Err("the shards of a cleared memory can still be obtained".into());
                        }
                    }
                    Mem::Frag(m, n) => {
                        m.zeroize();
                        n.zeroize();
                        let (a, k) = self.addr[i].unwrap_or((0, 0));
                        if k > 0 && shim::readable(a, k) && unsafe { std::slice::from_raw_parts(a as *const u8, k) }.iter().any(|x| *x != 0) {
                            return Err("a cleared fragment still holds the secret".into());
                        }
                    }
                }
            }
            "drop" => drop(self.mems[ix(&op["m"])].take()),
            k => return Err(format!("harness: no operation {k}")),
        }
        let e = self.ops.entry(k).or_default();
        if okay {
            e.0 += 1
        } else {
            e.1 += 1
        }
        Ok(())
    }
    /// A re-split gave shards that differ from all earlier ones and from the secret.
    fn new_shards(&mut self, i: usize, changed: bool) -> Res<()> {
        let sh = match self.mems[i].as_ref().unwrap() {
            Mem::Nc(m) => Self::shards_of(m),
            _ => return Ok(()),
        };
        if let (Ok((a, b)), true) = (sh, changed) {
            if self.shards[i].contains(&a) || self.shards[i].contains(&b) || a == b {
                return Err("a re-split left a shard as it was".into());
            }
            self.shards[i].push(a);
            self.shards[i].push(b);
        }
        Ok(())
    }
    fn list(&self) -> Vec<String> {
        std::fs::read_dir(&self.dir).map(|d| d.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect()).unwrap_or_default()
    }
    /// Keeps a second name for every file, to see what becomes of its content.
    fn link_files(&mut self) -> Res<()> {
        for f in self.list() {
            if !self.known.contains_key(&f) {
                self.nlink += 1;
                let (p, k) = (self.dir.join(&f), self.keep.join(format!("k{}", self.nlink)));
                std::fs::hard_link(&p, &k).map_err(|e| format!("harness: link {e}"))?;
                let content = read_any(&k);
                self.known.insert(f, (self.nlink, content));
            }
        }
        Ok(())
    }
    fn compare(&mut self, st: &Value, last: bool) -> Res<()> {
        self.compares += 1;
        let none = vec![];
        let mems = st["mems"].as_array().unwrap_or(&none);
        let files = self.list();
        if files.len() as u64 != st["nfiles"].as_u64().unwrap() {
            return Err(format!("{} files of locked memories, expected {}", files.len(), st["nfiles"]));
        }
        self.link_files()?;
        let secrets: Vec<Vec<u8>> = mems.iter().map(|m| self.vals.bytes(s(&m["val"]), m["len"].as_u64().unwrap() as usize)).collect();
        for f in &files {
            self.files += 1;
            let p = self.dir.join(f);
            let mode = std::fs::metadata(&p).map_err(|e| e.to_string())?.permissions().mode();
            if mode & 0o077 != 0 {
                return Err(format!("file of a locked memory has mode {:o}", mode & 0o777));
            }
            let k = self.keep.join(format!("k{}", self.known[f].0));
            let now = read_any(&k);
            self.known.get_mut(f).unwrap().1 = now.clone();
            for x in secrets.iter().filter(|x| x.len() >= 6) {
                if now.windows(x.len().min(8)).any(|w| x.starts_with(w)) {
                    return Err("a file holds a plain secret".into());
                }
            }
        }
        // files that went: their content is overwritten
        let gone: Vec<String> = self.known.keys().filter(|f| !files.contains(f)).cloned().collect();
        for f in gone {
            let (n, old) = self.known.remove(&f).unwrap();
            let k = self.keep.join(format!("k{n}"));
            let now = read_any(&k);
            let _ = std::fs::remove_file(&k);
            if now.len() < old.len() || now.iter().zip(&old).filter(|(a, b)| a == b && **a != 0).count() * 4 > old.len().max(16) {
                return Err("the file of a dropped or cleared memory was not overwritten".into());
            }
        }
        for (i, m) in mems.iter().enumerate().filter(|x| x.1["st"] != "gone") {
            let mem = self.mems[i].as_ref().ok_or("harness: memory")?;
            if let (Mem::Nc(x), "live") = (mem, s(&m["st"])) {
                if let Ok((a, b)) = Self::shards_of(x) {
                    if a == secrets[i] || b == secrets[i] {
                        return Err("a shard equals the secret".into());
                    }
                }
            }
            if last {
                let r: Result<Vec<u8>, String> = match mem {
                    Mem::Ram(m) => m.unlock().map(|b| b.borrow().to_vec()).map_err(|e| e.to_string()),
                    Mem::File(m) => m.unlock().map(|b| b.borrow().to_vec()).map_err(|e| e.to_string()),
                    Mem::Nc(m) => m.unlock().map(|b| b.borrow().to_vec()).map_err(|e| e.to_string()),
                    Mem::Frag(m, _) => m.get().map(|b| b.to_vec()).map_err(|e| e.to_string()),
                };
                match (s(&m["st"]), r) {
                    ("live", Ok(b)) if b == secrets[i] => {}
                    ("live", Ok(_)) => return Err(format!("memory {} does not return the bytes stored", i + 1)),
                    ("live", Err(e)) => return Err(format!("memory {} cannot be unlocked: {e}", i + 1)),
                    (_, Ok(_)) => return Err(format!("cleared memory {} can be unlocked", i + 1)),
                    _ => {}
                }
            }
        }
        if last {
            for m in self.mems.iter_mut() {
                drop(m.take());
            }
            if !self.list().is_empty() {
                return Err("files are left behind when all memories are dropped".into());
            }
        }
        if shim::UNWIPED.load(std::sync::atomic::Ordering::SeqCst) > 0 {
            return Err("guarded memory was released with data in it".into());
        }
        Ok(())
    }
}
/// Reads a file through a name of ours whatever its mode, leaving the mode as it was.
fn read_any(p: &std::path::Path) -> Vec<u8> {
    if let Ok(x) = std::fs::read(p) {
        return x;
    }
    let mode = std::fs::metadata(p).map(|m| m.permissions().mode()).unwrap_or(0);
    let _ = std::fs::set_permissions(p, std::fs::Permissions::from_mode(0o600));
    let x = std::fs::read(p).unwrap_or_default();
    let _ = std::fs::set_permissions(p, std::fs::Permissions::from_mode(mode));
    x
}
impl Drop for LMem {
    fn drop(&mut self) {
        self.mems.clear();
        let _ = std::fs::remove_dir_all(&self.dir);
        let _ = std::fs::remove_dir_all(&self.keep);
    }
}
impl Machine for LMem {
    fn run(&mut self, beh: &Value) -> Result<(), (usize, String)> {
        self.steps += beh["steps"].as_array().unwrap().len() as u64;
        drive(self, beh, Self::step, Self::compare, "mems")
    }
    fn stats(&self) -> Value {
        json!({"ops": self.ops, "counts": {"steps": self.steps, "compares": self.compares, "files_checked": self.files}})
    }
}
