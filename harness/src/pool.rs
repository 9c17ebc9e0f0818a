//! Behaviours are replayed by worker processes, so that an abort or a deadlock of the code under
//! test is noticed and attributed to the behaviour that caused it.
use crate::replay::*;
use serde_json::{json, Value};
use std::{
    collections::BTreeMap,
    fs,
    io::{BufRead, BufReader, Write},
    path::{Path, PathBuf},
    process::{Command, Stdio},
    time::{Duration, Instant},
};

/// A line of behaviours: TLC writes a JSON text as a TLA+ string.
pub fn parse_line(l: &str) -> Value {
    let v: Value = serde_json::from_str(l).expect("behaviour line");
    match v {
        Value::String(s) => serde_json::from_str(&s).expect("behaviour"),
        v => v,
    }
}
/// A transition [path, op, res, st] becomes a behaviour whose path is performed unchecked.
pub fn behaviour(v: Value) -> Value {
    if v.get("steps").is_some() || v.get("threads").is_some() {
        return v;
    }
    let mut steps: Vec<Value> = v["path"].as_array().unwrap().clone();
    steps.push(json!({"op": v["op"], "res": v["res"], "st": v["st"]}));
    json!({ "steps": steps })
}
pub fn beh_seed(seed: u64, i: usize) -> u64 {
    seed.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(i as u64 * 2654435761)
}

/// What replays behaviours of one specification on the code.
pub trait Machine {
    /// Runs a whole behaviour. Err((step, message)).
    fn run(&mut self, beh: &Value) -> Result<(), (usize, String)>;
    /// {"counts": {..}, "ops": {label: [succeeded, failed]}}
    fn stats(&self) -> Value;
}
impl Machine for World {
    fn run(&mut self, beh: &Value) -> Result<(), (usize, String)> {
        World::run(self, beh)
    }
    fn stats(&self) -> Value {
        let st = &self.stats;
        json!({"ops": st.ops, "counts": {"steps": st.steps, "compares": st.compares, "skipped": st.skipped,
            "files": st.files_checked, "absent": st.loadf_absent, "cut": st.cut}})
    }
}
pub fn machine(params: &Value, seed: u64, dir: &Path) -> Box<dyn Machine> {
    match params["machine"].as_str().unwrap_or("session") {
        "session" => Box::new(World::new(params, seed, dir)),
        "gmem" => match seed % 4 {
            0 => Box::new(crate::mem::GMem::<u64>::new(seed)),
            1 => Box::new(crate::mem::GMem::<u32>::new(seed)),
            _ => Box::new(crate::mem::GMem::<u8>::new(seed)),
        },
        "lmem" => Box::new(crate::mem::LMem::new(seed, dir)),
        "mconc" => Box::new(crate::mconc::MConc::new(params, seed, dir)),
        "rlu" => Box::new(crate::rlu::Rlu::new(params, seed)),
        "lin" => Box::new(crate::lin::Lin::new(params, seed, dir)),
        "commit" => Box::new(crate::commit::Commit::new(params, seed, dir)),
        "lz4" => Box::new(crate::lz4::Lz4::new(params, seed, dir)),
        "forged" => Box::new(crate::forged::Forged::new(params, seed, dir)),
        "keys" => Box::new(crate::keys::Keys::new(seed, dir)),
        "names" => Box::new(crate::names::Names::new(params, seed, dir)),
        "atrest" => Box::new(crate::atrest::AtRest::new(params, seed, dir)),
        "snapfile" => Box::new(crate::snapfile::SnapFile::new(params, seed, dir)),
        "db" => Box::new(crate::db::Db::new(params, seed)),
        "snapsync" => Box::new(crate::snapsync::Sync::new(params, seed, dir)),
        "stm" => Box::new(crate::stm::StmMachine::new(params, seed)),
        m => panic!("no machine {m}"),
    }
}

fn quiet() {
    std::panic::set_hook(Box::new(|_| {}));
}

/// PARAMS BEHAVIOURS SCRATCH SEED INDEX COUNT START LIMIT: lines i with i % COUNT = INDEX, i >= START
pub fn replay_worker(a: &[String]) -> i32 {
    quiet();
    let params: Value = serde_json::from_str(&fs::read_to_string(&a[0]).unwrap()).unwrap();
    let scratch = PathBuf::from(&a[2]);
    let seed: u64 = a[3].parse().unwrap();
    let (idx, cnt, start): (usize, usize, usize) = (a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap());
    // most workers do without page protection: other checks look at it, and it takes most of the time
    let m = params["machine"].as_str().unwrap_or("session");
    let fast = match (m, params["mode"].as_str()) {
        ("lin", Some("dfs" | "random")) => true,
        ("session" | "db" | "snapsync" | "names" | "atrest" | "snapfile" | "lz4" | "keys" | "forged", _) => idx % 4 != 0,
        _ => false,
    };
    crate::shim::FAST.store(fast, std::sync::atomic::Ordering::SeqCst);
    let until = Instant::now() + Duration::from_secs_f64(a[7].parse().unwrap());
    let mut out = std::io::stdout().lock();
    let mut bad = 0;
    for (i, l) in BufReader::new(fs::File::open(&a[1]).unwrap()).lines().enumerate() {
        if i % cnt != idx || i < start {
            continue;
        }
        if Instant::now() > until {
            writeln!(out, "{}", json!({"timeup": i})).unwrap();
            break;
        }
        let b = behaviour(parse_line(&l.unwrap()));
        writeln!(out, "{}", json!({"start": i})).unwrap();
        out.flush().unwrap();
        let mut w = machine(&params, beh_seed(seed, i), &scratch.join(format!("b{idx}")));
        let r = w.run(&b);
        let mut line = w.stats();
        line["done"] = json!(i);
        if let Err((step, e)) = r {
            line["step"] = json!(step);
            line["error"] = json!(e);
            bad += 1;
        }
        drop(w);
        writeln!(out, "{line}").unwrap();
        out.flush().unwrap();
        if bad > 2 {
            break;
        }
    }
    0
}

/// PARAMS BEHAVIOURFILE SEED: one behaviour, verbosely.
pub fn one(a: &[String]) -> i32 {
    let f: Value = serde_json::from_str(&fs::read_to_string(&a[0]).unwrap()).unwrap();
    let dir = std::env::temp_dir().join(format!("vh-one-{}", std::process::id()));
    std::env::set_var("STRONGHOLD", &dir);
    let mut w = machine(&f["params"], f["seed"].as_u64().unwrap(), &dir.join("w"));
    let r = w.run(&f["behaviour"]);
    drop(w);
    let _ = fs::remove_dir_all(&dir);
    match r {
        Ok(()) => {
            println!("the behaviour is followed");
            0
        }
        Err((i, e)) => {
            let op = f["behaviour"]["steps"].get(i).map(|x| x["op"].clone()).unwrap_or_default();
            println!("step {i}: {op}\n{e}");
            1
        }
    }
}

/// PARAMS BEHAVIOURS RESULT REPLAYDIR PROP SEED LIMIT
pub fn parent(a: &[String], cmd: &str) -> i32 {
    let params: Value = serde_json::from_str(&fs::read_to_string(&a[0]).unwrap()).unwrap();
    let prop = &a[4];
    let seed: u64 = a[5].parse().unwrap();
    let limit: f64 = a[6].parse().unwrap();
    let jobs = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
    let scratch = std::env::temp_dir().join(format!("vh-{}-{}", prop, std::process::id()));
    fs::create_dir_all(&scratch).unwrap();
    let stall = Duration::from_secs(90);
    let t0 = Instant::now();
    let handles: Vec<_> = (0..jobs)
        .map(|idx| {
            let a: Vec<String> = a.to_vec();
            let scratch = scratch.clone();
            let cmd = cmd.to_string();
            std::thread::spawn(move || {
                let mut lines: Vec<Value> = vec![];
                let mut fails: Vec<(usize, i64, String)> = vec![];
                let mut start = 0usize;
                loop {
                    let home = scratch.join(format!("home{idx}"));
                    fs::create_dir_all(&home).unwrap();
                    let left = limit - t0.elapsed().as_secs_f64();
                    let mut ch = Command::new(std::env::current_exe().unwrap())
                        .args([&cmd, &a[0], &a[1], scratch.to_str().unwrap(), &a[5]])
                        .args([idx.to_string(), jobs.to_string(), start.to_string(), left.max(0.1).to_string()])
                        .env("STRONGHOLD", &home)
                        .env("XDG_DATA_HOME", &home)
                        .env("HOME", &home)
                        .stdout(Stdio::piped())
                        .stderr(Stdio::null())
                        .spawn()
                        .unwrap();
                    let (tx, rx) = std::sync::mpsc::channel();
                    let so = ch.stdout.take().unwrap();
                    std::thread::spawn(move || {
                        for l in BufReader::new(so).lines().map_while(Result::ok) {
                            let _ = tx.send(l);
                        }
                    });
                    let mut cur: Option<usize> = None;
                    let mut hung = false;
                    loop {
                        match rx.recv_timeout(stall) {
                            Ok(l) => {
                                let v: Value = serde_json::from_str(&l).unwrap();
                                if let Some(i) = v["start"].as_u64() {
                                    cur = Some(i as usize)
                                } else if let Some(i) = v["done"].as_u64() {
                                    cur = None;
                                    if let Some(e) = v["error"].as_str() {
                                        fails.push((i as usize, v["step"].as_i64().unwrap(), e.to_string()));
                                    }
                                    lines.push(v);
                                }
                            }
                            Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {
                                hung = true;
                                let _ = ch.kill();
                                break;
                            }
                            Err(_) => break,
                        }
                    }
                    let st = ch.wait().unwrap();
                    match cur {
                        None => {
                            if !st.success() && !hung {
                                fails.push((usize::MAX, -1, format!("worker ended with {st}")));
                            }
                            break;
                        }
                        Some(i) => {
                            fails.push((
                                i,
                                -1,
                                if hung { "no progress for 90 s (deadlock)".into() } else { format!("the process died: {st}") },
                            ));
                            start = i + 1;
                            if fails.len() > 3 {
                                break;
                            }
                        }
                    }
                }
                (lines, fails)
            })
        })
        .collect();
    let mut tot: BTreeMap<String, u64> = BTreeMap::new();
    let mut ops: BTreeMap<String, (u64, u64)> = BTreeMap::new();
    let mut fails = vec![];
    let mut n = 0u64;
    for h in handles {
        let (lines, f) = h.join().unwrap();
        fails.extend(f);
        for v in lines {
            n += 1;
            for (k, x) in v["counts"].as_object().unwrap() {
                let e = tot.entry(k.clone()).or_default();
                let x = x.as_u64().unwrap();
                *e = if k.starts_with("most") { x.max(*e) } else { *e + x };
            }
            for (k, x) in v["ops"].as_object().unwrap() {
                let e = ops.entry(k.clone()).or_default();
                e.0 += x[0].as_u64().unwrap();
                e.1 += x[1].as_u64().unwrap();
            }
        }
    }
    let _ = fs::remove_dir_all(&scratch);
    fails.sort();
    let mut replays = vec![];
    if !fails.is_empty() {
        fs::create_dir_all(&a[3]).unwrap();
        let lines: Vec<String> = BufReader::new(fs::File::open(&a[1]).unwrap()).lines().map(|l| l.unwrap()).collect();
        for (i, step, e) in fails.iter().take(5) {
            let p = Path::new(&a[3]).join(format!("{prop}-{}-{i}.json", seed));
            let b = lines.get(*i).map(|l| behaviour(parse_line(l)));
            let failing = b.as_ref().map(|b| b["steps"].get((*step).max(0) as usize).map(|x| x["op"].clone()).unwrap_or_default());
            fs::write(
                &p,
                serde_json::to_string(&json!({"property": prop, "error": e, "step": step, "op": failing, "params": params,
                    "seed": beh_seed(seed, *i), "behaviour": b,
                    "how": "vh one THIS_FILE replays the behaviour on the code"}))
                .unwrap(),
            )
            .unwrap();
            replays.push(json!({"replay": p, "step": step, "error": e, "op": failing}));
        }
    }
    let result = json!({"behaviours": n, "totals": tot, "ops": ops, "failures": fails.len(), "replays": replays,
        "wall_s": t0.elapsed().as_secs_f64()});
    fs::write(&a[2], serde_json::to_string_pretty(&result).unwrap()).unwrap();
    if fails.is_empty() {
        0
    } else {
        1
    }
}
