//! Replays behaviours of Lz4.tla: blocks and what they stand for, through the codec, snapshot files and stores.
use crate::{pool::Machine, replay::panic_text};
use engine::snapshot::{compress, decompress, read_from, write_to};
use iota_stronghold::{KeyProvider, SnapshotPath, Stronghold};
use rand::{rngs::StdRng, Rng, RngCore, SeedableRng};
use serde_json::{json, Value};
use std::{
    collections::BTreeMap,
    fs,
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
};

fn n(v: &Value) -> usize {
    v.as_u64().unwrap() as usize
}
fn b(v: &Value) -> Vec<u8> {
    v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect()).unwrap_or_default()
}
pub struct Lz4 {
    dir: PathBuf,
    r: StdRng,
    counts: BTreeMap<String, u64>,
    ops: BTreeMap<String, (u64, u64)>,
}
impl Lz4 {
    pub fn new(_params: &Value, seed: u64, dir: &Path) -> Self {
        fs::create_dir_all(dir).unwrap();
        Lz4 { dir: dir.to_path_buf(), r: StdRng::seed_from_u64(seed), counts: BTreeMap::new(), ops: BTreeMap::new() }
    }
    fn count(&mut self, k: &str, x: u64) {
        *self.counts.entry(k.into()).or_default() += x;
    }
    /// Runs the decoder; None if it refuses.
    fn dec(block: &[u8]) -> Result<Option<Vec<u8>>, String> {
        catch_unwind(AssertUnwindSafe(|| decompress(block).ok())).map_err(|e| format!("the decoder panicked: {}", panic_text(&e)))
    }
    fn pack(p: &[u8]) -> Result<Vec<u8>, String> {
        catch_unwind(AssertUnwindSafe(|| compress(p))).map_err(|e| format!("the encoder panicked: {}", panic_text(&e)))
    }
    fn same(what: &str, got: Option<Vec<u8>>, want: Option<&[u8]>) -> Result<(), String> {
        match (got, want) {
            (None, None) => Ok(()),
            (Some(g), Some(w)) if g == w => Ok(()),
            (Some(g), Some(w)) => {
                let at = g.iter().zip(w).take_while(|(a, b)| a == b).count();
                Err(format!("{what}: {} bytes instead of {}, equal up to {at}", g.len(), w.len()))
            }
            (Some(g), None) => Err(format!("{what}: accepted, {} bytes", g.len())),
            (None, Some(w)) => Err(format!("{what}: refused, {} bytes expected", w.len())),
        }
    }
    fn go(&mut self, beh: &Value, at: &mut usize) -> Result<(), String> {
        let items: Vec<&Value> = beh["steps"].as_array().unwrap().iter().map(|s| &s["op"]).collect();
        let plain = beh["plain"].as_bool().unwrap();
        let written = beh["written"].as_bool().unwrap();
        let valid = beh["valid"].as_bool().unwrap();
        // what the items stand for; ends.0 after the literals, ends.1 after the copy
        let (mut out, mut block, mut ends) = (vec![], vec![], vec![]);
        for (i, it) in items.iter().enumerate() {
            *at = i;
            let mut lits = vec![0u8; n(&it["lit"])];
            self.r.fill_bytes(&mut lits);
            block.extend(b(&it["h"]));
            block.extend(&lits);
            block.extend(b(&it["t"]));
            out.extend(lits);
            let e0 = out.len();
            let (off, len) = (n(&it["off"]), n(&it["len"]));
            if off >= 1 && off <= out.len() {
                for k in out.len() - off..out.len() - off + len {
                    let x = out[k];
                    out.push(x);
                }
            }
            ends.push((e0, out.len()));
        }
        if written {
            *at = items.len() - 1;
            let want = if valid { Some(&out[..]) } else { None };
            Self::same("decompressing the block", Self::dec(&block)?, want)?;
            self.count("blocks_decoded", 1);
            for c in beh["cuts"].as_array().into_iter().flatten() {
                let (at, r) = (n(&c["c"]), &c["r"]);
                let k = n(&r["items"]);
                let want = r["ok"].as_bool().unwrap().then(|| {
                    if r["lits"].as_bool().unwrap() {
                        &out[..ends[k].0]
                    } else if k == 0 {
                        &out[..0]
                    } else {
                        &out[..ends[k - 1].1]
                    }
                });
                Self::same(&format!("decompressing the first {at} of {} bytes", block.len()), Self::dec(&block[..at])?, want)?;
                self.count("cut_blocks_decoded", 1);
            }
        }
        if !plain {
            return Ok(());
        }
        let z = Self::pack(&out)?;
        Self::same("compressing and decompressing", Self::dec(&z)?, Some(&out))?;
        self.count("plaintexts_compressed", 1);
        self.count("bytes_compressed", out.len() as u64);
        let path = self.dir.join("lz4.file");
        let mut key = [0u8; 32];
        self.r.fill_bytes(&mut key);
        let got = catch_unwind(AssertUnwindSafe(|| {
            write_to(&out, &path, &key, &[]).map_err(|e| e.to_string())?;
            read_from(&path, &key, &[]).map_err(|e| e.to_string())
        }))
        .map_err(|e| format!("a snapshot file of these bytes: panic: {}", panic_text(&e)))?;
        let _ = fs::remove_file(&path);
        let got = got.map_err(|e| format!("a snapshot file of these bytes: {e}"))?;
        Self::same("written to and read from a file", Some(got), Some(&out))?;
        self.count("files_written_and_read", 1);
        if self.r.gen_range(0..4) == 0 {
            self.session(&out)?;
        }
        Ok(())
    }
    /// The bytes as a value of a client's store, committed and loaded.
    fn session(&mut self, out: &[u8]) -> Result<(), String> {
        let path = SnapshotPath::from_path(self.dir.join("lz4.stronghold"));
        let mut key = vec![0u8; 32];
        self.r.fill_bytes(&mut key);
        let k = KeyProvider::try_from(key).unwrap();
        let got = catch_unwind(AssertUnwindSafe(|| -> Result<_, String> {
            let sh = Stronghold::default();
            let c = sh.create_client(b"c").map_err(|e| e.to_string())?;
            c.store().insert(b"k".to_vec(), out.to_vec(), None).map_err(|e| e.to_string())?;
            sh.commit_with_keyprovider(&path, &k).map_err(|e| e.to_string())?;
            let sh = Stronghold::default();
            let c = sh.load_client_from_snapshot(b"c", &k, &path).map_err(|e| e.to_string())?;
            c.store().get(b"k").map_err(|e| e.to_string())
        }))
        .map_err(|e| format!("a store with these bytes, committed and loaded: panic: {}", panic_text(&e)))?;
        let _ = fs::remove_file(path.as_path());
        let got = got.map_err(|e| format!("a store with these bytes, committed and loaded: {e}"))?;
        Self::same("stored, committed and loaded", got, Some(out))?;
        self.count("stores_committed_and_loaded", 1);
        Ok(())
    }
}
impl Machine for Lz4 {
    fn run(&mut self, beh: &Value) -> Result<(), (usize, String)> {
        let mut at = 0;
        let items = beh["steps"].as_array().map_or(0, |a| a.len()) as u64;
        self.ops.entry("item".into()).or_default().0 += items;
        self.go(beh, &mut at).map_err(|e| (at, e))
    }
    fn stats(&self) -> Value {
        let ops: BTreeMap<_, _> = self.ops.iter().map(|(k, v)| (k.clone(), vec![v.0, v.1])).collect();
        json!({"ops": ops, "counts": self.counts})
    }
}
