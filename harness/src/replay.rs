//! Replays behaviours of the specification (MCSession.tla) on the real code and compares answers
//! and states after every step.
use crate::{clock, conc::*};
use iota_stronghold::{
    derive_record_id, derive_record_id_from_counter,
    procedures::*,
    sync::{MergePolicy, SyncClientsConfig},
    Client, ClientError, Location, SnapshotPath, Store, Stronghold,
};
use rand::Rng;
use serde_json::{json, Value};
use std::{
    collections::{BTreeMap, BTreeSet, HashMap},
    panic::{catch_unwind, AssertUnwindSafe},
    path::{Path, PathBuf},
    time::Duration,
};

pub type Res<T> = Result<T, String>;

#[derive(Default)]
pub struct Stats {
    pub steps: u64,
    pub compares: u64,
    pub skipped: u64,
    pub ops: BTreeMap<String, (u64, u64)>,
    pub files_checked: u64,
    pub loadf_absent: u64,
    pub cut: u64,
}

pub struct World {
    pub c: Conc,
    sessions: Vec<Stronghold>,
    handles: Vec<Vec<Client>>,
    stores: Vec<Vec<Store>>,
    dir: PathBuf,
    paths: HashMap<String, SnapshotPath>,
    bytes: HashMap<String, Option<Vec<u8>>>,
    base: i128,
    unit: i128,
    vaults: Vec<String>,
    recs: Vec<String>,
    cpaths: Vec<String>,
    skeys: Vec<String>,
    keys: Vec<String>,
    has_sync: bool,
    seen: Vec<Value>,
    pub stats: Stats,
}

fn strs(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()
}
fn s(v: &Value) -> &str {
    v.as_str().unwrap()
}
/// The entries of a TLA+ function with string domain ({} is written as an empty sequence).
fn fun(v: &Value) -> Vec<(String, Value)> {
    v.as_object().map(|o| o.iter().map(|(k, v)| (k.clone(), v.clone())).collect()).unwrap_or_default()
}
pub fn hex(b: &[u8]) -> String {
    let h: String = b.iter().take(48).map(|x| format!("{x:02x}")).collect();
    if b.len() > 48 {
        format!("{h}..({} bytes)", b.len())
    } else {
        h
    }
}
fn errkind(e: &ClientError) -> &'static str {
    match e {
        ClientError::ClientAlreadyLoaded(_) => "alreadyloaded",
        ClientError::ClientDataNotPresent => "notpresent",
        ClientError::SnapshotFileMissing(_) => "filemissing",
        ClientError::SnapshotKeyLocationMissing => "nokeylocation",
        _ => "other",
    }
}

/// Extract the bytes of a record by wrapping it under a known key in a scratch client.
pub fn extract(cl: &Client, vault: &[u8], loc: &Location) -> Option<Vec<u8>> {
    let scratch = Client::default();
    let mut cfg = SyncClientsConfig::new(MergePolicy::Replace);
    cfg.sync_selected_vaults(vec![vault.to_vec()]);
    scratch.sync_with(cl, cfg).ok()?;
    let kek = [7u8; 32];
    let kl = Location::generic(b"\xffkek vault\xff".to_vec(), b"kek".to_vec());
    scratch.vault(b"\xffkek vault\xff").write_secret(kl.clone(), kek.to_vec()).ok()?;
    let ct = scratch
        .execute_procedure(AesKeyWrapEncrypt {
            cipher: AesKeyWrapCipher::Aes256,
            encryption_key: kl,
            wrap_key: loc.clone(),
        })
        .ok()?;
    kw_unwrap(&kek, &ct)
}

macro_rules! typed {
    ($cl:expr, $p:expr, $($V:ident),*) => {
        match $p {
            $(StrongholdProcedure::$V(x) => $cl.execute_procedure(x).map(|o| Vec::<u8>::from(ProcedureOutput::from(o))),)*
        }
    };
}
pub fn run_typed(cl: &Client, p: StrongholdProcedure) -> Result<Vec<u8>, ProcedureError> {
    typed!(cl, p, WriteVault, RevokeData, GarbageCollect, CopyRecord, Slip10Generate, Slip10Derive, BIP39Generate,
        BIP39Recover, PublicKey, GenerateKey, Ed25519Sign, X25519DiffieHellman, Hmac, Hkdf, ConcatKdf,
        AesKeyWrapEncrypt, AesKeyWrapDecrypt, Pbkdf2Hmac, AeadEncrypt, AeadDecrypt, ConcatSecret, CompareSecret)
}

fn sha(h: &str) -> Sha2Hash {
    match h {
        "h256" => Sha2Hash::Sha256,
        "h384" => Sha2Hash::Sha384,
        _ => Sha2Hash::Sha512,
    }
}

impl World {
    pub fn new(params: &Value, seed: u64, dir: &Path) -> Self {
        let mut c = Conc::new(seed, &params["plen"], params["plain"].as_bool().unwrap_or(false));
        let unit = *pick(&mut c.r, &[1i128, 7, 1_000, 1_000_000, 999_999_999, 1_000_000_000, 3_600_000_000_001, 86_400_000_000_000 * 400]);
        let base = *pick(&mut c.r, &[1_700_000_000_000_000_000i128, 999_999_999, 1_700_000_000_999_999_999, 4_000_000_000_123_456_789]);
        let _ = std::fs::remove_dir_all(dir);
        std::fs::create_dir_all(dir).unwrap();
        std::fs::write(dir.join("plainfile"), b"x").unwrap();
        let mut paths = HashMap::new();
        for f in strs(&params["files"]) {
            let p = match c.r.gen_range(0..4) {
                0 => SnapshotPath::named(format!("{f}-{}", c.r.gen::<u32>())),
                1 => SnapshotPath::from_path(dir.join("new").join(format!("deep-{f}")).join("snap.stronghold")),
                _ => SnapshotPath::from_path(dir.join(format!("{f}.stronghold"))),
            };
            let _ = std::fs::remove_file(p.as_path());
            paths.insert(f, p);
        }
        for f in strs(&params["badfiles"]) {
            paths.insert(f.clone(), SnapshotPath::from_path(dir.join("plainfile").join(f)));
        }
        World {
            c,
            sessions: vec![Stronghold::default()],
            handles: vec![],
            stores: vec![],
            dir: dir.to_path_buf(),
            paths,
            bytes: HashMap::new(),
            base,
            unit,
            vaults: strs(&params["vaults"]),
            recs: strs(&params["recs"]),
            cpaths: strs(&params["paths"]),
            skeys: strs(&params["skeys"]),
            keys: strs(&params["keys"]),
            has_sync: params["kinds"].as_array().unwrap().iter().any(|k| k == "sync"),
            seen: vec![],
            stats: Stats::default(),
        }
    }

    fn session(&mut self) -> Stronghold {
        if self.sessions.len() < 3 && self.c.r.gen_bool(0.2) {
            let x = pick(&mut self.c.r, &self.sessions).clone();
            self.sessions.push(x);
        }
        pick(&mut self.c.r, &self.sessions).clone()
    }
    fn obj(&mut self, o: u64) -> Client {
        let v = &mut self.handles[o as usize - 1];
        if v.len() < 3 && self.c.r.gen_bool(0.2) {
            let x = pick(&mut self.c.r, v).clone();
            v.push(x);
        }
        pick(&mut self.c.r, v).clone()
    }
    fn store(&mut self, o: u64) -> Store {
        if o == 0 {
            return self.session().store();
        }
        if self.c.r.gen_bool(0.5) {
            let st = self.obj(o).store();
            self.stores[o as usize - 1].push(st.clone());
            return st;
        }
        let v = &self.stores[o as usize - 1];
        pick(&mut self.c.r, v).clone()
    }
    fn add_obj(&mut self, c: Client) {
        self.stores.push(vec![c.store()]);
        self.handles.push(vec![c]);
    }
    /// The same live object through two handles.
    fn same(&mut self, o: u64, h: Client) -> Res<()> {
        let old = self.obj(o);
        if old.id() != h.id() {
            return Err("handle has another client id".into());
        }
        let probe = b"\xf0probe\xf0".to_vec();
        h.store().insert(probe.clone(), vec![1], None).map_err(|e| e.to_string())?;
        let seen = old.store().get(&probe).map_err(|e| e.to_string())?;
        h.store().delete(&probe).map_err(|e| e.to_string())?;
        if seen != Some(vec![1]) {
            return Err(format!("the returned handle is not the live client {o}"));
        }
        self.handles[o as usize - 1].push(h);
        Ok(())
    }

    fn time(&self, t: i64) -> i128 {
        self.base + t as i128 * self.unit
    }
    fn life(&mut self, l: i64) -> Option<Duration> {
        match l {
            1000 => None,
            1001 => Some(*pick(&mut self.c.r, &[Duration::MAX, Duration::from_secs(u64::MAX), Duration::from_secs(i64::MAX as u64)])),
            l => {
                let n = l as i128 * self.unit;
                Some(Duration::new((n / 1_000_000_000) as u64, (n % 1_000_000_000) as u32))
            }
        }
    }

    pub fn proc(&mut self, st: &Value) -> Option<StrongholdProcedure> {
        let p = s(&st["p"]);
        let src: Vec<Location> = st["s"].as_array().unwrap().iter().map(|l| self.c.loc(s(&l[0]), s(&l[1]))).collect();
        let dst = match st["d"].as_array() {
            Some(l) if l.len() == 2 => Some(self.c.loc(s(&l[0]), s(&l[1]))),
            _ => None,
        };
        let a = &st["a"];
        Some(match p {
            "write" => WriteVault { data: self.c.pay(s(a)), location: dst? }.into(),
            "gen" => match s(a) {
                "ed" => GenerateKey { ty: KeyType::Ed25519, output: dst? }.into(),
                "x" => GenerateKey { ty: KeyType::X25519, output: dst? }.into(),
                "seed64" => Slip10Generate { size_bytes: if self.c.r.gen() { None } else { Some(64) }, output: dst? }.into(),
                "seed16" => Slip10Generate { size_bytes: Some(16), output: dst? }.into(),
                _ => BIP39Generate {
                    passphrase: self.gen_pass(),
                    language: if self.c.r.gen() { MnemonicLanguage::English } else { MnemonicLanguage::Japanese },
                    output: dst?,
                }
                .into(),
            },
            "bip39" => {
                let (mnemonic, passphrase) = self.c.mnemonic(s(a));
                BIP39Recover { mnemonic, passphrase, output: dst? }.into()
            }
            "pbkdf" => {
                let (password, salt, c) = self.c.pbkdf_args(s(a));
                Pbkdf2Hmac { hash_type: sha(s(a)), password, salt, count: core::num::NonZeroU32::new(c)?, output: dst? }.into()
            }
            "copy" => CopyRecord { source: src[0].clone(), target: dst? }.into(),
            "concat" => ConcatSecret { location_a: src[0].clone(), location_b: src[1].clone(), output_location: dst? }.into(),
            "hkdf" => {
                let (salt, label) = self.c.hkdf_args(s(a));
                Hkdf { hash_type: sha(s(a)), salt, label, ikm: src[0].clone(), okm: dst? }.into()
            }
            "ckdf" => {
                let k = self.c.ckdf_args(s(a));
                ConcatKdf {
                    hash: sha(k.hash),
                    algorithm_id: k.alg,
                    shared_secret: src[0].clone(),
                    key_len: k.len,
                    apu: k.apu,
                    apv: k.apv,
                    pub_info: k.pubi,
                    priv_info: k.privi,
                    output: dst?,
                }
                .into()
            }
            "dh" => X25519DiffieHellman { public_key: self.c.dh_pub(s(a)), private_key: src[0].clone(), shared_key: dst? }.into(),
            "s10seed" | "s10key" => Slip10Derive {
                chain: crypto::keys::slip10::Chain::from_u32(self.c.chain(s(a))),
                input: if p == "s10seed" { Slip10DeriveInput::Seed(src[0].clone()) } else { Slip10DeriveInput::Key(src[0].clone()) },
                output: dst?,
            }
            .into(),
            "unwrap" => {
                // without knowledge of the key: take some other one, the answer is a failure then
                let kek = self.c.eval(&a[0])?;
                let kek = if kek.len() == 32 { kek } else { hash("h256", &kek) };
                let data = self.c.eval(&a[1])?;
                let mut ct = if data.len() % 8 == 0 { kw_wrap(&kek, &data) } else { vec![0; 40] };
                match s(&a[2]) {
                    "flip" => {
                        let i = self.c.r.gen_range(0..ct.len());
                        ct[i] ^= 1 << self.c.r.gen_range(0..8)
                    }
                    "short" => ct.truncate(self.c.r.gen_range(0..8)),
                    "trunc" => {
                        let n = *pick(&mut self.c.r, &[1usize, 8]);
                        ct.truncate(ct.len() - n)
                    }
                    _ => {}
                }
                AesKeyWrapDecrypt { cipher: AesKeyWrapCipher::Aes256, decryption_key: src[0].clone(), wrapped_key: ct, output: dst? }.into()
            }
            "pub_ed" => PublicKey { ty: KeyType::Ed25519, private_key: src[0].clone() }.into(),
            "pub_x" => PublicKey { ty: KeyType::X25519, private_key: src[0].clone() }.into(),
            "sign" => Ed25519Sign { msg: self.c.msg(s(a)), private_key: src[0].clone() }.into(),
            "hmac" => Hmac { hash_type: sha(s(a)), msg: self.c.msg(s(a)), key: src[0].clone() }.into(),
            "aeadenc" => {
                let alg = s(&a[0]);
                let (mut nonce, ad, pt) = self.c.aead_args(alg);
                if s(&a[1]) == "badnonce" {
                    nonce = self.c.blob(&format!("bad-{alg}"), &[0, 1, 11, 13, 23, 25]);
                }
                AeadEncrypt { cipher: cipher(alg), associated_data: ad, plaintext: pt, nonce, key: src[0].clone() }.into()
            }
            "aeaddec" => {
                let alg = s(&a[0]);
                let (mut nonce, mut ad, mut pt) = self.c.aead_args(alg);
                let key = self.c.eval(&a[1])?;
                let key = if key.len() == 32 { key } else { hash("h256", &key) };
                let sp = s(&a[2]);
                if sp == "ct" && pt.is_empty() {
                    pt = vec![1, 2, 3];
                }
                let (mut tag, mut ct) = aead_enc(alg, &key, &nonce, &ad, &pt);
                match sp {
                    "tag" => tag[self.c.r.gen_range(0..16)] ^= 1 << self.c.r.gen_range(0..8),
                    "ct" => {
                        let i = self.c.r.gen_range(0..ct.len());
                        ct[i] ^= 1 << self.c.r.gen_range(0..8)
                    }
                    "ad" => ad.push(0),
                    "nonce" => {
                        let i = self.c.r.gen_range(0..nonce.len());
                        nonce[i] ^= 1
                    }
                    "shorttag" => tag.truncate(self.c.r.gen_range(0..16)),
                    _ => {}
                }
                AeadDecrypt { cipher: cipher(alg), associated_data: ad, ciphertext: ct, tag, nonce, key: src[0].clone() }.into()
            }
            "wrap" => AesKeyWrapEncrypt { cipher: AesKeyWrapCipher::Aes256, encryption_key: src[0].clone(), wrap_key: src[1].clone() }.into(),
            "cmp" => CompareSecret { location: src[0].clone(), expected: self.c.pay(s(a)) }.into(),
            "revoke" => RevokeData { location: dst?, should_gc: s(a) == "gc" }.into(),
            "gc" => GarbageCollect { vault_path: self.c.name("vault", s(a)) }.into(),
            x => panic!("procedure {x}"),
        })
    }
    fn gen_pass(&mut self) -> Option<String> {
        if self.c.plain {
            return None;
        }
        let b = self.c.blob("genpass", &[1]);
        match b[0] % 3 {
            0 => None,
            1 => Some(String::new()),
            _ => Some("pass phräse".into()),
        }
    }

    fn check_outs(&mut self, steps: &[Value], got: &[Vec<u8>], want: &Value) -> Res<()> {
        let want = want.as_array().unwrap();
        if got.len() != want.len() {
            return Err(format!("{} outputs, expected {}", got.len(), want.len()));
        }
        for (i, w) in want.iter().enumerate() {
            match self.c.output(w) {
                None => self.stats.skipped += 1,
                Some(Expect::Bytes(b)) => {
                    self.stats.compares += 1;
                    if b != got[i] {
                        return Err(format!("output {i} of {} is {}, expected {}", steps[i], hex(&got[i]), hex(&b)));
                    }
                }
                Some(Expect::Mnemonic(n)) => {
                    let m = String::from_utf8(got[i].clone()).map_err(|_| "mnemonic is not utf-8")?;
                    let wl = &[crypto::keys::bip39::wordlist::ENGLISH, crypto::keys::bip39::wordlist::JAPANESE];
                    if !wl.iter().any(|w| crypto::keys::bip39::wordlist::decode(&m, w).is_ok()) {
                        return Err(format!("output {i} is no mnemonic sentence"));
                    }
                    let pass = self.gen_pass().unwrap_or_default();
                    self.fresh(n, bip39_seed(&m, &pass), 64)?;
                }
                Some(Expect::Plain) => {
                    self.stats.compares += 1;
                    let (_, _, mut pt) = self.c.aead_args(s(&steps[i]["a"][0]));
                    if s(&steps[i]["a"][2]) == "ct" && pt.is_empty() {
                        pt = vec![1, 2, 3];
                    }
                    if pt != got[i] {
                        return Err(format!("decryption gives {}, expected {}", hex(&got[i]), hex(&pt)));
                    }
                }
            }
        }
        Ok(())
    }
    fn fresh(&mut self, n: u64, b: Vec<u8>, len: usize) -> Res<()> {
        if b.len() != len {
            return Err(format!("generated secret {n} has {} bytes, expected {len}", b.len()));
        }
        if b.iter().all(|x| *x == 0) || self.c.known.iter().any(|(m, x)| *m != n && *x == b) {
            return Err(format!("generated secret {n} is not fresh: {}", hex(&b)));
        }
        self.c.known.insert(n, b);
        Ok(())
    }

    // --------------------------------------------------------------- one step
    /// Performs op; Ok(None) when it was left out because it needs an unknown secret.
    fn step(&mut self, op: &Value, res: &Value, post: &Value) -> Res<Option<()>> {
        let k = s(&op["k"]);
        let want_ok = res["ok"].as_bool().unwrap();
        let o = op["o"].as_u64().unwrap_or(0);
        let unit = |r: Result<(), ClientError>| r.map(|_| json!("unit"));
        // the answer of the code: Ok(value) or Err(kind, text)
        let got: Result<Value, (String, String)> = match k {
            "exec" | "chain" => {
                let steps: Vec<Value> =
                    if k == "exec" { vec![op["st"].clone()] } else { op["sts"].as_array().unwrap().clone() };
                let mut procs = vec![];
                for st in &steps {
                    match self.proc(st) {
                        Some(p) => procs.push(p),
                        None => return Ok(None),
                    }
                }
                let cl = self.obj(o);
                let r = if procs.len() == 1 && self.c.r.gen_bool(0.6) {
                    run_typed(&cl, procs.pop().unwrap()).map(|x| vec![x])
                } else {
                    cl.execute_procedure_chained(procs).map(|v| v.into_iter().map(Vec::<u8>::from).collect::<Vec<_>>())
                };
                match r {
                    Ok(outs) => {
                        if want_ok {
                            self.check_outs(&steps, &outs, &res["v"])?;
                        }
                        Ok(Value::Null)
                    }
                    Err(e) => Err(("op".into(), e.to_string())),
                }
            }
            "vwrite" | "vrevoke" | "vdelete" | "vcleanup" => {
                let v = if k == "vcleanup" { s(&op["v"]) } else { s(&op["l"][0]) }.to_string();
                let vp = self.c.name("vault", &v);
                let vault = self.obj(o).vault(vp);
                let r = match k {
                    "vwrite" => {
                        let l = self.c.loc(&v, s(&op["l"][1]));
                        let p = self.c.pay(s(&op["a"]));
                        unit(vault.write_secret(l, p))
                    }
                    "vrevoke" => unit(vault.revoke_secret(self.c.name("rec", s(&op["l"][1])))),
                    "vdelete" => vault.delete_secret(self.c.name("rec", s(&op["l"][1]))).map(|b| json!(b)),
                    _ => vault.cleanup().map(|b| json!(b)),
                };
                if let (Ok(Value::Bool(b)), true) = (&r, want_ok) {
                    if res["v"] != json!(*b) {
                        return Err(format!("returned {b}, expected {}", res["v"]));
                    }
                }
                r.map_err(|e| ("op".into(), e.to_string()))
            }
            "sync" => {
                let q = op["q"].as_u64().unwrap();
                let cfg = &op["cfg"];
                let pol = if s(&cfg["pol"]) == "keep" { MergePolicy::KeepOld } else { MergePolicy::Replace };
                let sv = strs(&cfg["sv"]);
                let r = if o == q && sv.len() == 1 && !cfg["all"].as_bool().unwrap() && fun(&cfg["mp"]).iter().map(|(v, _)| v).eq([&sv[0]])
                    && fun(&cfg["sr"]).iter().all(|(v, _)| *v == sv[0])
                {
                    let cl = self.obj(o);
                    let src = self.c.name("vault", &sv[0]);
                    let dst = self.c.name("vault", s(&fun(&cfg["mp"])[0].1));
                    let sel = fun(&cfg["sr"]).first().map(|(_, ids)| {
                        ids.as_array()
                            .unwrap()
                            .iter()
                            .map(|id| {
                                let vp = self.c.name("vault", s(&id[0]));
                                let r = s(&id[1]);
                                if Conc::is_counter(r) {
                                    derive_record_id_from_counter(vp, self.c.counter(r))
                                } else {
                                    derive_record_id(vp, self.c.name("rec", r))
                                }
                            })
                            .collect::<Vec<_>>()
                    });
                    cl.sync_vaults(src, dst, sel, pol)
                } else {
                    let (a, b) = (self.obj(o), self.obj(q));
                    let conf = self.client_config(cfg);
                    a.sync_with(&b, conf)
                };
                unit(r).map_err(|e| ("op".into(), e.to_string()))
            }
            "sput" => {
                let st = self.store(o);
                let (key, val) = (self.c.store_key(s(&op["key"])), self.c.store_val(s(&op["val"])));
                let life = self.life(op["life"].as_i64().unwrap());
                let r = st.insert(key, val, life);
                self.prev(r, res)?
            }
            "sdel" => {
                let st = self.store(o);
                let r = st.delete(&self.c.store_key(s(&op["key"])));
                self.prev(r, res)?
            }
            "tick" => {
                let t = self.time(post["now"].as_i64().unwrap());
                clock::set(t);
                Ok(Value::Null)
            }
            "create" => {
                let p = self.c.name("path", s(&op["p"]));
                match self.session().create_client(p) {
                    Ok(c) => {
                        self.add_obj(c);
                        Ok(Value::Null)
                    }
                    Err(e) => Err((errkind(&e).into(), e.to_string())),
                }
            }
            "loadc" | "loadf" => {
                let p = self.c.name("path", s(&op["p"]));
                let r = if k == "loadc" {
                    self.session().load_client(p)
                } else {
                    let kp = self.c.key(s(&op["key"]));
                    let f = self.paths[s(&op["f"])].clone();
                    self.session().load_client_from_snapshot(p, &kp, &f)
                };
                match r {
                    Ok(c) if want_ok => {
                        self.add_obj(c);
                        Ok(Value::Null)
                    }
                    Ok(c) => {
                        if k == "loadf" && s(&res["e"]) == "notpresent" {
                            // known finding: an absent client is answered with an empty one
                            self.stats.loadf_absent += 1;
                            self.compare_client(&c, &json!({"vs": [], "rs": [], "st": []}), post["now"].as_i64().unwrap())
                                .map_err(|e| format!("client absent from the file: {e}"))?;
                            return Ok(None);
                        }
                        Ok(Value::Null)
                    }
                    Err(e) => Err((errkind(&e).into(), e.to_string())),
                }
            }
            "get" => {
                let p = self.c.name("path", s(&op["p"]));
                match self.session().get_client(p) {
                    Ok(c) if want_ok => {
                        self.same(res["v"].as_u64().unwrap(), c)?;
                        Ok(Value::Null)
                    }
                    Ok(_) => Ok(Value::Null),
                    Err(e) => Err((errkind(&e).into(), e.to_string())),
                }
            }
            "unload" => {
                let c = self.obj(o);
                match self.session().unload_client(c) {
                    Ok(c) if want_ok => {
                        self.same(res["v"].as_u64().unwrap(), c)?;
                        Ok(Value::Null)
                    }
                    Ok(_) => Ok(Value::Null),
                    Err(e) => Err((errkind(&e).into(), e.to_string())),
                }
            }
            "purge" => {
                let c = self.obj(o);
                unit(self.session().purge_client(c)).map_err(|e| (errkind(&e).into(), e.to_string()))
            }
            "capture" => {
                let p = self.c.name("path", s(&op["p"]));
                unit(self.session().write_client(p)).map_err(|e| (errkind(&e).into(), e.to_string()))
            }
            "clear" => unit(self.session().clear()).map_err(|e| (errkind(&e).into(), e.to_string())),
            "reset" => {
                let s0 = self.session();
                self.sessions = vec![s0.reset()];
                Ok(Value::Null)
            }
            "restart" => {
                self.sessions = vec![Stronghold::default()];
                self.handles.clear();
                self.stores.clear();
                Ok(Value::Null)
            }
            "setkey" => {
                let kp = self.c.key(s(&op["key"]));
                let n = op["loc"].as_u64().unwrap();
                // the location is chosen among names that clients and vaults have as well
                let vp = match (n, self.c.plain) {
                    (1, false) => self.c.name("path", "p1"),
                    (_, false) => self.c.name("vault", "v1"),
                    _ => b"keys".to_vec(),
                };
                let loc = Location::generic(vp, format!("key{n}").into_bytes());
                unit(self.session().store_snapshot_key_at_location(kp, loc)).map_err(|e| (errkind(&e).into(), e.to_string()))
            }
            "commitk" => {
                let kp = self.c.key(s(&op["key"]));
                let f = self.paths[s(&op["f"])].clone();
                unit(self.session().commit_with_keyprovider(&f, &kp)).map_err(|e| (errkind(&e).into(), e.to_string()))
            }
            "commit" => {
                let f = self.paths[s(&op["f"])].clone();
                unit(self.session().commit(&f)).map_err(|e| (errkind(&e).into(), e.to_string()))
            }
            "load" => {
                let kp = self.c.key(s(&op["key"]));
                let f = self.paths[s(&op["f"])].clone();
                unit(self.session().load_snapshot(&kp, &f)).map_err(|e| (errkind(&e).into(), e.to_string()))
            }
            "damage" => {
                self.damage(s(&op["f"]));
                Ok(Value::Null)
            }
            "rmfile" => {
                let p = self.paths[s(&op["f"])].as_path().to_path_buf();
                if p.is_dir() {
                    std::fs::remove_dir_all(&p).unwrap();
                } else {
                    std::fs::remove_file(&p).unwrap();
                }
                Ok(Value::Null)
            }
            "mkdir" => {
                std::fs::create_dir_all(self.paths[s(&op["f"])].as_path()).unwrap();
                Ok(Value::Null)
            }
            "copyfile" => {
                let (f, g) = (self.paths[s(&op["f"])].as_path(), self.paths[s(&op["g"])].as_path());
                std::fs::create_dir_all(f.parent().unwrap()).unwrap();
                std::fs::copy(g, f).unwrap();
                Ok(Value::Null)
            }
            x => panic!("operation {x}"),
        };
        let e = self.stats.ops.entry(label(op)).or_default();
        if want_ok {
            e.0 += 1
        } else {
            e.1 += 1
        }
        match (&got, want_ok) {
            (Ok(_), true) => {}
            (Ok(_), false) => return Err(format!("succeeded, expected the failure {}", res["e"])),
            (Err((_, t)), true) => return Err(format!("failed with '{t}', expected success")),
            (Err((kind, t)), false) => {
                let w = s(&res["e"]);
                if matches!(w, "alreadyloaded" | "notpresent") && k != "loadf" && kind != w {
                    return Err(format!("failed with '{t}' ({kind}), expected {w}"));
                }
            }
        }
        Ok(Some(()))
    }

    pub fn client_config(&mut self, cfg: &Value) -> SyncClientsConfig {
        let pol = if s(&cfg["pol"]) == "keep" { MergePolicy::KeepOld } else { MergePolicy::Replace };
        let mut conf = SyncClientsConfig::new(pol);
        if !cfg["all"].as_bool().unwrap() {
            let v: Vec<Vec<u8>> = strs(&cfg["sv"]).iter().map(|v| self.c.name("vault", v)).collect();
            conf.sync_selected_vaults(v);
        }
        for (v, ids) in fun(&cfg["sr"]) {
            let vp = self.c.name("vault", &v);
            let rs: Vec<Vec<u8>> = ids.as_array().unwrap().iter().map(|id| self.c.name("rec", s(&id[1]))).collect();
            conf.sync_selected_record(vp, rs);
        }
        let mut m = HashMap::new();
        for (v, w) in fun(&cfg["mp"]) {
            m.insert(self.c.name("vault", &v), self.c.name("vault", s(&w)));
        }
        conf.map_vaults(m);
        conf
    }

    fn prev(&mut self, r: Result<Option<Vec<u8>>, ClientError>, res: &Value) -> Res<Result<Value, (String, String)>> {
        match r {
            Ok(x) => {
                let w = s(&res["v"]);
                let w = if w == "absent" { None } else { Some(self.c.store_val(w)) };
                if x != w {
                    return Err(format!(
                        "returned previous value {:?}, expected {:?}",
                        x.map(|b| hex(&b)),
                        w.map(|b| hex(&b))
                    ));
                }
                Ok(Ok(Value::Null))
            }
            Err(e) => Ok(Err(("op".into(), e.to_string()))),
        }
    }

    fn damage(&mut self, f: &str) {
        let p = self.paths[f].as_path().to_path_buf();
        let b = std::fs::read(&p).unwrap();
        let mut d = b.clone();
        let n = d.len();
        let r = &mut self.c.r;
        match r.gen_range(0..9) {
            0 => d.truncate(r.gen_range(0..n)),
            1 => d.truncate(n - 1),
            2 => {
                let i = r.gen_range(0..n);
                d[i] ^= 1 << r.gen_range(0..8)
            }
            3 => d[n - 1] ^= 1,
            4 => {
                let k = r.gen_range(1..100);
                d.extend(rbytes(r, k))
            }
            5 => d.push(0),
            6 => {
                let i = r.gen_range(0..n.min(80));
                d[i] ^= 1 << r.gen_range(0..8)
            }
            7 => d = b"{\"some\": \"other file\"}".to_vec(),
            _ => {
                let i = r.gen_range(0..n);
                d.remove(i);
            }
        }
        if d == b {
            d.push(1);
        }
        std::fs::write(&p, d).unwrap();
    }

    // ------------------------------------------------------------- comparison
    fn learn(&mut self, cl: &Client, vp: &[u8], loc: &Location, t: &Value) -> Res<()> {
        if s(&t[0]) == "rnd" && !self.c.known.contains_key(&t[1].as_u64().unwrap()) {
            let len = match s(&t[2]) {
                "ed" | "x" => 32,
                "seed16" => 16,
                _ => 64,
            };
            let b = extract(cl, vp, loc).ok_or_else(|| format!("cannot use generated secret {t}"))?;
            self.fresh(t[1].as_u64().unwrap(), b, len)?;
        }
        Ok(())
    }

    /// The term's value is what a procedure finds at loc.
    fn compare_secret(&mut self, cl: &Client, vp: &[u8], loc: &Location, t: &Value) -> Res<()> {
        self.learn(cl, vp, loc, t)?;
        match self.c.eval(t) {
            None => {
                self.stats.skipped += 1;
            }
            Some(b) => {
                self.stats.compares += 1;
                let r = cl
                    .execute_procedure(CompareSecret { location: loc.clone(), expected: b.clone() })
                    .map_err(|e| format!("record holding {t} cannot be read: {e}"))?;
                if r != vec![1] {
                    let actual = if b.len() % 8 == 0 { extract(cl, vp, loc) } else { None };
                    return Err(format!("record does not hold {t} = {} but {:?}", hex(&b), actual.map(|a| hex(&a))));
                }
            }
        }
        Ok(())
    }

    pub fn compare_client(&mut self, cl: &Client, want: &Value, now: i64) -> Res<()> {
        let vs: BTreeSet<String> = strs(&want["vs"]).into_iter().collect();
        let recs: Vec<Value> = want["rs"].as_array().unwrap().clone();
        let vaults = self.vaults.clone();
        let rnames = self.recs.clone();
        for v in &vaults {
            let vp = self.c.name("vault", v);
            let e = cl.vault_exists(&vp).map_err(|e| e.to_string())?;
            self.stats.compares += 1;
            if e != vs.contains(v) {
                return Err(format!("vault {v} exists: {e}, expected {}", !e));
            }
            for r in &rnames {
                let loc = self.c.loc(v, r);
                let rec = recs.iter().find(|x| x["v"] == **v && x["o"] == **v && x["r"] == **r);
                let live = rec.map_or(false, |x| !x["rev"].as_bool().unwrap());
                let e = cl.record_exists(&loc).map_err(|e| e.to_string())?;
                self.stats.compares += 1;
                if e != live {
                    return Err(format!("record {v}/{r} exists: {e}, expected {live}"));
                }
                if live {
                    self.compare_secret(cl, &vp, &loc, &rec.unwrap()["t"])
                        .map_err(|e| format!("{v}/{r}: {e}"))?;
                } else if self.c.r.gen_bool(0.1) {
                    if cl.execute_procedure(CompareSecret { location: loc, expected: vec![] }).is_ok() {
                        return Err(format!("{v}/{r} does not exist, but a procedure can use it"));
                    }
                }
            }
        }
        // records that came from other vaults are addressable only after mapping them back
        if self.has_sync {
            for v in &vaults {
                for o in &vaults {
                    if o == v {
                        continue;
                    }
                    let want: Vec<&Value> =
                        recs.iter().filter(|x| x["v"] == **v && x["o"] == **o && !x["rev"].as_bool().unwrap()).collect();
                    if (want.is_empty() && !self.c.r.gen_bool(0.1)) || !vs.contains(v) {
                        continue;
                    }
                    let (vp, op) = (self.c.name("vault", v), self.c.name("vault", o));
                    let scratch = Client::default();
                    let mut cfg = SyncClientsConfig::new(MergePolicy::Replace);
                    cfg.sync_selected_vaults(vec![vp.clone()]);
                    cfg.map_vaults([(vp, op.clone())].into_iter().collect());
                    scratch.sync_with(cl, cfg).map_err(|e| e.to_string())?;
                    for r in &rnames {
                        let loc = self.c.loc(o, r);
                        let rec = want.iter().find(|x| x["r"] == **r);
                        let e = scratch.record_exists(&loc).map_err(|e| e.to_string())?;
                        self.stats.compares += 1;
                        if e != rec.is_some() {
                            return Err(format!("record {r} of vault {o} is in vault {v}: {e}, expected {}", !e));
                        }
                        if let Some(x) = rec {
                            self.compare_secret(&scratch, &op, &loc, &x["t"])
                                .map_err(|e| format!("record {r} of vault {o} in vault {v}: {e}"))?;
                        }
                    }
                }
            }
        }
        let st = cl.store();
        self.compare_store(&st, &want["st"], now)
    }

    fn compare_store(&mut self, st: &Store, want: &Value, now: i64) -> Res<()> {
        let mut live = BTreeSet::new();
        let mut all = BTreeSet::new();
        for k in self.skeys.clone() {
            let kb = self.c.store_key(&k);
            let e = want.as_array().unwrap().iter().find(|x| x["k"] == *k);
            let w = match e {
                Some(e) => {
                    all.insert(kb.clone());
                    let dl = e["dl"].as_i64().unwrap();
                    if dl != 0 && now >= dl {
                        None
                    } else {
                        live.insert(kb.clone());
                        Some(self.c.store_val(s(&e["val"])))
                    }
                }
                None => None,
            };
            let g = st.get(&kb).map_err(|e| e.to_string())?;
            self.stats.compares += 1;
            if g != w {
                return Err(format!(
                    "store entry {k} is {:?}, expected {:?}",
                    g.map(|b| hex(&b)),
                    w.map(|b| hex(&b))
                ));
            }
            if st.contains_key(&kb).map_err(|e| e.to_string())? != w.is_some() {
                return Err(format!("contains_key({k}) is wrong"));
            }
        }
        let keys = st.keys().map_err(|e| e.to_string())?;
        let got: BTreeSet<Vec<u8>> = keys.iter().cloned().collect();
        if got.len() != keys.len() {
            return Err("key listing repeats a key".into());
        }
        if !live.is_subset(&got) || !got.is_subset(&all) {
            return Err(format!("key listing has {} keys; live {}, inserted {}", got.len(), live.len(), all.len()));
        }
        Ok(())
    }

    fn compare_file(&mut self, f: &Value, now: i64) -> Res<()> {
        let name = s(&f["f"]).to_string();
        let path = self.paths[&name].clone();
        let kind = s(&f["kind"]);
        self.stats.files_checked += 1;
        let keys = self.keys.clone();
        for k in keys {
            let kp = self.c.key(&k);
            let fresh = Stronghold::default();
            let r = fresh.load_snapshot(&kp, &path);
            if kind != "snap" || s(&f["key"]) != k {
                if r.is_ok() {
                    return Err(format!("file {name} ({kind}, key {}) loads with key {k}", f["key"]));
                }
                continue;
            }
            r.map_err(|e| format!("file {name} does not load with its key {k}: {e}"))?;
            let fresh = if self.c.r.gen_bool(0.3) { fresh.clone() } else { fresh };
            self.compare_map(&fresh, &f["data"], now, &format!("file {name}"))?;
        }
        Ok(())
    }

    /// Every client of the session's in-memory snapshot, by loading it.
    fn compare_map(&mut self, sh: &Stronghold, data: &Value, now: i64, what: &str) -> Res<()> {
        for p in self.cpaths.clone() {
            let pb = self.c.name("path", &p);
            let w = data.as_array().unwrap().iter().find(|x| x["p"] == *p);
            let r = sh.load_client(&pb);
            self.stats.compares += 1;
            match (r, w) {
                (Ok(c), Some(w)) => {
                    self.compare_client(&c, &w["c"], now).map_err(|e| format!("client {p} of {what}: {e}"))?
                }
                (Ok(_), None) => return Err(format!("{what} contains client {p}")),
                (Err(e), Some(_)) => return Err(format!("{what}: client {p} cannot be loaded: {e}")),
                (Err(_), None) => {}
            }
        }
        Ok(())
    }

    fn read(&self, f: &str) -> Option<Vec<u8>> {
        std::fs::read(self.paths[f].as_path()).ok()
    }

    fn compare(&mut self, op: &Value, st: &Value, all: bool) -> Res<()> {
        let now = st["now"].as_i64().unwrap();
        let objs = st["objs"].as_array().unwrap().clone();
        for (i, ob) in objs.iter().enumerate() {
            // every object the operation is about or whose expected state changed, and some others
            let touched = op["o"].as_u64() == Some(i as u64 + 1) || self.seen.get(i) != Some(&ob["c"]);
            if !touched && !all && !self.c.r.gen_bool(0.25) {
                continue;
            }
            let cl = self.obj(i as u64 + 1);
            self.compare_client(&cl, &ob["c"], now).map_err(|e| format!("client object {}: {e}", i + 1))?;
        }
        self.seen = objs.iter().map(|o| o["c"].clone()).collect();
        let ss = self.session().store();
        self.compare_store(&ss, &st["sstore"], now).map_err(|e| format!("session store: {e}"))?;
        let loaded = st["loaded"].as_array().unwrap();
        for p in self.cpaths.clone() {
            let pb = self.c.name("path", &p);
            let got = self.session().get_client(pb);
            match (got, loaded.iter().find(|x| x["p"] == *p)) {
                (Ok(c), Some(x)) => {
                    let o = x["o"].as_u64().unwrap();
                    if self.c.r.gen_bool(0.2) {
                        self.same(o, c).map_err(|e| format!("lookup of {p}: {e}"))?;
                    }
                }
                (Ok(_), None) => return Err(format!("client {p} is found, but not loaded")),
                (Err(e), Some(_)) => return Err(format!("client {p} is not found: {e}")),
                (Err(_), None) => {}
            }
        }
        let written = op["f"].as_str().unwrap_or("").to_string();
        for f in st["files"].as_array().unwrap().clone() {
            let name = s(&f["f"]).to_string();
            let now_bytes = self.read(&name);
            let changed = self.bytes.get(&name).map_or(now_bytes.is_some(), |b| *b != now_bytes);
            if changed && name != written {
                return Err(format!("file {name} changed"));
            }
            if changed || (name == written && matches!(s(&op["k"]), "commit" | "commitk")) {
                self.compare_file(&f, now)?;
            }
            self.bytes.insert(name, now_bytes);
        }
        Ok(())
    }

    /// At the end of a behaviour the in-memory snapshot is looked at through a commit.
    fn finish(&mut self, st: &Value) -> Res<()> {
        let now = st["now"].as_i64().unwrap();
        for f in st["files"].as_array().unwrap().clone() {
            self.compare_file(&f, now)?;
        }
        let sh = self.session();
        for p in self.cpaths.clone() {
            let pb = self.c.name("path", &p);
            if let Ok(c) = sh.get_client(&pb) {
                sh.unload_client(c).map_err(|e| e.to_string())?;
            }
        }
        let kp = self.c.key("end");
        let path = SnapshotPath::from_path(self.dir.join("end.stronghold"));
        sh.commit_with_keyprovider(&path, &kp).map_err(|e| format!("final commit: {e}"))?;
        let fresh = Stronghold::default();
        fresh.load_snapshot(&kp, &path).map_err(|e| format!("final load: {e}"))?;
        self.compare_map(&fresh, &st["snap"], now, "the in-memory snapshot (after a commit)")?;
        self.compare_map(&sh, &st["snap"], now, "the in-memory snapshot")?;
        if st["kloc"] != "nokey" {
            sh.commit(&path).map_err(|e| format!("commit with the stored key: {e}"))?;
            for k in self.keys.clone() {
                let kp = self.c.key(&k);
                let ok = Stronghold::default().load_snapshot(&kp, &path).is_ok();
                if ok != (st["kloc"] == *k) {
                    return Err(format!("stored key {}, but key {k} opens the file: {ok}", st["kloc"]));
                }
            }
        }
        Ok(())
    }

    /// Runs a whole behaviour. Err((step, message)).
    pub fn run(&mut self, beh: &Value) -> Result<(), (usize, String)> {
        clock::set(self.time(1));
        let steps = beh["steps"].as_array().unwrap();
        let mut last = &Value::Null;
        for (i, x) in steps.iter().enumerate() {
            let (op, res, st) = (&x["op"], &x["res"], &x["st"]);
            // steps without a recorded state are the path to a transition: only performed
            let r = catch_unwind(AssertUnwindSafe(|| -> Res<Option<()>> {
                let done = self.step(op, res, st)?;
                if done.is_some() && !st["objs"].is_null() {
                    self.compare(op, st, i + 1 == steps.len())?;
                } else {
                    for f in self.paths.keys().cloned().collect::<Vec<_>>() {
                        let b = self.read(&f);
                        self.bytes.insert(f, b);
                    }
                }
                Ok(done)
            }));
            self.stats.steps += 1;
            match r {
                Err(p) => return Err((i, format!("panic: {}", panic_text(&p)))),
                Ok(Err(e)) => return Err((i, e)),
                Ok(Ok(None)) => {
                    let user = s(&op["k"]) == "exec" && st["objs"].is_array() && matches!(s(&op["st"]["p"]), "aeaddec");
                    if !user {
                        self.stats.cut += 1;
                        return Ok(());
                    }
                }
                Ok(Ok(Some(()))) => {}
            }
            last = st;
        }
        if last["objs"].is_array() {
            match catch_unwind(AssertUnwindSafe(|| self.finish(last))) {
                Err(p) => return Err((steps.len(), format!("panic: {}", panic_text(&p)))),
                Ok(Err(e)) => return Err((steps.len(), format!("at the end: {e}"))),
                Ok(Ok(())) => {}
            }
        }
        Ok(())
    }
}

impl Drop for World {
    fn drop(&mut self) {
        for p in self.paths.values() {
            let _ = std::fs::remove_file(p.as_path());
            if p.as_path().is_dir() {
                let _ = std::fs::remove_dir(p.as_path());
            }
        }
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

pub fn panic_text(p: &Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
}
fn cipher(a: &str) -> AeadCipher {
    if a == "gcm" {
        AeadCipher::Aes256Gcm
    } else {
        AeadCipher::XChaCha20Poly1305
    }
}
pub fn label(op: &Value) -> String {
    match s(&op["k"]) {
        "exec" => format!("exec:{}", s(&op["st"]["p"])),
        k => k.to_string(),
    }
}
