//! Concretisation: names, payloads, parameters and secrets of the specification as bytes.
use crypto::{
    ciphers::{aes_gcm::Aes256Gcm, aes_kw::Aes256Kw, chacha::XChaCha20Poly1305, traits::Aead},
    hashes::sha::{SHA256, SHA384, SHA512},
    keys::{bip39, pbkdf, x25519},
    macs::hmac::{HMAC_SHA256, HMAC_SHA384, HMAC_SHA512},
    signatures::ed25519,
};
use iota_stronghold::{KeyProvider, Location};
use rand::{rngs::StdRng, Rng, RngCore, SeedableRng};
use serde_json::Value;
use std::collections::{HashMap, HashSet};

pub fn rbytes(r: &mut StdRng, n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    r.fill_bytes(&mut v);
    v
}
pub fn pick<'a, T>(r: &mut StdRng, v: &'a [T]) -> &'a T {
    &v[r.gen_range(0..v.len())]
}

/// Two record paths denote the same record if they are equal as HMAC keys (known finding C22).
pub fn hmac_norm(p: &[u8]) -> Vec<u8> {
    if p.len() > 128 {
        let mut d = [0u8; 64];
        SHA512(p, &mut d);
        d.to_vec()
    } else {
        let mut v = p.to_vec();
        while v.last() == Some(&0) {
            v.pop();
        }
        v
    }
}

/// Two raw snapshot keys open the same file if they are equal as X25519 scalars (known finding C06).
pub fn clamped(k: &[u8]) -> Vec<u8> {
    let mut k = k.to_vec();
    k[0] &= 248;
    k[31] &= 127;
    k[31] |= 64;
    k
}

fn odd_name(r: &mut StdRng) -> Vec<u8> {
    match r.gen_range(0..14) {
        0 => vec![],
        1 => b"a".to_vec(),
        2 => b"vault".to_vec(),
        3 => {
            let n = r.gen_range(1..40);
            rbytes(r, n)
        }
        4 => {
            let n = *pick(r, &[23usize, 24, 25, 63, 64, 65, 127, 128, 129, 200, 1000]);
            rbytes(r, n)
        }
        5 => b"first_record".to_vec(),
        6 => b"\0a".to_vec(),
        7 => b"a/b".to_vec(),
        8 => "ключ🔑".as_bytes().to_vec(),
        9 => vec![255; 24],
        10 => b"A".to_vec(),
        11 => b"1".to_vec(),
        12 => vec![b'x'; r.gen_range(1..6)],
        _ => {
            let n = r.gen_range(0..3);
            rbytes(r, n)
        }
    }
}

pub struct Conc {
    pub r: StdRng,
    pub names: HashMap<String, Vec<u8>>, // "kind:name" -> bytes
    used: HashSet<(String, Vec<u8>)>,
    pub plen: HashMap<String, usize>,
    pub counters: HashMap<String, usize>,
    pub known: HashMap<u64, Vec<u8>>, // fresh secrets seen so far
    pub plain: bool,
}

#[derive(Clone)]
pub struct KeySpec {
    scheme: u8,
    pass: Vec<u8>,
}

impl Conc {
    pub fn new(seed: u64, plen: &Value, plain: bool) -> Self {
        let plen = plen
            .as_object()
            .map(|o| o.iter().map(|(k, v)| (k.clone(), v.as_u64().unwrap() as usize)).collect())
            .unwrap_or_default();
        Conc {
            r: StdRng::seed_from_u64(seed),
            names: HashMap::new(),
            used: HashSet::new(),
            plen,
            counters: HashMap::new(),
            known: HashMap::new(),
            plain,
        }
    }

    /// The bytes of a name of some kind; different names of a kind get different bytes, names of
    /// different kinds often the same.
    pub fn name(&mut self, kind: &str, n: &str) -> Vec<u8> {
        let key = format!("{kind}:{n}");
        if let Some(v) = self.names.get(&key) {
            return v.clone();
        }
        loop {
            let all: Vec<Vec<u8>> = {
                let mut v: Vec<_> = self.names.iter().filter(|(k, _)| !k.starts_with("pay:")).collect();
                v.sort();
                v.into_iter().map(|(_, v)| v.clone()).collect()
            };
            let b = if self.plain {
                n.as_bytes().to_vec()
            } else if !all.is_empty() && self.r.gen_bool(0.4) {
                let b = pick(&mut self.r, &all).clone();
                if b.len() > 2000 {
                    continue;
                }
                match self.r.gen_range(0..5) {
                    0 | 1 => b, // same as another kind's
                    2 => [b.clone(), vec![self.r.gen_range(1..=255)]].concat(),
                    3 => b[..b.len().saturating_sub(1)].to_vec(),
                    _ => {
                        let mut b = b;
                        if let Some(x) = b.last_mut() {
                            *x = x.wrapping_add(1)
                        }
                        b
                    }
                }
            } else {
                odd_name(&mut self.r)
            };
            let norm = if kind == "rec" { hmac_norm(&b) } else { b.clone() };
            if self.used.insert((kind.to_string(), norm)) {
                self.names.insert(key, b.clone());
                return b;
            }
        }
    }

    pub fn counter(&mut self, n: &str) -> usize {
        if let Some(c) = self.counters.get(n) {
            return *c;
        }
        loop {
            let c = *pick(&mut self.r, &[0usize, 1, 2, 3, 9, 10, 11, 100, 255, 256, usize::MAX, usize::MAX - 1]);
            if !self.counters.values().any(|x| *x == c) {
                self.counters.insert(n.into(), c);
                return c;
            }
        }
    }

    pub fn is_counter(rec: &str) -> bool {
        rec.starts_with('c')
    }

    pub fn loc(&mut self, v: &str, rec: &str) -> Location {
        let vp = self.name("vault", v);
        if Self::is_counter(rec) {
            Location::counter(vp, self.counter(rec))
        } else {
            Location::generic(vp, self.name("rec", rec))
        }
    }

    pub fn pay(&mut self, p: &str) -> Vec<u8> {
        let key = format!("pay:{p}");
        if let Some(v) = self.names.get(&key) {
            return v.clone();
        }
        let n = self.plen[p];
        let mut b = match self.r.gen_range(0..4) {
            0 => vec![0u8; n],
            1 => vec![self.r.gen(); n],
            _ => rbytes(&mut self.r, n),
        };
        if b.len() > 64 && self.r.gen_bool(0.5) {
            // compressible content
            let k = b.len() / 2;
            for x in &mut b[k..] {
                *x = 7
            }
        }
        while self.names.iter().any(|(k, v)| k.starts_with("pay:") && *v == b) {
            b = rbytes(&mut self.r, n);
        }
        self.names.insert(key, b.clone());
        b
    }

    /// Arbitrary bytes fixed for the behaviour.
    pub fn blob(&mut self, tag: &str, lens: &[usize]) -> Vec<u8> {
        let key = format!("blob:{tag}");
        if let Some(v) = self.names.get(&key) {
            return v.clone();
        }
        let n = *pick(&mut self.r, lens);
        let b = rbytes(&mut self.r, n);
        self.names.insert(key, b.clone());
        b
    }

    pub fn store_key(&mut self, k: &str) -> Vec<u8> {
        self.name("skey", k)
    }
    pub fn store_val(&mut self, v: &str) -> Vec<u8> {
        self.blob(&format!("sval-{v}"), &[0, 1, 2, 31, 32, 300, 5000])
    }

    pub fn key(&mut self, k: &str) -> KeyProvider {
        let kind = format!("key:{k}");
        if !self.names.contains_key(&kind) {
            loop {
                // key names differ in at least one byte; sometimes in exactly one
                let others: Vec<Vec<u8>> = {
                    let mut v: Vec<_> = self.names.iter().filter(|(k, _)| k.starts_with("key:")).collect();
                    v.sort();
                    v.into_iter().map(|(_, v)| v.clone()).collect()
                };
                let b = if !others.is_empty() && self.r.gen_bool(0.6) {
                    let mut b = pick(&mut self.r, &others).clone();
                    let i = self.r.gen_range(1..b.len());
                    b[i] ^= 1 << self.r.gen_range(0..8);
                    b
                } else {
                    let scheme = if self.r.gen_bool(0.03) { 4 } else { self.r.gen_range(0..4u8) };
                    let mut v = vec![scheme];
                    v.extend(rbytes(&mut self.r, 32));
                    v
                };
                let same = |o: &Vec<u8>| o[0] == b[0] && clamped(&o[1..]) == clamped(&b[1..]);
                if !others.iter().any(same) {
                    self.names.insert(kind.clone(), b);
                    break;
                }
            }
        }
        let b = self.names[&kind].clone();
        let spec = KeySpec { scheme: b[0], pass: b[1..].to_vec() };
        spec.provider()
    }

    // ------------------------------------------------------------------ terms
    pub fn eval(&mut self, t: &Value) -> Option<Vec<u8>> {
        let a = t.as_array().unwrap();
        let tag = a[0].as_str().unwrap();
        Some(match tag {
            "pay" => self.pay(a[1].as_str().unwrap()),
            "cat" => [self.eval(&a[1])?, self.eval(&a[2])?].concat(),
            "rnd" => self.known.get(&a[1].as_u64().unwrap())?.clone(),
            "bip39" => {
                let (m, p) = self.mnemonic(a[1].as_str().unwrap());
                bip39_seed(&m, &p.unwrap_or_default())
            }
            "pbkdf" => {
                let h = a[1].as_str().unwrap();
                let (pw, salt, count) = self.pbkdf_args(h);
                let mut out = vec![0u8; hash_len(h)];
                let count = core::num::NonZeroU32::new(count).unwrap();
                match h {
                    "h256" => pbkdf::PBKDF2_HMAC_SHA256(&pw, &salt, count, (&mut out[..]).try_into().unwrap()),
                    "h384" => pbkdf::PBKDF2_HMAC_SHA384(&pw, &salt, count, (&mut out[..]).try_into().unwrap()),
                    _ => pbkdf::PBKDF2_HMAC_SHA512(&pw, &salt, count, (&mut out[..]).try_into().unwrap()),
                };
                out
            }
            "hkdf" => {
                let h = a[1].as_str().unwrap();
                let ikm = self.eval(&a[2])?;
                let (salt, label) = self.hkdf_args(h);
                // RFC 5869; the output is one block
                let prk = hmac(h, &salt, &ikm);
                hmac(h, &prk, &[label, vec![1]].concat())
            }
            "ckdf" => {
                let k = a[1].as_str().unwrap();
                let z = self.eval(&a[2])?;
                let c = self.ckdf_args(k);
                let mut out = vec![];
                let mut i = 1u32;
                while out.len() < c.len {
                    let m = [
                        i.to_be_bytes().to_vec(),
                        z.clone(),
                        (c.alg.len() as u32).to_be_bytes().to_vec(),
                        c.alg.clone().into_bytes(),
                        (c.apu.len() as u32).to_be_bytes().to_vec(),
                        c.apu.clone(),
                        (c.apv.len() as u32).to_be_bytes().to_vec(),
                        c.apv.clone(),
                        c.pubi.clone(),
                        c.privi.clone(),
                    ]
                    .concat();
                    out.extend(hash(c.hash, &m));
                    i += 1;
                }
                out.truncate(c.len);
                out
            }
            "dh" => {
                let pk = self.dh_pub(a[1].as_str().unwrap());
                let sk = x25519::SecretKey::try_from_slice(&self.eval(&a[2])?).ok()?;
                sk.diffie_hellman(&x25519::PublicKey::from_bytes(pk)).to_bytes().to_vec()
            }
            "s10" => {
                let p = a[1].as_str().unwrap();
                let src = self.eval(&a[3])?;
                let mut k = if p == "s10seed" {
                    let mut i = vec![0u8; 64];
                    HMAC_SHA512(&src, b"ed25519 seed", (&mut i[..]).try_into().unwrap());
                    i
                } else {
                    src
                };
                for s in self.chain(a[2].as_str().unwrap()) {
                    let data = [vec![0u8], k[..32].to_vec(), s.to_be_bytes().to_vec()].concat();
                    let mut i = vec![0u8; 64];
                    HMAC_SHA512(&data, &k[32..], (&mut i[..]).try_into().unwrap());
                    k = i;
                }
                k
            }
            _ => panic!("term {t}"),
        })
    }

    pub fn mnemonic(&mut self, m: &str) -> (String, Option<String>) {
        let e = self.blob(&format!("mn-{m}"), &[34]);
        let wl = if e[32] & 1 == 0 { bip39::wordlist::ENGLISH } else { bip39::wordlist::JAPANESE };
        let mn = if e[32] & 6 == 0 {
            "not a mnemonic at all".into() // any sentence is accepted
        } else {
            bip39::wordlist::encode(&e[..32], &wl).unwrap()
        };
        let pass = match e[33] % 3 {
            0 => None,
            1 => Some(String::new()),
            _ => Some(format!("пасс{}", e[0])),
        };
        (format!("{mn}{}", if m == "m2" { " x" } else { "" }), pass)
    }
    pub fn pbkdf_args(&mut self, h: &str) -> (Vec<u8>, Vec<u8>, u32) {
        let pw = self.blob(&format!("pw-{h}"), &[0, 1, 20, 200]);
        let salt = self.blob(&format!("salt-{h}"), &[0, 1, 16, 70]);
        let c = self.blob(&format!("cnt-{h}"), &[1])[0] % 5 + 1;
        (pw, salt, c as u32)
    }
    pub fn hkdf_args(&mut self, h: &str) -> (Vec<u8>, Vec<u8>) {
        (self.blob(&format!("hs-{h}"), &[0, 1, 32, 200]), self.blob(&format!("hl-{h}"), &[0, 1, 32, 200]))
    }
    pub fn ckdf_args(&mut self, k: &str) -> Ckdf {
        let len = match k {
            "k16" => 16,
            "k32" => 32,
            _ => 100,
        };
        let hash = ["h256", "h384", "h512"][self.blob(&format!("ch-{k}"), &[1])[0] as usize % 3];
        let n = self.blob(&format!("ca-{k}"), &[0, 1, 9]).len();
        Ckdf {
            hash,
            len,
            alg: "ECDH-ES+A256KW"[..n].to_string(),
            apu: self.blob(&format!("cu-{k}"), &[0, 1, 7]),
            apv: self.blob(&format!("cv-{k}"), &[0, 1, 7]),
            pubi: self.blob(&format!("cp-{k}"), &[0, 4]),
            privi: self.blob(&format!("cr-{k}"), &[0, 4]),
        }
    }
    pub fn dh_pub(&mut self, k: &str) -> [u8; 32] {
        let b = self.blob(&format!("dh-{k}"), &[32]);
        let sk = x25519::SecretKey::try_from_slice(&b).unwrap();
        sk.public_key().to_bytes()
    }
    pub fn chain(&mut self, c: &str) -> Vec<u32> {
        let b = self.blob(&format!("chain-{c}"), &[16]);
        let seg = |i: usize| u32::from_be_bytes(b[4 * i..4 * i + 4].try_into().unwrap());
        match c {
            "c0" => vec![],
            "c1" => vec![seg(0) | 1 << 31],
            "c2" => vec![seg(0) | 1 << 31, seg(1) | 1 << 31, 1 << 31],
            _ => vec![seg(0) | 1 << 31, seg(1) & !(1 << 31), seg(2) | 1 << 31],
        }
    }
    pub fn msg(&mut self, m: &str) -> Vec<u8> {
        self.blob(&format!("msg-{m}"), &[0, 1, 33, 500])
    }
    pub fn aead_args(&mut self, alg: &str) -> (Vec<u8>, Vec<u8>, Vec<u8>) {
        let n = if alg == "gcm" { 12 } else { 24 };
        (
            self.blob(&format!("an-{alg}"), &[n]),
            self.blob(&format!("aa-{alg}"), &[0, 1, 40]),
            self.blob(&format!("ap-{alg}"), &[0, 1, 16, 17, 300]),
        )
    }

    /// The expected output of a procedure, if it can be computed.
    pub fn output(&mut self, o: &Value) -> Option<Expect> {
        let a = o.as_array().unwrap();
        Some(match a[0].as_str().unwrap() {
            "o_unit" => Expect::Bytes(vec![]),
            "o_mnemonic" => Expect::Mnemonic(a[1].as_u64().unwrap()),
            "o_cc" => Expect::Bytes(self.eval(&a[1])?[32..].to_vec()),
            "o_wrap" => Expect::Bytes(kw_wrap(&self.eval(&a[1])?, &self.eval(&a[2])?)),
            "o_cmp" => Expect::Bytes(vec![(self.eval(&a[1])? == self.eval(&a[2])?) as u8]),
            "o_use" => {
                let sec = self.eval(&a[3])?;
                Expect::Bytes(match a[1].as_str().unwrap() {
                    "pub_ed" => ed(&sec).public_key().to_bytes().to_vec(),
                    "sign" => {
                        let m = self.msg(a[2].as_str().unwrap());
                        ed(&sec).sign(&m).to_bytes().to_vec()
                    }
                    "pub_x" => x25519::SecretKey::try_from_slice(&sec).unwrap().public_key().to_bytes().to_vec(),
                    "hmac" => {
                        let h = a[2].as_str().unwrap();
                        let m = self.msg(h);
                        hmac(h, &sec, &m)
                    }
                    "aeadenc" => {
                        let alg = a[2][0].as_str().unwrap();
                        let (n, ad, pt) = self.aead_args(alg);
                        let (t, c) = aead_enc(alg, &sec, &n, &ad, &pt);
                        [t, c].concat()
                    }
                    x => panic!("output {x}"),
                })
            }
            "o_plain" => Expect::Plain,
            x => panic!("output {x}"),
        })
    }
}

pub enum Expect {
    Bytes(Vec<u8>),
    Mnemonic(u64),
    Plain,
}

pub struct Ckdf {
    pub hash: &'static str,
    pub len: usize,
    pub alg: String,
    pub apu: Vec<u8>,
    pub apv: Vec<u8>,
    pub pubi: Vec<u8>,
    pub privi: Vec<u8>,
}

impl KeySpec {
    pub fn provider(&self) -> KeyProvider {
        let p = self.pass.clone();
        match self.scheme {
            0 => KeyProvider::try_from(p).unwrap(),
            1 => KeyProvider::with_passphrase_truncated(p).unwrap(),
            2 => KeyProvider::with_passphrase_hashed_blake2b(p).unwrap(),
            3 => {
                use crypto::hashes::Digest;
                KeyProvider::with_passphrase_hashed(p, crypto::hashes::sha::Sha256::new()).unwrap()
            }
            _ => KeyProvider::with_passphrase_hashed_argon2(p, b"some salt".to_vec()).unwrap(),
        }
    }
}

pub fn hash_len(h: &str) -> usize {
    match h {
        "h256" => 32,
        "h384" => 48,
        _ => 64,
    }
}
pub fn hash(h: &str, m: &[u8]) -> Vec<u8> {
    let mut o = vec![0u8; hash_len(h)];
    match h {
        "h256" => SHA256(m, (&mut o[..]).try_into().unwrap()),
        "h384" => SHA384(m, (&mut o[..]).try_into().unwrap()),
        _ => SHA512(m, (&mut o[..]).try_into().unwrap()),
    }
    o
}
pub fn hmac(h: &str, key: &[u8], m: &[u8]) -> Vec<u8> {
    let mut o = vec![0u8; hash_len(h)];
    match h {
        "h256" => HMAC_SHA256(m, key, (&mut o[..]).try_into().unwrap()),
        "h384" => HMAC_SHA384(m, key, (&mut o[..]).try_into().unwrap()),
        _ => HMAC_SHA512(m, key, (&mut o[..]).try_into().unwrap()),
    }
    o
}
pub fn ed(sec: &[u8]) -> ed25519::SecretKey {
    ed25519::SecretKey::from_bytes(sec[..32].try_into().unwrap())
}
pub fn bip39_seed(m: &str, pass: &str) -> Vec<u8> {
    let mut seed = [0u8; 64];
    bip39::mnemonic_to_seed(m, pass, &mut seed);
    seed.to_vec()
}
pub fn kw_wrap(kek: &[u8], data: &[u8]) -> Vec<u8> {
    let mut c = vec![0u8; data.len() + 8];
    Aes256Kw::new(kek).wrap_key(data, &mut c).unwrap();
    c
}
pub fn kw_unwrap(kek: &[u8], ct: &[u8]) -> Option<Vec<u8>> {
    let mut p = vec![0u8; ct.len() - 8];
    Aes256Kw::new(kek).unwrap_key(ct, &mut p).ok()?;
    Some(p)
}
pub fn aead_enc(alg: &str, key: &[u8], nonce: &[u8], ad: &[u8], pt: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let mut ct = vec![0u8; pt.len()];
    if alg == "gcm" {
        let mut t = crypto::ciphers::traits::Tag::<Aes256Gcm>::default();
        Aes256Gcm::try_encrypt(key, nonce, ad, pt, &mut ct, &mut t).unwrap();
        (t.to_vec(), ct)
    } else {
        let mut t = crypto::ciphers::traits::Tag::<XChaCha20Poly1305>::default();
        XChaCha20Poly1305::try_encrypt(key, nonce, ad, pt, &mut ct, &mut t).unwrap();
        (t.to_vec(), ct)
    }
}
