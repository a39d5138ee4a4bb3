//! The device services the library calls (crypto, measurements, PSK, application
//! handlers), with every call recorded, and with fault injection.
//! State is per thread, so simulations run in parallel threads independently.

use crate::util::*;
use spdmlib::crypto::*;
use spdmlib::error::*;
use spdmlib::message::{VendorDefinedReqPayloadStruct, VendorDefinedRspPayloadStruct, VendorDefinedStruct};
use spdmlib::protocol::*;
use spdmlib::secret::*;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Role {
    Req = 0,
    Rsp = 1,
    None = 2,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Svc {
    Rand = 0,
    Hash,
    HashInit,
    HashUpdate,
    HashFinal,
    HashDup,
    Hmac,
    HmacVerify,
    Encrypt,
    Decrypt,
    Verify,
    Sign,
    DheGen,
    DheFinal,
    HkdfExtract,
    HkdfExpand,
    GetCert,
    VerifyChain,
    PskHs,
    PskMs,
    Meas,
    MeasSum,
    App,
    Vendor,
    Send,
    Recv,
}
pub const NSVC: usize = 26;
pub const SVC_NAMES: [&str; NSVC] = [
    "rand", "hash", "hash_init", "hash_update", "hash_final", "hash_dup", "hmac", "hmac_verify", "encrypt",
    "decrypt", "verify", "sign", "dhe_gen", "dhe_final", "hkdf_extract", "hkdf_expand", "get_cert",
    "verify_chain", "psk_hs", "psk_ms", "meas", "meas_sum", "app", "vendor", "send", "recv",
];

#[derive(Clone, Debug)]
pub enum Ev {
    Rand { role: Role, data: Vec<u8> },
    Sign { role: Role, hash: usize, asym: u32, data: Vec<u8>, sig: Vec<u8> },
    Verify { role: Role, hash: usize, asym: u32, chain: Vec<u8>, data: Vec<u8>, sig: Vec<u8>, ok: bool },
    HmacGen { role: Role, key: Vec<u8>, data: Vec<u8>, out: Vec<u8> },
    HmacVer { role: Role, key: Vec<u8>, data: Vec<u8>, mac: Vec<u8>, ok: bool },
    Enc { role: Role, key: Vec<u8>, iv: Vec<u8>, aad: Vec<u8>, pt: Vec<u8>, ct: Vec<u8>, tag: Vec<u8> },
    Dec { role: Role, key: Vec<u8>, iv: Vec<u8>, aad: Vec<u8>, pt: Vec<u8>, ok: bool },
    DheGen { role: Role, x: u64, public: Vec<u8> },
    DheFinal { role: Role, peer: Vec<u8>, secret: Vec<u8> },
    VerifyChain { role: Role, chain: Vec<u8>, ok: bool },
    App { session: u32, data: Vec<u8>, reply: Vec<u8>, failed: bool },
    Vendor { data: Vec<u8>, reply: Vec<u8>, failed: bool },
    Tx { role: Role, frame: Vec<u8> },
    Rx { role: Role, frame: Vec<u8> },
    Call { name: &'static str },
    Ret { name: &'static str, ok: bool },
    Fault { role: Role, svc: Svc, nth: usize },
}

#[derive(Clone, Debug, Default)]
pub struct MeasBlock {
    pub index: u8,
    pub spec: u8,
    pub kind: u8, // type | representation
    pub value: Vec<u8>,
}
impl MeasBlock {
    pub fn encode(&self) -> Vec<u8> {
        let mut v = vec![self.index, self.spec];
        v.extend_from_slice(&((self.value.len() as u16 + 3).to_le_bytes()));
        v.push(self.kind);
        v.extend_from_slice(&(self.value.len() as u16).to_le_bytes());
        v.extend_from_slice(&self.value);
        v
    }
}

/// What a failing call looks like: it applies to calls number `from..from+len`
/// of any service in `mask`, made by `role`.
#[derive(Clone, Debug)]
pub struct FaultPlan {
    pub role: Option<Role>,
    pub mask: u32,
    pub from: usize,
    pub len: usize,
}

#[derive(Clone, Debug, Default)]
pub struct Dev {
    pub leaf_seed: Vec<u8>,
    pub meas: Vec<MeasBlock>,
    pub psk: Vec<u8>,
}

pub type AppFn = Box<dyn FnMut(u32, &[u8], &[u8]) -> Option<Vec<u8>>>;
pub type VendorFn = Box<dyn FnMut(&[u8]) -> Option<Vec<u8>>>;

#[derive(Clone, Debug)]
pub struct Secret {
    pub what: &'static str,
    pub role: Role,
    pub pat: usize,
    /// the secret it was derived from
    pub parent: Option<usize>,
    /// the sessions it may belong to; not known before the operation ends
    pub owner: Option<Vec<u32>>,
}

pub struct World {
    pub rng: Rng,
    pub ev: Vec<Ev>,
    pub record: bool,
    pub dev: [Dev; 3],
    pub fault: Option<FaultPlan>,
    pub fault_seen: usize,
    /// what was called, when a plan never fails anything (len 0)
    pub fault_calls: Vec<(Role, Svc)>,
    pub faults_fired: usize,
    pub svc_counts: [[u64; NSVC]; 3],
    pub hash_ctx: HashMap<usize, (Role, usize, Vec<u8>)>,
    pub next_ctx: usize,
    pub ctx_misuse: Vec<String>,
    /// (key, nonce) -> role, to see nonce reuse
    pub nonces: HashMap<(Vec<u8>, Vec<u8>), (Role, u64)>,
    pub nonce_reuse: Vec<String>,
    /// whoever can replay a PSK_EXCHANGE to a responder that adds no context of its own makes it
    /// derive the same keys again; that is how the protocol is
    pub psk_replays: bool,
    pub enc_count: u64,
    pub app: Option<AppFn>,
    pub vendor: Option<VendorFn>,
    /// secrets the library was given or derived: (what, bytes)
    pub secrets: Vec<Secret>,
    pub track_secrets: bool,
}

impl World {
    pub fn new(seed: u64) -> World {
        World {
            rng: Rng::new(seed),
            ev: Vec::new(),
            record: true,
            dev: Default::default(),
            fault: None,
            fault_seen: 0,
            fault_calls: Vec::new(),
            faults_fired: 0,
            svc_counts: [[0; NSVC]; 3],
            hash_ctx: HashMap::new(),
            next_ctx: 1,
            ctx_misuse: Vec::new(),
            nonces: HashMap::new(),
            nonce_reuse: Vec::new(),
            psk_replays: false,
            enc_count: 0,
            app: None,
            vendor: None,
            secrets: Vec::new(),
            track_secrets: false,
        }
    }
}

/// what the search for secrets saw
#[derive(Default)]
pub struct Leaks {
    pub found: Vec<String>,
    pub frames: u64,
    pub blocks: u64,
    pub settled: u64,
    /// secrets whose sessions were released
    pub over: u64,
    /// most secrets held by live sessions at once
    pub kept: u64,
}

thread_local! {
    pub static LEAKS: RefCell<Leaks> = RefCell::new(Leaks::default());
    pub static ROLE: Cell<Role> = const { Cell::new(Role::None) };
    /// every world from here on follows its secrets
    pub static TRACK: Cell<bool> = const { Cell::new(false) };
    pub static W: RefCell<World> = RefCell::new(World::new(0));
}

pub fn reset_world(seed: u64) {
    W.with(|w| *w.borrow_mut() = World::new(seed));
    ROLE.with(|r| r.set(Role::None));
    if TRACK.with(|t| t.get()) {
        crate::alloc::arm();
        with(|w| w.track_secrets = true);
    } else {
        crate::alloc::disarm();
    }
}
pub fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    let was = crate::alloc::pause();
    let r = W.with(|w| f(&mut w.borrow_mut()));
    crate::alloc::resume(was);
    r
}
pub fn role() -> Role {
    ROLE.with(|r| r.get())
}
pub fn set_role(r: Role) -> Role {
    crate::alloc::set_lib(match r {
        Role::None => 0,
        Role::Req => 1,
        Role::Rsp => 2,
    });
    ROLE.with(|c| c.replace(r))
}
pub fn log(e: Ev) {
    with(|w| {
        if w.record {
            w.ev.push(e)
        }
    })
}
fn secret(what: &'static str, b: &[u8], from: &[&[u8]]) {
    with(|w| {
        if w.track_secrets && b.len() >= 12 && b[..12].iter().any(|x| *x != 0) {
            if let Some(pat) = crate::alloc::register(b) {
                let parent = from.iter().find_map(|x| crate::alloc::which(x));
                w.secrets.push(Secret { what, role: role(), pat, parent, owner: None });
                // an erasure that stops half way leaves the end
                if b.len() >= 24 {
                    if let Some(end) = crate::alloc::register(&b[b.len() - 12..]) {
                        w.secrets.push(Secret { what: "end of a secret", role: role(), pat: end, parent: Some(pat), owner: None });
                    }
                }
            }
        }
    })
}

/// Count a service call; true means this call must fail.
pub fn svc(s: Svc) -> bool {
    let r = role();
    with(|w| {
        w.svc_counts[r as usize][s as usize] += 1;
        if r == Role::None {
            return false;
        }
        if let Some(p) = &w.fault {
            if p.role.map_or(true, |x| x == r) && p.mask >> (s as u32) & 1 == 1 {
                let n = w.fault_seen;
                w.fault_seen += 1;
                if p.len == 0 {
                    w.fault_calls.push((r, s));
                    return false;
                }
                if n >= p.from && n < p.from + p.len {
                    w.faults_fired += 1;
                    if w.record {
                        w.ev.push(Ev::Fault { role: r, svc: s, nth: n });
                    }
                    return true;
                }
            }
        }
        false
    })
}

// ------------------------------------------------------------------ hashes
pub fn hsize(a: SpdmBaseHashAlgo) -> usize {
    match a {
        SpdmBaseHashAlgo::TPM_ALG_SHA_256 => 32,
        SpdmBaseHashAlgo::TPM_ALG_SHA_384 => 48,
        SpdmBaseHashAlgo::TPM_ALG_SHA_512 => 64,
        _ => 0,
    }
}
fn digest(v: &[u8]) -> SpdmDigestStruct {
    SpdmDigestStruct::from(v)
}
fn hash_all(a: SpdmBaseHashAlgo, data: &[u8]) -> Option<SpdmDigestStruct> {
    if svc(Svc::Hash) || hsize(a) == 0 {
        return None;
    }
    if crate::mon::trace() && data.len() > 100 {
        eprintln!("  hash {}", data.iter().map(|x| format!("{:02x}", x)).collect::<String>());
    }
    Some(digest(&sha(hsize(a), data)))
}
#[cfg(feature = "hashed")]
fn ctx_init(a: SpdmBaseHashAlgo) -> Option<usize> {
    if svc(Svc::HashInit) || hsize(a) == 0 {
        return None;
    }
    let r = role();
    Some(with(|w| {
        let id = w.next_ctx;
        w.next_ctx += 1;
        w.hash_ctx.insert(id, (r, hsize(a), Vec::new()));
        id
    }))
}
#[cfg(feature = "hashed")]
fn ctx_update(c: usize, d: &[u8]) -> SpdmResult {
    if svc(Svc::HashUpdate) {
        return Err(SPDM_STATUS_CRYPTO_ERROR);
    }
    with(|w| match w.hash_ctx.get_mut(&c) {
        Some(x) => {
            x.2.extend_from_slice(d);
            Ok(())
        }
        None => {
            w.ctx_misuse.push(format!("update of unknown hash context {}", c));
            Err(SPDM_STATUS_CRYPTO_ERROR)
        }
    })
}
#[cfg(feature = "hashed")]
fn ctx_final(c: usize) -> Option<SpdmDigestStruct> {
    // the context is released whatever happens
    let x = with(|w| w.hash_ctx.remove(&c));
    if svc(Svc::HashFinal) {
        return None;
    }
    match x {
        Some((_, n, d)) => {
            if crate::mon::trace() {
                eprintln!("  hash {}", d.iter().map(|x| format!("{:02x}", x)).collect::<String>());
            }
            Some(digest(&sha(n, &d)))
        }
        None => {
            with(|w| w.ctx_misuse.push(format!("finalize of unknown hash context {}", c)));
            None
        }
    }
}
#[cfg(feature = "hashed")]
fn ctx_dup(c: usize) -> Option<usize> {
    if svc(Svc::HashDup) {
        return None;
    }
    let r = role();
    with(|w| {
        let x = match w.hash_ctx.get(&c) {
            Some(x) => (r, x.1, x.2.clone()),
            None => {
                w.ctx_misuse.push(format!("dup of unknown hash context {}", c));
                return None;
            }
        };
        let id = w.next_ctx;
        w.next_ctx += 1;
        w.hash_ctx.insert(id, x);
        Some(id)
    })
}
fn hmac_cb(a: SpdmBaseHashAlgo, key: &[u8], data: &[u8]) -> Option<SpdmDigestStruct> {
    let paused = crate::alloc::Paused::new();
    let _ = &paused;
    if svc(Svc::Hmac) || hsize(a) == 0 {
        return None;
    }
    let out = hmac(hsize(a), key, data);
    log(Ev::HmacGen { role: role(), key: key.to_vec(), data: data.to_vec(), out: out.clone() });
    Some(paused.give(|| digest(&out)))
}
fn hmac_verify_cb(a: SpdmBaseHashAlgo, key: &[u8], data: &[u8], m: &SpdmDigestStruct) -> SpdmResult {
    let paused = crate::alloc::Paused::new();
    let _ = &paused;
    if svc(Svc::HmacVerify) || hsize(a) == 0 {
        return Err(SPDM_STATUS_VERIF_FAIL);
    }
    let ok = m.as_ref() == &hmac(hsize(a), key, data)[..];
    log(Ev::HmacVer { role: role(), key: key.to_vec(), data: data.to_vec(), mac: m.as_ref().to_vec(), ok });
    if ok {
        Ok(())
    } else {
        Err(SPDM_STATUS_VERIF_FAIL)
    }
}
fn hkdf_extract_cb(
    a: SpdmBaseHashAlgo,
    salt: &[u8],
    ikm: &SpdmHkdfInputKeyingMaterial,
) -> Option<SpdmHkdfPseudoRandomKey> {
    let paused = crate::alloc::Paused::new();
    let _ = &paused;
    if svc(Svc::HkdfExtract) || hsize(a) == 0 {
        return None;
    }
    let o = hkdf_extract(hsize(a), salt, ikm.as_ref());
    secret("hkdf_extract", &o, &[ikm.as_ref(), salt]);
    Some(paused.give(|| SpdmHkdfPseudoRandomKey::from(&o[..])))
}
fn hkdf_expand_cb(
    a: SpdmBaseHashAlgo,
    prk: &SpdmHkdfPseudoRandomKey,
    info: &[u8],
    n: u16,
) -> Option<SpdmHkdfOutputKeyingMaterial> {
    let paused = crate::alloc::Paused::new();
    let _ = &paused;
    if svc(Svc::HkdfExpand) || hsize(a) == 0 || n as usize > SPDM_MAX_HKDF_OKM_SIZE {
        return None;
    }
    let o = hkdf_expand(hsize(a), prk.as_ref(), info, n as usize);
    if n >= 12 {
        secret("hkdf_expand", &o, &[prk.as_ref()]);
    }
    Some(paused.give(|| SpdmHkdfOutputKeyingMaterial::from(&o[..])))
}

// ------------------------------------------------------------------ AEAD
pub fn aead_seal(key: &[u8], iv: &[u8], aad: &[u8], pt: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let mut seed = key.to_vec();
    seed.extend_from_slice(iv);
    let ks = expand(b"ks", &seed, pt.len());
    let ct: Vec<u8> = pt.iter().zip(&ks).map(|(a, b)| a ^ b).collect();
    (ct.clone(), aead_tag(key, iv, aad, &ct))
}
fn aead_tag(key: &[u8], iv: &[u8], aad: &[u8], ct: &[u8]) -> Vec<u8> {
    let mut m = iv.to_vec();
    m.extend_from_slice(&(aad.len() as u32).to_le_bytes());
    m.extend_from_slice(aad);
    m.extend_from_slice(ct);
    let mut t = hmac(32, key, &m);
    t.truncate(16);
    t
}
pub fn aead_open(key: &[u8], iv: &[u8], aad: &[u8], ct: &[u8], tag: &[u8]) -> Option<Vec<u8>> {
    if aead_tag(key, iv, aad, ct) != tag {
        return None;
    }
    let mut seed = key.to_vec();
    seed.extend_from_slice(iv);
    let ks = expand(b"ks", &seed, ct.len());
    Some(ct.iter().zip(&ks).map(|(a, b)| a ^ b).collect())
}
fn encrypt_cb(
    _a: SpdmAeadAlgo,
    key: &SpdmAeadKeyStruct,
    iv: &SpdmAeadIvStruct,
    aad: &[u8],
    pt: &[u8],
    tag: &mut [u8],
    ct: &mut [u8],
) -> SpdmResult<(usize, usize)> {
    let paused = crate::alloc::Paused::new();
    let _ = &paused;
    if svc(Svc::Encrypt) || tag.len() != 16 || ct.len() < pt.len() {
        return Err(SPDM_STATUS_CRYPTO_ERROR);
    }
    let (c, t) = aead_seal(key.as_ref(), iv.as_ref(), aad, pt);
    ct[..c.len()].copy_from_slice(&c);
    tag.copy_from_slice(&t);
    let r = role();
    with(|w| {
        w.enc_count += 1;
        let n = w.enc_count;
        if let Some(prev) = w.nonces.insert((key.as_ref().to_vec(), iv.as_ref().to_vec()), (r, n)) {
          if !(w.psk_replays && r == Role::Rsp && prev.0 == Role::Rsp) {
            w.nonce_reuse.push(format!(
                "{:?} encrypts with key {} nonce {} already used by {:?} (encryption #{}, now #{})",
                r,
                hexs(key.as_ref()),
                hexs(iv.as_ref()),
                prev.0,
                prev.1,
                n
            ));
          }
        }
        if w.record {
            w.ev.push(Ev::Enc {
                role: r,
                key: key.as_ref().to_vec(),
                iv: iv.as_ref().to_vec(),
                aad: aad.to_vec(),
                pt: pt.to_vec(),
                ct: c.clone(),
                tag: t.clone(),
            });
        }
    });
    Ok((c.len(), t.len()))
}
fn decrypt_cb(
    _a: SpdmAeadAlgo,
    key: &SpdmAeadKeyStruct,
    iv: &SpdmAeadIvStruct,
    aad: &[u8],
    ct: &[u8],
    tag: &[u8],
    pt: &mut [u8],
) -> SpdmResult<usize> {
    let paused = crate::alloc::Paused::new();
    let _ = &paused;
    if svc(Svc::Decrypt) || pt.len() < ct.len() {
        return Err(SPDM_STATUS_CRYPTO_ERROR);
    }
    let o = aead_open(key.as_ref(), iv.as_ref(), aad, ct, tag);
    log(Ev::Dec {
        role: role(),
        key: key.as_ref().to_vec(),
        iv: iv.as_ref().to_vec(),
        aad: aad.to_vec(),
        pt: o.clone().unwrap_or_default(),
        ok: o.is_some(),
    });
    match o {
        Some(p) => {
            pt[..p.len()].copy_from_slice(&p);
            Ok(p.len())
        }
        None => Err(SPDM_STATUS_CRYPTO_ERROR),
    }
}

// ------------------------------------------------------------------ toy certificates
// 30 82 len2 | "TOYC" | ca | subject 8 | issuer 8 | pk 32 | filler len2 | filler | sig 32
pub fn seed_pk(seed: &[u8]) -> Vec<u8> {
    expand(b"pk", seed, 32)
}
fn cert_sig(issuer_pk: &[u8], tbs: &[u8]) -> Vec<u8> {
    let mut k = b"certsig".to_vec();
    k.extend_from_slice(issuer_pk);
    hmac(32, &k, tbs)
}
pub fn make_cert(ca: bool, subject: &[u8], issuer: &[u8], pk: &[u8], issuer_pk: &[u8], filler: usize, fseed: u64) -> Vec<u8> {
    let mut t = b"TOYC".to_vec();
    t.push(ca as u8);
    t.extend_from_slice(&expand(b"id", subject, 8));
    t.extend_from_slice(&expand(b"id", issuer, 8));
    t.extend_from_slice(pk);
    t.extend_from_slice(&(filler as u16).to_be_bytes());
    t.extend_from_slice(&Rng::new(fseed).bytes(filler));
    let s = cert_sig(issuer_pk, &t);
    t.extend_from_slice(&s);
    let mut o = vec![0x30, 0x82];
    o.extend_from_slice(&(t.len() as u16).to_be_bytes());
    o.extend_from_slice(&t);
    o
}
pub const MIN_CERT: usize = 4 + 4 + 1 + 8 + 8 + 32 + 2 + 32;
pub fn split_chain(c: &[u8]) -> Option<Vec<(usize, usize)>> {
    let mut v = Vec::new();
    let mut p = 0;
    while p < c.len() {
        if c.len() - p < 4 || c[p] != 0x30 || c[p + 1] != 0x82 {
            return None;
        }
        let l = ((c[p + 2] as usize) << 8) | c[p + 3] as usize;
        if c.len() - p - 4 < l || l + 4 < MIN_CERT {
            return None;
        }
        let b = &c[p + 4..p + 4 + l];
        if &b[..4] != b"TOYC" || b[4] > 1 {
            return None;
        }
        let f = ((b[53] as usize) << 8) | b[54] as usize;
        if 55 + f + 32 != l {
            return None;
        }
        v.push((p, p + 4 + l));
        p += 4 + l;
    }
    if v.is_empty() {
        None
    } else {
        Some(v)
    }
}
pub fn cert_pk(cert: &[u8]) -> &[u8] {
    &cert[4 + 21..4 + 53]
}
pub fn chain_ok(c: &[u8]) -> bool {
    let v = match split_chain(c) {
        Some(v) => v,
        None => return false,
    };
    for (i, (b, e)) in v.iter().enumerate() {
        let cert = &c[*b..*e];
        let (ib, ie) = if i == 0 { v[0] } else { v[i - 1] };
        let iss = &c[ib..ie];
        let t = &cert[4..cert.len() - 32];
        if cert_sig(cert_pk(iss), t) != cert[cert.len() - 32..] {
            return false;
        }
        // issuer id of this = subject id of issuer
        if cert[4 + 13..4 + 21] != iss[4 + 5..4 + 13] {
            return false;
        }
        let last = i + 1 == v.len();
        if !last && cert[8] != 1 {
            return false;
        }
        if last && v.len() > 1 && cert[8] == 1 {
            return false;
        }
    }
    true
}
#[derive(Clone, Debug)]
pub struct ChainSpec {
    pub root: Vec<u8>, // seed of root
    pub inter: usize,
    pub leaf: Vec<u8>, // seed of leaf key
    pub size: usize,   // wanted total size (0: minimal)
    pub salt: u64,
}
pub fn make_chain(s: &ChainSpec) -> Vec<u8> {
    let n = 2 + s.inter;
    let min = n * MIN_CERT;
    let extra = s.size.saturating_sub(min);
    let mut out = Vec::new();
    let mut issuer_seed = s.root.clone();
    for i in 0..n {
        let seed = if i == 0 {
            s.root.clone()
        } else if i + 1 == n {
            s.leaf.clone()
        } else {
            let mut v = s.root.clone();
            v.extend_from_slice(b"inter");
            v.push(i as u8);
            v
        };
        // filler mostly in the leaf; the root must not depend on the salt
        let f = if i + 1 == n { extra } else { 0 };
        out.extend_from_slice(&make_cert(
            i + 1 != n,
            &seed,
            &issuer_seed,
            &seed_pk(&seed),
            &seed_pk(&issuer_seed),
            f,
            s.salt,
        ));
        issuer_seed = seed;
    }
    out
}
pub fn root_cert(root: &[u8]) -> Vec<u8> {
    make_cert(true, root, root, &seed_pk(root), &seed_pk(root), 0, 0)
}
pub fn leaf_pk_of(chain: &[u8]) -> Option<Vec<u8>> {
    let v = split_chain(chain)?;
    let (b, e) = *v.last()?;
    Some(cert_pk(&chain[b..e]).to_vec())
}
fn get_cert_cb(chain: &[u8], index: isize) -> SpdmResult<(usize, usize)> {
    if svc(Svc::GetCert) {
        return Err(SPDM_STATUS_INVALID_CERT);
    }
    let v = split_chain(chain).ok_or(SPDM_STATUS_INVALID_CERT)?;
    if index < 0 {
        return v.last().copied().ok_or(SPDM_STATUS_INVALID_CERT);
    }
    v.get(index as usize).copied().ok_or(SPDM_STATUS_INVALID_CERT)
}
fn verify_chain_cb(chain: &[u8]) -> SpdmResult {
    if svc(Svc::VerifyChain) {
        return Err(SPDM_STATUS_INVALID_CERT);
    }
    let ok = chain_ok(chain);
    log(Ev::VerifyChain { role: role(), chain: chain.to_vec(), ok });
    if ok {
        Ok(())
    } else {
        Err(SPDM_STATUS_INVALID_CERT)
    }
}

// ------------------------------------------------------------------ signatures
pub fn asym_size(bits: u32) -> usize {
    match bits {
        0x01 | 0x02 => 256,
        0x04 | 0x08 => 384,
        0x20 | 0x40 => 512,
        0x10 => 64,
        0x80 => 96,
        _ => 0,
    }
}
pub fn toy_sign(pk: &[u8], hash: usize, asym: u32, data: &[u8]) -> Vec<u8> {
    let mut k = b"sign".to_vec();
    k.extend_from_slice(pk);
    let mut m = vec![hash as u8];
    m.extend_from_slice(&asym.to_le_bytes());
    m.extend_from_slice(data);
    let h = hmac(32, &k, &m);
    expand(b"sig", &h, asym_size(asym))
}
fn sign_cb(h: SpdmBaseHashAlgo, a: SpdmBaseAsymAlgo, data: &[u8]) -> Option<SpdmSignatureStruct> {
    if svc(Svc::Sign) || hsize(h) == 0 || asym_size(a.bits()) == 0 {
        return None;
    }
    let r = role();
    let pk = with(|w| seed_pk(&w.dev[r as usize].leaf_seed));
    let sig = toy_sign(&pk, hsize(h), a.bits(), data);
    log(Ev::Sign { role: r, hash: hsize(h), asym: a.bits(), data: data.to_vec(), sig: sig.clone() });
    let mut s = SpdmSignatureStruct::default();
    s.data_size = sig.len() as u16;
    s.data[..sig.len()].copy_from_slice(&sig);
    Some(s)
}
fn verify_cb(
    h: SpdmBaseHashAlgo,
    a: SpdmBaseAsymAlgo,
    chain: &[u8],
    data: &[u8],
    sig: &SpdmSignatureStruct,
) -> SpdmResult {
    if svc(Svc::Verify) {
        return Err(SPDM_STATUS_VERIF_FAIL);
    }
    let ok = match leaf_pk_of(chain) {
        Some(pk) if hsize(h) != 0 && asym_size(a.bits()) != 0 => {
            toy_sign(&pk, hsize(h), a.bits(), data) == sig.as_ref()
        }
        _ => false,
    };
    if crate::mon::trace() {
        eprintln!("  verify {} {}", ok, data.iter().map(|x| format!("{:02x}", x)).collect::<String>());
    }
    log(Ev::Verify {
        role: role(),
        hash: hsize(h),
        asym: a.bits(),
        chain: chain.to_vec(),
        data: data.to_vec(),
        sig: sig.as_ref().to_vec(),
        ok,
    });
    if ok {
        Ok(())
    } else {
        Err(SPDM_STATUS_VERIF_FAIL)
    }
}

// ------------------------------------------------------------------ DHE
const P61: u128 = (1u128 << 61) - 1;
fn powmod(g: u64, mut e: u64) -> u64 {
    let mut b = g as u128 % P61;
    let mut r = 1u128;
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % P61;
        }
        b = b * b % P61;
        e >>= 1;
    }
    r as u64
}
pub fn dhe_size(bits: u16) -> usize {
    match bits {
        0x08 => 64,
        0x10 => 96,
        _ => 0,
    }
}
pub fn dhe_public(bits: u16, x: u64) -> Vec<u8> {
    let v = powmod(3, x).to_le_bytes();
    let mut o = v.to_vec();
    o.extend_from_slice(&expand(b"dhepub", &v, dhe_size(bits) - 8));
    o
}
pub fn dhe_shared(bits: u16, x: u64, peer: &[u8]) -> Option<Vec<u8>> {
    if peer.len() != dhe_size(bits) || peer.len() < 8 {
        return None;
    }
    if expand(b"dhepub", &peer[..8], peer.len() - 8) != peer[8..] {
        return None;
    }
    let mut v = [0u8; 8];
    v.copy_from_slice(&peer[..8]);
    let v = u64::from_le_bytes(v);
    if v == 0 || v as u128 >= P61 {
        return None;
    }
    let s = powmod(v, x).to_le_bytes();
    Some(expand(b"dhesec", &s, dhe_size(bits) / 2))
}
struct DheKey {
    bits: u16,
    x: u64,
}
impl SpdmDheKeyExchange for DheKey {
    fn compute_final_key(self: Box<Self>, peer: &SpdmDheExchangeStruct) -> Option<SpdmDheFinalKeyStruct> {
    let paused = crate::alloc::Paused::new();
    let _ = &paused;
        if svc(Svc::DheFinal) {
            return None;
        }
        let s = dhe_shared(self.bits, self.x, peer.as_ref())?;
        log(Ev::DheFinal { role: role(), peer: peer.as_ref().to_vec(), secret: s.clone() });
        secret("dhe_secret", &s, &[]);
        // as the crypto back end of the library does it
        Some(paused.give(|| {
            let mut b = spdmlib::crypto::bytes_mut_scrubbed::BytesMutStrubbed::new();
            b.extend_from_slice(&s);
            SpdmDheFinalKeyStruct::from(b)
        }))
    }
}
fn dhe_gen(a: SpdmDheAlgo) -> Option<(SpdmDheExchangeStruct, Box<dyn SpdmDheKeyExchange>)> {
    if svc(Svc::DheGen) || dhe_size(a.bits()) == 0 {
        return None;
    }
    let x = with(|w| w.rng.next() >> 4);
    let p = dhe_public(a.bits(), x);
    log(Ev::DheGen { role: role(), x, public: p.clone() });
    let mut s = SpdmDheExchangeStruct::default();
    s.data_size = p.len() as u16;
    s.data[..p.len()].copy_from_slice(&p);
    Some((s, Box::new(DheKey { bits: a.bits(), x })))
}
fn rand_cb(d: &mut [u8]) -> SpdmResult<usize> {
    if svc(Svc::Rand) {
        return Err(SPDM_STATUS_LOW_ENTROPY);
    }
    with(|w| w.rng.fill(d));
    log(Ev::Rand { role: role(), data: d.to_vec() });
    Ok(d.len())
}

// ------------------------------------------------------------------ PSK
pub fn ver_str(v: u8) -> Vec<u8> {
    let mut s = b"spdm1.".to_vec();
    s.push(b'0' + (v & 0xf));
    s.push(b' ');
    s
}
pub fn bin_concat(ver: u8, label: &[u8], len: u16, ctx: Option<&[u8]>) -> Vec<u8> {
    let mut v = len.to_le_bytes().to_vec();
    v.extend_from_slice(&ver_str(ver));
    v.extend_from_slice(label);
    if let Some(c) = ctx {
        v.extend_from_slice(c);
    }
    v
}
pub fn psk_key(base: &[u8], hint: &[u8]) -> Vec<u8> {
    let mut v = base.to_vec();
    v.extend_from_slice(hint);
    expand(b"psk", &v, 32)
}
/// handshake secret of a PSK
pub fn psk_handshake(h: usize, psk: &[u8]) -> Vec<u8> {
    hkdf_extract(h, &vec![0u8; h], psk)
}
pub fn master_from_handshake(ver: u8, h: usize, hs: &[u8]) -> Vec<u8> {
    let salt1 = hkdf_expand(h, hs, &bin_concat(ver, b"derived", h as u16, None), h);
    hkdf_extract(h, &salt1, &vec![0u8; h])
}
fn psk_hs_cb(
    _v: SpdmVersion,
    a: SpdmBaseHashAlgo,
    hint: &SpdmPskHintStruct,
    info: &[u8],
) -> Option<SpdmHkdfOutputKeyingMaterial> {
    let paused = crate::alloc::Paused::new();
    let _ = &paused;
    if svc(Svc::PskHs) || hsize(a) == 0 {
        return None;
    }
    let r = role();
    let k = with(|w| psk_key(&w.dev[r as usize].psk, hint.as_ref()));
    let hs = psk_handshake(hsize(a), &k);
    let o = hkdf_expand(hsize(a), &hs, info, hsize(a));
    secret("psk_hs", &o, &[]);
    Some(paused.give(|| SpdmHkdfOutputKeyingMaterial::from(&o[..])))
}
fn psk_ms_cb(
    v: SpdmVersion,
    a: SpdmBaseHashAlgo,
    hint: &SpdmPskHintStruct,
    info: &[u8],
) -> Option<SpdmHkdfOutputKeyingMaterial> {
    let paused = crate::alloc::Paused::new();
    let _ = &paused;
    if svc(Svc::PskMs) || hsize(a) == 0 {
        return None;
    }
    let r = role();
    let k = with(|w| psk_key(&w.dev[r as usize].psk, hint.as_ref()));
    let ms = master_from_handshake(v.get_u8(), hsize(a), &psk_handshake(hsize(a), &k));
    let o = hkdf_expand(hsize(a), &ms, info, hsize(a));
    secret("psk_ms", &o, &[]);
    Some(paused.give(|| SpdmHkdfOutputKeyingMaterial::from(&o[..])))
}

// ------------------------------------------------------------------ measurements
pub fn meas_record(m: &[MeasBlock], index: usize) -> Option<(u8, Vec<u8>)> {
    if index == 0 {
        return Some((m.len() as u8, vec![]));
    }
    if index == 0xff {
        let mut v = Vec::new();
        for b in m {
            v.extend_from_slice(&b.encode());
        }
        return Some((m.len() as u8, v));
    }
    m.iter().find(|b| b.index as usize == index).map(|b| (1, b.encode()))
}
fn meas_cb(
    _v: SpdmVersion,
    _s: SpdmMeasurementSpecification,
    _h: SpdmMeasurementHashAlgo,
    index: usize,
) -> Option<SpdmMeasurementRecordStructure> {
    if svc(Svc::Meas) {
        return None;
    }
    let r = role();
    let (n, d) = with(|w| meas_record(&w.dev[r as usize].meas, index))?;
    let mut s = SpdmMeasurementRecordStructure::default();
    if d.len() > s.measurement_record_data.len() {
        return None;
    }
    s.number_of_blocks = n;
    s.measurement_record_length = codec::u24::new(d.len() as u32);
    s.measurement_record_data[..d.len()].copy_from_slice(&d);
    Some(s)
}
pub fn meas_summary(m: &[MeasBlock], h: usize, all: bool) -> Vec<u8> {
    let mut v = Vec::new();
    for b in m {
        if all || b.kind & 0x7f <= 1 {
            v.extend_from_slice(&b.encode());
        }
    }
    v.push(all as u8);
    sha(h, &v)
}
fn meas_sum_cb(
    _v: SpdmVersion,
    h: SpdmBaseHashAlgo,
    _s: SpdmMeasurementSpecification,
    _m: SpdmMeasurementHashAlgo,
    t: SpdmMeasurementSummaryHashType,
) -> Option<SpdmDigestStruct> {
    if svc(Svc::MeasSum) || hsize(h) == 0 {
        return None;
    }
    let r = role();
    match t {
        SpdmMeasurementSummaryHashType::SpdmMeasurementSummaryHashTypeTcb => {
            Some(digest(&with(|w| meas_summary(&w.dev[r as usize].meas, hsize(h), false))))
        }
        SpdmMeasurementSummaryHashType::SpdmMeasurementSummaryHashTypeAll => {
            Some(digest(&with(|w| meas_summary(&w.dev[r as usize].meas, hsize(h), true))))
        }
        _ => None,
    }
}

// ------------------------------------------------------------------ handlers
fn app_cb(
    _ctx: &mut spdmlib::responder::ResponderContext,
    session: u32,
    data: &[u8],
    aux: &[u8],
) -> SpdmResult<([u8; spdmlib::config::MAX_SPDM_MSG_SIZE], usize)> {
    let fail = svc(Svc::App);
    let was = crate::alloc::pause();
    let mut f = W.with(|w| w.borrow_mut().app.take());
    let mut reply = match (&mut f, fail) {
        (_, true) => None,
        (Some(f), _) => f(session, data, aux),
        (None, _) => Some(vec![]),
    };
    W.with(|w| w.borrow_mut().app = f);
    log(Ev::App {
        session,
        data: data.to_vec(),
        reply: reply.clone().unwrap_or_default(),
        failed: reply.is_none(),
    });
    crate::alloc::resume(was);
    let mut b = [0u8; spdmlib::config::MAX_SPDM_MSG_SIZE];
    match reply.take() {
        Some(r) => {
            b[..r.len()].copy_from_slice(&r);
            Ok((b, r.len()))
        }
        None => Err(SPDM_STATUS_UNSUPPORTED_CAP),
    }
}
fn vendor_cb(p: &VendorDefinedReqPayloadStruct) -> SpdmResult<VendorDefinedRspPayloadStruct> {
    let fail = svc(Svc::Vendor);
    let n = (p.req_length as usize).min(p.vendor_defined_req_payload.len());
    let data = p.vendor_defined_req_payload[..n].to_vec();
    let mut f = W.with(|w| w.borrow_mut().vendor.take());
    let reply = match (&mut f, fail) {
        (_, true) => None,
        (Some(f), _) => f(&data),
        (None, _) => Some(vec![]),
    };
    W.with(|w| w.borrow_mut().vendor = f);
    log(Ev::Vendor { data, reply: reply.clone().unwrap_or_default(), failed: reply.is_none() });
    match reply {
        Some(r) => {
            let mut s = VendorDefinedRspPayloadStruct {
                rsp_length: r.len() as u16,
                vendor_defined_rsp_payload: [0u8; spdmlib::message::MAX_SPDM_VENDOR_DEFINED_PAYLOAD_SIZE],
            };
            s.vendor_defined_rsp_payload[..r.len()].copy_from_slice(&r);
            Ok(s)
        }
        None => Err(SPDM_STATUS_INVALID_MSG_FIELD),
    }
}

pub fn register_all() {
    #[cfg(feature = "hashed")]
    let h = SpdmHash {
        hash_all_cb: hash_all,
        hash_ctx_init_cb: ctx_init,
        hash_ctx_update_cb: ctx_update,
        hash_ctx_finalize_cb: ctx_final,
        hash_ctx_dup_cb: ctx_dup,
    };
    #[cfg(not(feature = "hashed"))]
    let h = SpdmHash { hash_all_cb: hash_all };
    assert!(hash::register(h));
    assert!(spdmlib::crypto::hmac::register(SpdmHmac { hmac_cb, hmac_verify_cb }));
    assert!(aead::register(SpdmAead { encrypt_cb, decrypt_cb }));
    assert!(asym_verify::register(SpdmAsymVerify { verify_cb }));
    assert!(dhe::register(SpdmDhe { generate_key_pair_cb: dhe_gen }));
    assert!(cert_operation::register(SpdmCertOperation {
        get_cert_from_cert_chain_cb: get_cert_cb,
        verify_cert_chain_cb: verify_chain_cb,
    }));
    assert!(hkdf::register(SpdmHkdf { hkdf_extract_cb, hkdf_expand_cb }));
    assert!(rand::register(SpdmCryptoRandom { get_random_cb: rand_cb }));
    assert!(measurement::register(SpdmSecretMeasurement {
        measurement_collection_cb: meas_cb,
        generate_measurement_summary_hash_cb: meas_sum_cb,
    }));
    assert!(psk::register(SpdmSecretPsk {
        handshake_secret_hkdf_expand_cb: psk_hs_cb,
        master_secret_hkdf_expand_cb: psk_ms_cb,
    }));
    assert!(asym_sign::register(SpdmSecretAsymSign { sign_cb }));
    assert!(spdmlib::time::register(spdmlib::time::SpdmTime { sleep_cb: |_| {} }));
    assert!(spdmlib::responder::app_message_handler::register(
        spdmlib::responder::app_message_handler::SpdmAppMessageHandler { dispatch_secured_app_message_cb: app_cb }
    ));
    assert!(spdmlib::message::register_vendor_defined_struct(VendorDefinedStruct {
        vendor_defined_request_handler: vendor_cb
    }));
}
