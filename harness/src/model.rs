//! Reference model of an SPDM connection, written from DSP0274/DSP0277 and sharing
//! nothing with the library: message lengths, transcripts, signatures, key schedule,
//! secured records.

use crate::sim::{self, Ep, Kind, Trans};
use crate::util::*;
use crate::world::*;
use std::collections::HashMap;

pub fn u16le(b: &[u8], o: usize) -> Option<usize> {
    Some(*b.get(o)? as usize | (*b.get(o + 1)? as usize) << 8)
}
pub fn u32le(b: &[u8], o: usize) -> Option<u32> {
    Some(u16le(b, o)? as u32 | (u16le(b, o + 2)? as u32) << 16)
}
pub fn p16(v: &mut Vec<u8>, x: usize) {
    v.extend_from_slice(&(x as u16).to_le_bytes());
}
pub fn p32(v: &mut Vec<u8>, x: u32) {
    v.extend_from_slice(&x.to_le_bytes());
}

pub mod code {
    pub const GET_DIGESTS: u8 = 0x81;
    pub const GET_CERTIFICATE: u8 = 0x82;
    pub const CHALLENGE: u8 = 0x83;
    pub const GET_VERSION: u8 = 0x84;
    pub const GET_MEASUREMENTS: u8 = 0xE0;
    pub const GET_CAPABILITIES: u8 = 0xE1;
    pub const NEGOTIATE_ALGORITHMS: u8 = 0xE3;
    pub const KEY_EXCHANGE: u8 = 0xE4;
    pub const FINISH: u8 = 0xE5;
    pub const PSK_EXCHANGE: u8 = 0xE6;
    pub const PSK_FINISH: u8 = 0xE7;
    pub const HEARTBEAT: u8 = 0xE8;
    pub const KEY_UPDATE: u8 = 0xE9;
    pub const GET_ENCAP: u8 = 0xEA;
    pub const DELIVER_ENCAP: u8 = 0xEB;
    pub const END_SESSION: u8 = 0xEC;
    pub const VENDOR: u8 = 0xFE;
    pub const RESPOND_IF_READY: u8 = 0xFF;
    pub const DIGESTS: u8 = 0x01;
    pub const CERTIFICATE: u8 = 0x02;
    pub const CHALLENGE_AUTH: u8 = 0x03;
    pub const VERSION: u8 = 0x04;
    pub const MEASUREMENTS: u8 = 0x60;
    pub const CAPABILITIES: u8 = 0x61;
    pub const ALGORITHMS: u8 = 0x63;
    pub const KEY_EXCHANGE_RSP: u8 = 0x64;
    pub const FINISH_RSP: u8 = 0x65;
    pub const PSK_EXCHANGE_RSP: u8 = 0x66;
    pub const PSK_FINISH_RSP: u8 = 0x67;
    pub const HEARTBEAT_ACK: u8 = 0x68;
    pub const KEY_UPDATE_ACK: u8 = 0x69;
    pub const ENCAP_REQUEST: u8 = 0x6A;
    pub const ENCAP_ACK: u8 = 0x6B;
    pub const END_SESSION_ACK: u8 = 0x6C;
    pub const VENDOR_RSP: u8 = 0x7E;
    pub const ERROR: u8 = 0x7F;
}
use code::*;

/// the success response of a request code
pub fn answer_of(req: u8) -> u8 {
    match req {
        KEY_EXCHANGE => KEY_EXCHANGE_RSP,
        c => c & 0x7f,
    }
}

// capability bits
pub const R_CERT: u32 = 2;
pub const R_CHAL: u32 = 4;
pub const C_ENCRYPT: u32 = 0x40;
pub const C_MAC: u32 = 0x80;
pub const C_MUT: u32 = 0x100;
pub const C_KEX: u32 = 0x200;
pub const C_PSK: u32 = 0x400;
pub const C_PSK_CTX: u32 = 0x800;
pub const C_ENCAP: u32 = 0x1000;
pub const C_HBEAT: u32 = 0x2000;
pub const C_KEYUPD: u32 = 0x4000;
pub const C_HITC: u32 = 0x8000;
pub const S_CACHE: u32 = 1;
pub const S_MEAS_NOSIG: u32 = 8;
pub const S_MEAS_SIG: u32 = 0x10;

pub fn hash_len(bits: u32) -> usize {
    match bits {
        1 => 32,
        2 => 48,
        4 => 64,
        _ => 0,
    }
}
pub fn aead_key_len(bits: u16) -> usize {
    match bits {
        1 => 16,
        2 | 4 => 32,
        _ => 0,
    }
}
pub const ASYM_PRIO: [u32; 8] = [0x80, 0x10, 0x40, 0x08, 0x02, 0x20, 0x04, 0x01];
pub const HASH_PRIO: [u32; 3] = [4, 2, 1];
pub const DHE_PRIO: [u16; 2] = [0x10, 0x08];
pub const AEAD_PRIO: [u16; 3] = [2, 1, 4];

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Neg {
    pub ver: u8,
    pub req_caps: u32,
    pub rsp_caps: u32,
    pub req_ct: u8,
    pub rsp_ct: u8,
    pub req_dts: u32,
    pub req_max: u32,
    pub rsp_dts: u32,
    pub rsp_max: u32,
    pub mspec: u8,
    pub mhash: u32,
    pub hash: u32,
    pub asym: u32,
    pub dhe: u16,
    pub aead: u16,
    pub req_asym: u16,
    pub ks: u16,
    pub opaque: u8,
}
impl Neg {
    /// without the bits the library does not know (it takes no notice of them)
    pub fn known(&mut self) {
        self.mspec &= 1;
        self.opaque &= 3;
        self.mhash &= 0xff;
        self.asym &= 0xff;
        self.req_asym &= 0xff;
        self.hash &= 7;
        self.dhe &= 0x18;
        self.aead &= 7;
        self.ks &= 1;
    }
    pub fn h(&self) -> usize {
        hash_len(self.hash)
    }
    pub fn sig(&self) -> usize {
        asym_size(self.asym)
    }
    pub fn req_sig(&self) -> usize {
        asym_size(self.req_asym as u32)
    }
    pub fn cap(&self, bit: u32) -> bool {
        self.req_caps & bit != 0 && self.rsp_caps & bit != 0
    }
    pub fn hitc(&self) -> bool {
        self.cap(C_HITC)
    }
    pub fn digest(&self, d: &[u8]) -> Vec<u8> {
        sha(self.h(), d)
    }
}

// ------------------------------------------------------------------ lengths
/// exact length of a request (None: not decodable or too short)
pub fn req_len(n: &Neg, b: &[u8]) -> Option<usize> {
    let c = *b.get(1)?;
    let v = b[0];
    let l = match c {
        GET_VERSION | GET_DIGESTS | HEARTBEAT | KEY_UPDATE | GET_ENCAP | END_SESSION => 4,
        GET_CAPABILITIES => match v {
            0x10 => 4,
            0x11 => 12,
            _ => 20,
        },
        NEGOTIATE_ALGORITHMS => u16le(b, 4)?,
        GET_CERTIFICATE => 8,
        CHALLENGE => 36,
        GET_MEASUREMENTS => {
            if b.get(2)? & 1 == 1 {
                36 + (n.ver >= 0x11) as usize
            } else {
                4
            }
        }
        KEY_EXCHANGE => {
            let o = 8 + 32 + dhe_size(n.dhe);
            o + 2 + u16le(b, o)?
        }
        FINISH => 4 + if b.get(2)? & 1 == 1 { n.req_sig() } else { 0 } + n.h(),
        PSK_EXCHANGE => 12 + u16le(b, 6)? + u16le(b, 8)? + u16le(b, 10)?,
        PSK_FINISH => 4 + n.h(),
        VENDOR => {
            let i = 7 + *b.get(6)? as usize;
            i + 2 + u16le(b, i)?
        }
        RESPOND_IF_READY => 4,
        _ => b.len(),
    };
    if b.len() < l {
        None
    } else {
        Some(l)
    }
}

/// Positions inside a response.
#[derive(Clone, Debug, Default)]
pub struct Lay {
    pub len: usize,
    pub nonce: usize,
    pub summary: Option<usize>,
    pub record: (usize, usize),
    pub opaque: (usize, usize),
    pub sig: Option<usize>,
    pub verify: Option<usize>,
    pub exch: usize,
    pub ctx: (usize, usize),
}
/// layout of a success response to `req`; `clear_hs`: handshake in the clear
pub fn rsp_lay(n: &Neg, req: &[u8], b: &[u8]) -> Option<Lay> {
    let mut l = Lay::default();
    let h = n.h();
    let c = *b.get(1)?;
    match c {
        ERROR | HEARTBEAT_ACK | KEY_UPDATE_ACK | END_SESSION_ACK => l.len = 4,
        VERSION => l.len = 6 + 2 * *b.get(5)? as usize,
        CAPABILITIES => l.len = if b[0] >= 0x12 { 20 } else { 12 },
        ALGORITHMS => l.len = u16le(b, 4)?,
        DIGESTS => l.len = 4 + h * b.get(3)?.count_ones() as usize,
        CERTIFICATE => l.len = 8 + u16le(b, 4)?,
        CHALLENGE_AUTH => {
            let mut o = 4 + h;
            l.nonce = o;
            o += 32;
            if *req.get(3)? != 0 {
                l.summary = Some(o);
                o += h;
            }
            let m = u16le(b, o)?;
            l.opaque = (o + 2, m);
            o += 2 + m;
            l.sig = Some(o);
            l.len = o + n.sig();
        }
        MEASUREMENTS => {
            let m = *b.get(5)? as usize | (*b.get(6)? as usize) << 8 | (*b.get(7)? as usize) << 16;
            l.record = (8, m);
            let mut o = 8 + m;
            l.nonce = o;
            o += 32;
            let m = u16le(b, o)?;
            l.opaque = (o + 2, m);
            o += 2 + m;
            if *req.get(2)? & 1 == 1 {
                l.sig = Some(o);
                o += n.sig();
            }
            l.len = o;
        }
        KEY_EXCHANGE_RSP => {
            l.nonce = 8;
            l.exch = 40;
            let mut o = 40 + dhe_size(n.dhe);
            if *req.get(2)? != 0 {
                l.summary = Some(o);
                o += h;
            }
            let m = u16le(b, o)?;
            l.opaque = (o + 2, m);
            o += 2 + m;
            l.sig = Some(o);
            o += n.sig();
            if !n.hitc() {
                l.verify = Some(o);
                o += h;
            }
            l.len = o;
        }
        PSK_EXCHANGE_RSP => {
            let q = u16le(b, 8)?;
            let m = u16le(b, 10)?;
            let mut o = 12;
            if *req.get(2)? != 0 {
                l.summary = Some(o);
                o += h;
            }
            l.ctx = (o, q);
            o += q;
            l.opaque = (o, m);
            o += m;
            l.verify = Some(o);
            l.len = o + h;
        }
        FINISH_RSP => {
            l.len = 4;
            if n.hitc() {
                l.verify = Some(4);
                l.len += h;
            }
        }
        PSK_FINISH_RSP => l.len = 4,
        VENDOR_RSP => {
            let i = 7 + *b.get(6)? as usize;
            l.len = i + 2 + u16le(b, i)?;
        }
        _ => l.len = b.len(),
    }
    if b.len() < l.len {
        None
    } else {
        Some(l)
    }
}

// ------------------------------------------------------------------ signatures
pub const CTX_CHAL: &[u8] = b"responder-challenge_auth signing";
pub const CTX_MEAS: &[u8] = b"responder-measurements signing";
pub const CTX_KEX: &[u8] = b"responder-key_exchange_rsp signing";
pub const CTX_FIN: &[u8] = b"requester-finish signing";
/// what the signer's algorithm is applied to
pub fn signed_data(n: &Neg, label: &[u8], transcript: &[u8]) -> Vec<u8> {
    if n.ver >= 0x12 {
        let mut v = Vec::new();
        for _ in 0..4 {
            v.extend_from_slice(b"dmtf-spdm-v1.2.*");
        }
        v.resize(100 - label.len(), 0);
        v.extend_from_slice(label);
        v.extend_from_slice(&n.digest(transcript));
        v
    } else {
        transcript.to_vec()
    }
}
pub fn sign_as(n: &Neg, pk: &[u8], asym: u32, label: &[u8], transcript: &[u8]) -> Vec<u8> {
    toy_sign(pk, n.h(), asym, &signed_data(n, label, transcript))
}

/// certificate chain as SPDM formats it
pub fn fmt_chain(h: usize, data: &[u8]) -> Vec<u8> {
    let root = split_chain(data).and_then(|v| v.first().copied()).map(|(b, e)| data[b..e].to_vec()).unwrap_or_default();
    let mut v = Vec::new();
    p16(&mut v, 4 + h + data.len());
    p16(&mut v, 0);
    v.extend_from_slice(&sha(h, &root));
    v.extend_from_slice(data);
    v
}

// ------------------------------------------------------------------ sessions
#[derive(Clone, Debug, Default)]
pub struct Dir {
    pub secret: Vec<u8>,
    pub key: Vec<u8>,
    pub iv: Vec<u8>,
    pub seq: u64,
}
impl Dir {
    pub fn new(n: &Neg, secret: Vec<u8>) -> Dir {
        let h = n.h();
        let kl = aead_key_len(n.aead);
        let key = hkdf_expand(h, &secret, &bin_concat(n.ver, b"key", kl as u16, None), kl);
        let iv = hkdf_expand(h, &secret, &bin_concat(n.ver, b"iv", 12, None), 12);
        Dir { secret, key, iv, seq: 0 }
    }
    pub fn updated(&self, n: &Neg) -> Dir {
        let h = n.h();
        let s = hkdf_expand(h, &self.secret, &bin_concat(n.ver, b"traffic upd", h as u16, None), h);
        Dir::new(n, s)
    }
    pub fn nonce(&self) -> Vec<u8> {
        let mut v = self.iv.clone();
        for (i, b) in self.seq.to_le_bytes().iter().enumerate() {
            v[i] ^= b;
        }
        v
    }
}
pub const REQ: usize = 0;
pub const RSP: usize = 1;

#[derive(Clone, Debug, Default)]
pub struct Sess {
    pub id: u32,
    pub psk: bool,
    pub hint: Vec<u8>,
    pub hitc: bool,
    pub neg: Neg,
    /// A || Hash(Ct) || K ... growing
    pub th: Vec<u8>,
    pub th1: Vec<u8>,
    pub th2: Vec<u8>,
    pub hs_secret: Vec<u8>,
    pub master: Vec<u8>,
    pub fin: [Vec<u8>; 2],
    pub hs: [Dir; 2],
    pub app: [Dir; 2],
    pub gens: [u64; 2],
    pub estab: bool,
    pub mut_req: u8,
    pub slot: u8,
    pub m: Vec<u8>,
    /// upper bound of what an endpoint may have kept (a refused request may not reset it)
    pub m_hi: usize,
    pub hb: u8,
    pub records: u64,
    pub pending_ku: u8,
}
impl Sess {
    pub fn dir(&mut self, d: usize) -> &mut Dir {
        if self.estab {
            &mut self.app[d]
        } else {
            &mut self.hs[d]
        }
    }
    fn keyed(&mut self, psk_base: &[u8]) {
        let n = self.neg.clone();
        let h = n.h();
        let th1 = n.digest(&self.th1);
        let base = if self.psk { psk_handshake(h, &psk_key(psk_base, &self.hint)) } else { self.hs_secret.clone() };
        self.hs_secret = base.clone();
        self.master = master_from_handshake(n.ver, h, &base);
        for (i, l) in [(REQ, &b"req hs data"[..]), (RSP, b"rsp hs data")] {
            let s = hkdf_expand(h, &base, &bin_concat(n.ver, l, h as u16, Some(&th1)), h);
            self.fin[i] = hkdf_expand(h, &s, &bin_concat(n.ver, b"finished", h as u16, None), h);
            self.hs[i] = Dir::new(&n, s);
        }
    }
    pub fn finish(&mut self) {
        let n = self.neg.clone();
        let h = n.h();
        self.th2 = self.th.clone();
        let th2 = n.digest(&self.th2);
        for (i, l) in [(REQ, &b"req app data"[..]), (RSP, b"rsp app data")] {
            let s = hkdf_expand(h, &self.master, &bin_concat(n.ver, l, h as u16, Some(&th2)), h);
            self.app[i] = Dir::new(&n, s);
        }
        self.estab = true;
    }
    pub fn export_master(&self) -> Vec<u8> {
        let n = &self.neg;
        let th2 = n.digest(&self.th2);
        hkdf_expand(n.h(), &self.master, &bin_concat(n.ver, b"exp master", n.h() as u16, Some(&th2)), n.h())
    }
    pub fn mac(&self, d: usize) -> Vec<u8> {
        hmac(self.neg.h(), &self.fin[d], &self.neg.digest(&self.th))
    }
    /// secured record for `payload` (already with its application header)
    pub fn seal_raw(&mut self, t: Trans, d: usize, inner: &[u8]) -> Vec<u8> {
        let id = self.id;
        let dir = self.dir(d);
        let r = seal_with(t, id, dir, inner);
        dir.seq += 1;
        r
    }
    pub fn seal(&mut self, t: Trans, d: usize, payload: &[u8], app: bool) -> Vec<u8> {
        let inner = app_wrap(t, payload, app);
        self.seal_raw(t, d, &inner)
    }
    /// (payload, is_app)
    pub fn open(&mut self, t: Trans, d: usize, rec: &[u8]) -> Result<(Vec<u8>, bool), String> {
        let id = self.id;
        let dir = self.dir(d);
        let r = open_with(t, id, dir, rec)?;
        dir.seq += 1;
        self.records += 1;
        Ok(r)
    }
}
pub fn app_wrap(t: Trans, payload: &[u8], app: bool) -> Vec<u8> {
    match t {
        Trans::Mctp => {
            let mut v = vec![if app { 1 } else { 5 }];
            v.extend_from_slice(payload);
            v
        }
        Trans::Doe => payload.to_vec(),
    }
}
pub fn seal_with(t: Trans, id: u32, dir: &Dir, inner: &[u8]) -> Vec<u8> {
    let mut aad = id.to_le_bytes().to_vec();
    if t == Trans::Mctp {
        aad.extend_from_slice(&(dir.seq as u16).to_le_bytes());
    }
    p16(&mut aad, inner.len() + 2 + 16);
    let mut pt = Vec::new();
    p16(&mut pt, inner.len());
    pt.extend_from_slice(inner);
    let (ct, tag) = aead_seal(&dir.key, &dir.nonce(), &aad, &pt);
    let mut v = aad;
    v.extend_from_slice(&ct);
    v.extend_from_slice(&tag);
    v
}
pub fn open_with(t: Trans, id: u32, dir: &Dir, rec: &[u8]) -> Result<(Vec<u8>, bool), String> {
    let al = if t == Trans::Mctp { 8 } else { 6 };
    if dir.seq == u64::MAX {
        return Err("record sent although the sequence numbers of this key are used up".into());
    }
    if rec.len() < al {
        return Err("record shorter than its header".into());
    }
    if u32le(rec, 0).unwrap() != id {
        return Err(format!("record carries session id {:08x}, not {:08x}", u32le(rec, 0).unwrap(), id));
    }
    if t == Trans::Mctp && u16le(rec, 4).unwrap() as u16 != dir.seq as u16 {
        return Err(format!("record carries sequence number {}, expected {}", u16le(rec, 4).unwrap(), dir.seq));
    }
    let l = u16le(rec, al - 2).unwrap();
    if l < 18 || rec.len() < al + l {
        return Err(format!("record length field {} with {} bytes", l, rec.len()));
    }
    let extra = rec.len() - al - l;
    if (t == Trans::Mctp && extra != 0) || extra > 3 || rec[al + l..].iter().any(|x| *x != 0) {
        return Err(format!("{} bytes after the record", extra));
    }
    let pt = aead_open(&dir.key, &dir.nonce(), &rec[..al], &rec[al..al + l - 16], &rec[al + l - 16..al + l])
        .ok_or_else(|| "record does not open with the key, sequence number and header the session prescribes".to_string())?;
    let n = u16le(&pt, 0).unwrap();
    if n + 2 > pt.len() {
        return Err("application length beyond the record".into());
    }
    let p = &pt[2..2 + n];
    match t {
        Trans::Doe => Ok((p.to_vec(), false)),
        Trans::Mctp => match p.first() {
            Some(5) => Ok((p[1..].to_vec(), false)),
            Some(1) => Ok((p[1..].to_vec(), true)),
            _ => Err("bad application message type".into()),
        },
    }
}

// ------------------------------------------------------------------ findings
#[derive(Clone, Debug)]
pub struct Find {
    pub props: Vec<&'static str>,
    pub msg: String,
}
#[derive(Default)]
pub struct Finds(pub Vec<Find>);
impl Finds {
    pub fn add(&mut self, props: &[&'static str], msg: String) {
        if self.0.len() < 64 {
            self.0.push(Find { props: props.to_vec(), msg });
        }
    }
}

// ------------------------------------------------------------------ model
#[derive(Clone, Default)]
pub struct Model {
    pub neg: Neg,
    pub conn: u8, // 0 none, 1 version, 2 caps, 3 negotiated
    pub authenticated: bool,
    pub a: Vec<u8>,
    pub b: Vec<u8>,
    pub c: Vec<u8>,
    pub m: Vec<u8>,
    /// upper bound of what an endpoint may have kept (a refused request may not reset it)
    pub m_hi: usize,
    pub sess: Vec<Sess>,
    pub last: Option<u32>,
    /// formatted chains of the responder as this endpoint knows them
    pub rsp_chain: [Option<Vec<u8>>; 8],
    pub fetched: HashMap<u8, Vec<u8>>,
    pub rsp_data: [Option<Vec<u8>>; 8],
    pub req_data: [Option<Vec<u8>>; 8],
    pub req_slot: usize,
    /// use the provisioned chain rather than what was retrieved
    pub own: bool,
    pub psk: Vec<u8>,
    pub rsp_pk: Vec<u8>,
    pub req_pk: Vec<u8>,
    pub xs: HashMap<Vec<u8>, u64>,
    pub meas: Vec<MeasBlock>,
    pub rsp_ep: Option<Ep>,
    pub req_ep: Option<Ep>,
    pub seen: HashMap<&'static str, u64>,
}

impl Model {
    pub fn new(req: Option<&Ep>, rsp: Option<&Ep>, own: bool) -> Model {
        let mut m = Model { own, ..Default::default() };
        m.endpoints(req, rsp);
        m
    }
    /// who is on the two ends
    pub fn endpoints(&mut self, req: Option<&Ep>, rsp: Option<&Ep>) {
        let m = self;
        if let Some(e) = rsp {
            m.rsp_data = e.chains.clone();
            m.psk = e.psk.clone();
            m.rsp_pk = seed_pk(&e.leaf);
            m.meas = e.meas.clone();
            m.rsp_ep = Some(e.clone());
        }
        if let Some(e) = req {
            m.req_data = e.chains.clone();
            m.req_pk = seed_pk(&e.leaf);
            m.req_ep = Some(e.clone());
        }
    }
    pub fn count(&mut self, k: &'static str) {
        *self.seen.entry(k).or_insert(0) += 1;
    }
    pub fn s(&mut self, id: u32) -> Option<&mut Sess> {
        self.sess.iter_mut().find(|s| s.id == id)
    }
    fn chain(&self, slot: usize) -> Vec<u8> {
        if slot == 0xff {
            return vec![];
        }
        if self.own || self.rsp_chain[slot & 7].is_none() {
            match &self.rsp_data[slot & 7] {
                Some(d) => fmt_chain(self.neg.h(), d),
                None => vec![],
            }
        } else {
            self.rsp_chain[slot & 7].clone().unwrap()
        }
    }
    pub fn pk(&self, slot: usize) -> Vec<u8> {
        let c = self.chain(slot);
        let o = 4 + self.neg.h();
        if c.len() > o {
            if let Some(p) = leaf_pk_of(&c[o..]) {
                return p;
            }
        }
        self.rsp_pk.clone()
    }
    /// transcript resets a request code causes (DSP0274 transcript rules)
    fn reset_for(&mut self, session: Option<u32>, c: u8) {
        // a finish in the clear is part of its session
        let session = if c == FINISH { session.or(self.last) } else { session };
        if c != GET_MEASUREMENTS {
            match session {
                None => self.m.clear(),
                Some(i) => {
                    if let Some(s) = self.s(i) {
                        s.m.clear()
                    }
                }
            }
        }
        match c {
            GET_MEASUREMENTS | KEY_EXCHANGE | FINISH | PSK_EXCHANGE | PSK_FINISH | KEY_UPDATE | HEARTBEAT
            | END_SESSION => {
                if !self.authenticated {
                    self.b.clear();
                    self.c.clear();
                }
            }
            GET_DIGESTS => {
                self.b.clear();
                self.c.clear();
            }
            _ => {}
        }
    }
    fn m_more(&mut self, session: Option<u32>, n: usize) {
        match session {
            None => self.m_hi += n,
            Some(i) => {
                if let Some(s) = self.s(i) {
                    s.m_hi += n
                }
            }
        }
    }
    fn m_none(&mut self, session: Option<u32>) {
        match session {
            None => self.m_hi = 0,
            Some(i) => {
                if let Some(s) = self.s(i) {
                    s.m_hi = 0
                }
            }
        }
    }
    pub fn m1m2(&self) -> Vec<u8> {
        let mut t = self.a.clone();
        t.extend_from_slice(&self.b);
        t.extend_from_slice(&self.c);
        t
    }
    pub fn l1l2(&mut self, session: Option<u32>) -> Vec<u8> {
        let mut t = if self.neg.ver >= 0x12 { self.a.clone() } else { vec![] };
        match session {
            None => t.extend_from_slice(&self.m),
            Some(i) => {
                if let Some(s) = self.s(i) {
                    let m = s.m.clone();
                    t.extend_from_slice(&m)
                }
            }
        }
        t
    }
    fn kex_session(&self, req: &[u8], rsp: &[u8], psk: bool) -> Sess {
        let id = u16le(req, 4).unwrap() as u32 | (u16le(rsp, 4).unwrap() as u32) << 16;
        let mut s = Sess { id, psk, neg: self.neg.clone(), hitc: self.neg.hitc() && !psk, ..Default::default() };
        s.th = self.a.clone();
        s
    }
    /// Start of a session: transcript before the response, ready to compute what the
    /// response must carry. `partial` is the response up to (not including) the
    /// signature (KEY_EXCHANGE) or verify data (PSK).
    pub fn begin_session(&mut self, req: &[u8], partial: &[u8]) -> Sess {
        let psk = req[1] == PSK_EXCHANGE;
        let mut s = self.kex_session(req, partial, psk);
        if !psk {
            s.slot = req[3];
            let ch = self.chain(s.slot as usize);
            if !ch.is_empty() {
                s.th.extend_from_slice(&self.neg.digest(&ch));
            }
            s.mut_req = partial[6];
        } else {
            let p = u16le(req, 6).unwrap();
            s.hint = req[12..12 + p].to_vec();
        }
        s.hb = partial[2];
        s.th.extend_from_slice(req);
        s.th.extend_from_slice(partial);
        s
    }
    pub fn session_keys(&self, s: &mut Sess) {
        s.th1 = s.th.clone();
        s.keyed(&self.psk);
    }
    pub fn dhe_secret(&self, req: &[u8], rsp: &[u8]) -> Option<Vec<u8>> {
        let d = dhe_size(self.neg.dhe);
        let rp = req.get(40..40 + d)?;
        let sp = rsp.get(40..40 + d)?;
        if let Some(x) = self.xs.get(rp) {
            return dhe_shared(self.neg.dhe, *x, sp);
        }
        if let Some(x) = self.xs.get(sp) {
            return dhe_shared(self.neg.dhe, *x, rp);
        }
        None
    }

    /// The prescribed selection for offered algorithms (responder's choice).
    pub fn select(&self, req: &[u8]) -> Option<Neg> {
        let e = self.rsp_ep.as_ref()?;
        let mut n = self.neg.clone();
        let a = u32le(req, 8)?;
        let h = u32le(req, 12)?;
        n.mspec = req[6] & e.mspec;
        n.asym = ASYM_PRIO.iter().copied().find(|x| a & e.asym & x != 0).unwrap_or(0);
        n.hash = HASH_PRIO.iter().copied().find(|x| h & e.hash & x != 0).unwrap_or(0);
        n.mhash = e.mhash;
        n.opaque = req[7] & e.opaque;
        let mut o = 32;
        n.dhe = 0;
        n.aead = 0;
        n.req_asym = 0;
        n.ks = 0;
        for _ in 0..req[2] {
            let v = u16le(req, o + 2)? as u16;
            match req[o] {
                2 => n.dhe = DHE_PRIO.iter().copied().find(|x| v & e.dhe & x != 0).unwrap_or(0),
                3 => n.aead = AEAD_PRIO.iter().copied().find(|x| v & e.aead & x != 0).unwrap_or(0),
                4 => {
                    n.req_asym =
                        ASYM_PRIO.iter().copied().find(|x| v as u32 & e.req_asym as u32 & x != 0).unwrap_or(0) as u16
                }
                5 => n.ks = v & e.ks,
                _ => {}
            }
            o += 4;
        }
        Some(n)
    }

    /// One exchange as seen by this endpoint; `rsp` may be an ERROR.
    pub fn exchange(&mut self, session: Option<u32>, req: &[u8], rsp: &[u8], f: &mut Finds) {
        let rc = match req.get(1) {
            Some(c) => *c,
            None => return,
        };
        let sc = match rsp.get(1) {
            Some(c) => *c,
            None => {
                f.add(&["C13"], format!("empty response to {:02x}", rc));
                return;
            }
        };
        if sc == ERROR {
            self.count("errors");
            if rc != GET_VERSION && self.conn >= 3 {
                self.reset_for(session, rc);
                if rc == GET_MEASUREMENTS {
                    self.m_more(session, req.len() + 4);
                }
            }
            return;
        }
        if sc != answer_of(rc) && !(rc == GET_ENCAP || rc == DELIVER_ENCAP) {
            f.add(&["C13"], format!("request {:02x} answered with {:02x}", rc, sc));
            return;
        }
        let rl = match req_len(&self.neg, req) {
            Some(l) => l,
            None => {
                f.add(&["C12", "C13", "C18"], format!("truncated request {} was answered with success", hexs(req)));
                return;
            }
        };
        let req = &req[..rl];
        let lay = match rsp_lay(&self.neg, req, rsp) {
            Some(l) => l,
            None => {
                f.add(&["C13", "C18"], format!("response too short for its contents: {}", hexs(rsp)));
                return;
            }
        };
        let tail = &rsp[lay.len..];
        let rsp = &rsp[..lay.len];
        if tail.len() > 3 || tail.iter().any(|x| *x != 0) {
            f.add(&["C13", "C18"], format!("{} stray bytes after response {:02x}: {}", tail.len(), sc, hexs(tail)));
        }
        let want_ver = if rc == GET_VERSION { 0x10 } else if rc == GET_CAPABILITIES { req[0] } else { self.neg.ver };
        if rsp[0] != want_ver {
            f.add(&["C13", "C02"], format!("response {:02x} carries version {:02x}, not {:02x}", sc, rsp[0], want_ver));
        }
        if rc != GET_VERSION {
            self.reset_for(session, rc);
            if rc != GET_MEASUREMENTS {
                let session = if rc == FINISH { session.or(self.last) } else { session };
                self.m_none(session);
            }
        }
        let n = self.neg.clone();
        let h = n.h();
        match rc {
            GET_VERSION => {
                self.count("version");
                let keep = std::mem::take(self);
                *self = Model {
                    own: keep.own,
                    rsp_data: keep.rsp_data,
                    req_data: keep.req_data,
                    psk: keep.psk,
                    rsp_pk: keep.rsp_pk,
                    req_pk: keep.req_pk,
                    xs: keep.xs,
                    meas: keep.meas,
                    rsp_ep: keep.rsp_ep,
                    req_ep: keep.req_ep,
                    seen: keep.seen,
                    ..Default::default()
                };
                self.a.extend_from_slice(req);
                self.a.extend_from_slice(rsp);
                self.conn = 1;
                if let Some(e) = &self.rsp_ep {
                    let listed: Vec<u8> = rsp[6..].chunks(2).map(|c| c[1]).collect();
                    let mut want = e.vers.clone();
                    want.sort_unstable();
                    want.dedup();
                    let mut got = listed.clone();
                    got.sort_unstable();
                    got.dedup();
                    got.retain(|v| *v != 0);
                    want.retain(|v| *v != 0);
                    if rsp[6..].chunks(2).any(|c| c[0] != 0 && c[1] != 0) {
                        f.add(&["C02"], format!("VERSION lists updates nobody configured: {}", hex(rsp)));
                    }
                    if got != want {
                        f.add(&["C02"], format!("VERSION lists {} but the responder supports {}", hex(&got), hex(&want)));
                    }
                }
            }
            GET_CAPABILITIES => {
                self.count("capabilities");
                let v = req[0];
                if rsp.len() < if v >= 0x12 { 20 } else { 12 } {
                    f.add(&["C02", "C13"], "CAPABILITIES shorter than its version prescribes".into());
                    return;
                }
                self.neg.ver = v;
                if let Some(e) = &self.rsp_ep {
                    if !e.vers.contains(&v) {
                        f.add(&["C02"], format!("capabilities accepted for version {:02x}, not supported ({})", v, hex(&e.vers)));
                    }
                }
                if v >= 0x11 {
                    self.neg.req_ct = req[5];
                    self.neg.req_caps = u32le(req, 8).unwrap();
                }
                self.neg.rsp_ct = rsp[5];
                self.neg.rsp_caps = u32le(rsp, 8).unwrap();
                if v >= 0x12 {
                    self.neg.req_dts = u32le(req, 12).unwrap();
                    self.neg.req_max = u32le(req, 16).unwrap();
                    self.neg.rsp_dts = u32le(rsp, 12).unwrap();
                    self.neg.rsp_max = u32le(rsp, 16).unwrap();
                }
                if let Some(e) = &self.rsp_ep {
                    let mask = match v {
                        0x10 => 0x3f,
                        0x11 => 0x1ffff,
                        _ => 0x3fffff,
                    };
                    if self.neg.rsp_caps & mask != e.caps & mask || self.neg.rsp_ct != e.ct {
                        f.add(
                            &["C02"],
                            format!("CAPABILITIES carries flags {:x} ct {} but {:x} ct {} are configured", self.neg.rsp_caps, self.neg.rsp_ct, e.caps, e.ct),
                        );
                    }
                    if v >= 0x12 && (self.neg.rsp_dts, self.neg.rsp_max) != (e.dts, e.max) {
                        f.add(&["C02"], format!("CAPABILITIES sizes {}/{} but {}/{} configured", self.neg.rsp_dts, self.neg.rsp_max, e.dts, e.max));
                    }
                }
                self.a.extend_from_slice(req);
                self.a.extend_from_slice(rsp);
                self.conn = 2;
            }
            NEGOTIATE_ALGORITHMS => {
                self.count("algorithms");
                let sel = self.select(req);
                self.neg.mspec = rsp[6];
                self.neg.opaque = rsp[7];
                self.neg.mhash = u32le(rsp, 8).unwrap();
                self.neg.asym = u32le(rsp, 12).unwrap();
                self.neg.hash = u32le(rsp, 16).unwrap();
                let mut o = 36;
                for _ in 0..(if self.neg.ver >= 0x11 { rsp[2] } else { 0 }) {
                    let v = match u16le(rsp, o + 2) {
                        Some(v) => v as u16,
                        None => {
                            f.add(&["C02", "C13"], "ALGORITHMS shorter than its structures".into());
                            return;
                        }
                    };
                    match rsp[o] {
                        2 => self.neg.dhe = v,
                        3 => self.neg.aead = v,
                        4 => self.neg.req_asym = v,
                        5 => self.neg.ks = v,
                        _ => {}
                    }
                    o += 4;
                }
                if let Some(s) = sel {
                    let mut g = self.neg.clone();
                    // the measurement hash is the responder's own
                    if s.mspec == 0 {
                        g.mhash = s.mhash;
                    }
                    if g != s {
                        f.add(&["C02"], format!("ALGORITHMS selects {:?}, prescribed {:?}", self.neg, s));
                    }
                }
                self.a.extend_from_slice(req);
                self.a.extend_from_slice(rsp);
                self.conn = 3;
            }
            GET_DIGESTS => {
                self.count("digests");
                if session.is_none() {
                    self.b.extend_from_slice(req);
                    self.b.extend_from_slice(rsp);
                }
                if self.rsp_ep.is_some() {
                    let mut want = Vec::new();
                    let mut mask = 0u8;
                    for (i, d) in self.rsp_data.iter().enumerate() {
                        if let Some(d) = d {
                            mask |= 1 << i;
                            want.extend_from_slice(&n.digest(&fmt_chain(h, d)));
                        }
                    }
                    if rsp[3] != mask || rsp[4..] != want {
                        f.add(
                            &["C16"],
                            format!("DIGESTS mask {:02x} digests {} but prescribed mask {:02x} {}", rsp[3], hexs(&rsp[4..]), mask, hexs(&want)),
                        );
                    }
                }
            }
            GET_CERTIFICATE => {
                self.count("certificate");
                if session.is_none() {
                    self.b.extend_from_slice(req);
                    self.b.extend_from_slice(rsp);
                }
                let slot = req[2] & 0xf;
                let off = u16le(req, 4).unwrap();
                let len = u16le(req, 6).unwrap();
                let por = u16le(rsp, 4).unwrap();
                let rem = u16le(rsp, 6).unwrap();
                if self.rsp_ep.is_some() {
                    match self.rsp_data.get(slot as usize).and_then(|d| d.as_ref()) {
                        None => f.add(&["C16"], format!("certificate of empty slot {} served", slot)),
                        Some(d) => {
                            let ch = fmt_chain(h, d);
                            let bad = off >= ch.len()
                                || por > len
                                || por == 0
                                || off + por > ch.len()
                                || rsp[8..] != ch[off..off + por]
                                || rem != ch.len() - off - por;
                            if bad {
                                f.add(
                                    &["C16"],
                                    format!(
                                        "CERTIFICATE slot {} offset {} length {} of a {} byte chain answered with portion {} remainder {}: {}",
                                        slot, off, len, ch.len(), por, rem, hexs(&rsp[8..])
                                    ),
                                );
                            }
                            if rsp[2] & 0xf != slot {
                                f.add(&["C16"], format!("CERTIFICATE for slot {} carries slot {}", slot, rsp[2]));
                            }
                        }
                    }
                }
                let e = self.fetched.entry(slot).or_default();
                if off == 0 {
                    e.clear();
                }
                e.extend_from_slice(&rsp[8..]);
                if rem == 0 {
                    let c = e.clone();
                    self.rsp_chain[slot as usize & 7] = Some(c);
                }
            }
            CHALLENGE => {
                self.count("challenge");
                let slot = req[2] as usize;
                let sp = lay.sig.unwrap();
                self.c.extend_from_slice(req);
                self.c.extend_from_slice(&rsp[..sp]);
                let t = self.m1m2();
                let want = sign_as(&n, &self.pk(slot), n.asym, CTX_CHAL, &t);
                if rsp[sp..] != want {
                    f.add(&["C04", "C03", "C01"], format!("CHALLENGE_AUTH signature is not the one over A||B||C ({} bytes, {}..)", t.len(), hex(&n.digest(&t)[..8])));
                }
                if self.rsp_ep.is_some() {
                    let ch = self.chain(slot);
                    if rsp[4..4 + h] != n.digest(&ch) {
                        f.add(&["C16", "C04"], "CHALLENGE_AUTH certificate chain hash is not that of the slot's chain".into());
                    }
                    if rsp[2] & 0xf != req[2] & 0xf {
                        f.add(&["C16", "C13"], format!("CHALLENGE_AUTH for slot {} carries slot {}", req[2], rsp[2]));
                    }
                    let mut mask = 0u8;
                    for (i, d) in self.rsp_data.iter().enumerate() {
                        if d.is_some() {
                            mask |= 1 << i;
                        }
                    }
                    if rsp[3] != mask {
                        f.add(&["C16"], format!("CHALLENGE_AUTH slot mask {:02x}, provisioned {:02x}", rsp[3], mask));
                    }
                    self.summary(req[3], &lay, rsp, f);
                }
                self.authenticated = true; 
                self.b.clear();
                self.c.clear();
            }
            GET_MEASUREMENTS => {
                self.count("measurements");
                let full = req;
                let sp = lay.sig.unwrap_or(rsp.len());
                match session {
                    None => {
                        self.m.extend_from_slice(full);
                        self.m.extend_from_slice(&rsp[..sp]);
                    }
                    Some(i) => {
                        if let Some(s) = self.s(i) {
                            s.m.extend_from_slice(full);
                            s.m.extend_from_slice(&rsp[..sp]);
                        }
                    }
                }
                self.m_more(session, full.len() + sp);
                let slot = if req.len() == 37 { req[36] as usize & 0xf } else { 0 };
                if lay.sig.is_some() {
                    self.count("signed measurements");
                    let t = self.l1l2(session);
                    let want = sign_as(&n, &self.pk(slot), n.asym, CTX_MEAS, &t);
                    if rsp[sp..] != want {
                        f.add(&["C04", "C17", "C03"], format!("MEASUREMENTS signature is not the one over L1L2 ({} bytes)", t.len()));
                    }
                    match session {
                        None => self.m.clear(),
                        Some(i) => {
                            if let Some(s) = self.s(i) {
                                s.m.clear()
                            }
                        }
                    }
                    self.m_none(session);
                }
                if self.rsp_ep.is_some() {
                    let op = req[3];
                    let (cnt, rec) = match op {
                        0 => (self.meas.len() as u8, Some(vec![])),
                        0xff => (self.meas.len() as u8, Some(self.meas.iter().flat_map(|b| b.encode()).collect())),
                        i => (1, self.meas.iter().find(|b| b.index == i).map(|b| b.encode())),
                    };
                    let got = &rsp[lay.record.0..lay.record.0 + lay.record.1];
                    match rec {
                        None => f.add(&["C17"], format!("measurement {} does not exist but was reported", op)),
                        Some(r) => {
                            let total_ok = op != 0 || rsp[2] == cnt;
                            let blocks = rsp[4];
                            let blocks_ok = match op {
                                0 => blocks == 0,
                                _ => blocks == cnt,
                            };
                            if !total_ok || !blocks_ok || got != &r[..] {
                                f.add(
                                    &["C17"],
                                    format!(
                                        "MEASUREMENTS op {:02x}: total {} blocks {} record {} but the device has {} blocks, record {}",
                                        op, rsp[2], blocks, hexs(got), cnt, hexs(&r)
                                    ),
                                );
                            }
                        }
                    }
                    if lay.sig.is_some() && (rsp[3] & 0xf) as usize != slot {
                        f.add(&["C17"], format!("MEASUREMENTS signed by slot {} but slot {} was asked", rsp[3] & 0xf, slot));
                    }
                }
            }
            KEY_EXCHANGE => {
                self.count("key_exchange");
                let sp = lay.sig.unwrap();
                let mut s = self.begin_session(req, &rsp[..sp]);
                let want = sign_as(&n, &self.pk(s.slot as usize), n.asym, CTX_KEX, &s.th);
                let g = n.sig();
                if rsp[sp..sp + g] != want {
                    f.add(&["C04", "C06", "C03"], "KEY_EXCHANGE_RSP signature is not the one over A||Hash(Ct)||K".into());
                }
                s.th.extend_from_slice(&rsp[sp..sp + g]);
                match self.dhe_secret(req, rsp) {
                    Some(k) => s.hs_secret = hkdf_extract(h, &vec![0u8; h], &k),
                    None => {
                        f.add(&["C07", "C21"], "KEY_EXCHANGE public key was not generated for this exchange".into());
                        return;
                    }
                }
                self.session_keys(&mut s);
                self.verify_data(&mut s, &lay, rsp, f);
                self.new_session(s, f);
                if self.rsp_ep.is_some() {
                    self.summary(req[2], &lay, rsp, f);
                    self.hb_check(rsp[2], f);
                    if self.neg.ver < 0x12 || self.neg.opaque == 2 {
                        let o = rsp[lay.opaque.0..lay.opaque.0 + lay.opaque.1].to_vec();
                        self.check_opaque_rsp(req, &o, f);
                    }
                }
            }
            PSK_EXCHANGE => {
                self.count("psk_exchange");
                let vp = lay.verify.unwrap();
                let mut s = self.begin_session(req, &rsp[..vp]);
                self.session_keys(&mut s);
                self.verify_data(&mut s, &lay, rsp, f);
                // without a responder context the session is established at once
                if self.neg.rsp_caps & C_PSK_CTX == 0 {
                    s.finish();
                }
                self.new_session(s, f);
                if self.rsp_ep.is_some() {
                    self.summary(req[2], &lay, rsp, f);
                    self.hb_check(rsp[2], f);
                    if self.neg.ver < 0x12 || self.neg.opaque == 2 {
                        let o = rsp[lay.opaque.0..lay.opaque.0 + lay.opaque.1].to_vec();
                        self.check_opaque_rsp(req, &o, f);
                    }
                }
            }
            FINISH | PSK_FINISH => {
                self.count("finish");
                let id = match session.or(self.last) {
                    Some(i) => i,
                    None => {
                        f.add(&["C12", "C06"], "FINISH accepted without a session".into());
                        return;
                    }
                };
                let rch = self.req_data[self.req_slot].as_ref().map(|d| fmt_chain(h, d));
                let rpk = self.req_pk.clone();
                let s = match self.s(id) {
                    Some(s) => s,
                    None => {
                        f.add(&["C12", "C06", "C11"], format!("FINISH accepted for unknown session {:08x}", id));
                        return;
                    }
                };
                if s.estab {
                    f.add(&["C12", "C06"], format!("second FINISH accepted in session {:08x}", id));
                    return;
                }
                if s.psk != (rc == PSK_FINISH) {
                    f.add(&["C12", "C06"], format!("finish {:02x} accepted in a session of the other kind", rc));
                    return;
                }
                let signed = rc == FINISH && req[2] & 1 == 1;
                if rc == FINISH && s.mut_req != 0 {
                    if !signed {
                        f.add(&["C22", "C06"], "FINISH without a signature accepted although mutual authentication was requested".into());
                    }
                    match &rch {
                        Some(c) => {
                            let d = s.neg.digest(c);
                            s.th.extend_from_slice(&d)
                        }
                        None => f.add(&["C22"], "mutual authentication without a requester certificate".into()),
                    }
                }
                s.th.extend_from_slice(&req[..4]);
                let mut o = 4;
                if signed {
                    let g = s.neg.req_sig();
                    let want = sign_as(&s.neg, &rpk, s.neg.req_asym as u32, CTX_FIN, &s.th);
                    if req[4..4 + g] != want {
                        f.add(&["C22", "C04"], "FINISH signature is not the one over the prescribed transcript".into());
                    }
                    s.th.extend_from_slice(&req[4..4 + g]);
                    o += g;
                }
                let want = s.mac(REQ);
                if req[o..o + h] != want {
                    f.add(&["C06", "C07", "C04"], format!("{:02x} accepted whose verify data is not the prescribed HMAC", rc));
                }
                s.th.extend_from_slice(&req[o..o + h]);
                s.th.extend_from_slice(&rsp[..4]);
                if rc == FINISH && s.hitc {
                    let want = s.mac(RSP);
                    if rsp[4..4 + h] != want {
                        f.add(&["C06", "C07", "C04"], "FINISH_RSP verify data is not the prescribed HMAC".into());
                    }
                    s.th.extend_from_slice(&rsp[4..4 + h]);
                }
                s.finish();
                if session.is_none() {
                    self.last = None;
                }
                self.count("established");
            }
            HEARTBEAT => self.count("heartbeat"),
            KEY_UPDATE => {
                self.count("key_update");
                if rsp[2..4] != req[2..4] {
                    f.add(&["C10", "C13"], format!("KEY_UPDATE {} answered with {}", hex(&req[2..4]), hex(&rsp[2..4])));
                }
            }
            END_SESSION => {
                self.count("end_session");
                if let Some(i) = session {
                    self.sess.retain(|s| s.id != i);
                }
            }
            VENDOR => self.count("vendor"),
            GET_ENCAP | DELIVER_ENCAP => self.count("encap"),
            _ => {}
        }
    }
    fn new_session(&mut self, s: Sess, f: &mut Finds) {
        if s.id & 0xffff == 0 || s.id >> 16 == 0 {
            f.add(&["C11"], format!("session id {:08x} with a reserved half", s.id));
        }
        if self.sess.iter().any(|x| x.id == s.id) {
            f.add(&["C11"], format!("session id {:08x} given to a second live session", s.id));
            let id = s.id;
            self.sess.retain(|x| x.id != id);
        }
        if !s.psk {
            self.last = Some(s.id);
        }
        self.sess.push(s);
    }
    fn hb_check(&mut self, got: u8, f: &mut Finds) {
        let want = match &self.rsp_ep {
            Some(e) => e.hb,
            None => return,
        };
        if self.neg.cap(C_HBEAT) && got != want {
            f.add(&["C01", "C13"], format!("heartbeat period {} sent, {} configured", got, want));
        }
    }
    fn verify_data(&mut self, s: &mut Sess, lay: &Lay, rsp: &[u8], f: &mut Finds) {
        if let Some(vp) = lay.verify {
            let want = s.mac(RSP);
            let h = s.neg.h();
            if rsp[vp..vp + h] != want {
                f.add(&["C06", "C07", "C04"], format!("{:02x} verify data is not the prescribed HMAC", rsp[1]));
            }
            s.th.extend_from_slice(&rsp[vp..vp + h]);
        }
    }
    fn summary(&mut self, ty: u8, lay: &Lay, rsp: &[u8], f: &mut Finds) {
        if let Some(p) = lay.summary {
            let h = self.neg.h();
            let want = meas_summary(&self.meas, h, ty == 0xff);
            if rsp[p..p + h] != want {
                f.add(&["C17", "C13"], format!("measurement summary hash type {:02x} is not the device's", ty));
            }
        }
    }
    fn check_opaque_rsp(&mut self, req: &[u8], o: &[u8], f: &mut Finds) {
        let e = match &self.rsp_ep {
            Some(e) => e,
            None => return,
        };
        if let Some(offer) = offered_secure_versions(&self.neg, req) {
            let best = offer.iter().copied().filter(|v| e.secver.contains(v)).max();
            let got = if o.len() < 2 { None } else { Some(o[o.len() - 1]) };
            if got != best {
                f.add(
                    &["C02", "C13"],
                    format!("secured message version selected {:x?}, offered {:x?}, supported {:x?}", got, offer, e.secver),
                );
            }
        }
    }
}
/// the secured message versions a KEY_EXCHANGE or PSK_EXCHANGE offers in well-formed opaque data
pub fn offered_secure_versions(n: &Neg, req: &[u8]) -> Option<Vec<u8>> {
    let o = if req.get(1) == Some(&KEY_EXCHANGE) {
        let i = 40 + dhe_size(n.dhe);
        req.get(i + 2..i + 2 + u16le(req, i)?)?
    } else {
        let (a, b, c) = (u16le(req, 6)?, u16le(req, 8)?, u16le(req, 10)?);
        req.get(12 + a + b..12 + a + b + c)?
    };
    let el = if o.starts_with(&[1, 0, 0, 0]) {
        &o[4..]
    } else if o.starts_with(&[0x46, 0x54, 0x4d, 0x44, 1, 1, 0, 0]) {
        &o[8..]
    } else {
        return None;
    };
    if el.len() < 8 || el[0] != 0 || el[1] != 0 || el[4] != 1 || el[5] != 1 {
        return None;
    }
    let n = el[6] as usize;
    if n == 0 || n > 2 || u16le(el, 2) != Some(3 + 2 * n) || el.len() < 7 + 2 * n {
        return None;
    }
    Some((0..n).map(|i| el[8 + 2 * i]).collect())
}

pub fn sealed(t: Trans, s: &mut Sess, d: usize, payload: &[u8], app: bool) -> Vec<u8> {
    let r = s.seal(t, d, payload, app);
    sim::frame(t, Kind::Secured, &r)
}
