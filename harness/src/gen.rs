//! Random endpoint descriptions.
use crate::model::*;
use crate::sim::*;
use crate::util::*;
use crate::world::*;

pub const HASHED: bool = cfg!(feature = "hashed");
pub const MUTAUTH: bool = cfg!(feature = "mutauth");
pub const CONFIG: &str = match (HASHED, MUTAUTH) {
    (true, true) => "hashed+mutauth",
    (true, false) => "hashed",
    (false, true) => "mutauth",
    (false, false) => "plain",
};

pub fn blank() -> Ep {
    Ep {
        vers: vec![0x12, 0x12, 0x12],
        caps: 0,
        ct: 10,
        mspec: 1,
        mhash: 4,
        hash: 7,
        asym: 0xff,
        dhe: 0x18,
        aead: 7,
        req_asym: 0xff,
        ks: 1,
        opaque: 2,
        policy: 1,
        rcc: false,
        dts: 4096,
        max: 4096,
        hb: 0,
        secver: [0x11, 0x11],
        chains: Default::default(),
        root: None,
        leaf: vec![],
        seed: vec![],
        meas: vec![],
        psk: vec![],
    }
}

pub fn gen_meas(r: &mut Rng, mhash: u32, big: bool) -> Vec<MeasBlock> {
    let n = if r.chance(1, 12) { 0 } else { r.range(1, 7) };
    let mut left = 3540usize; // a signed report of them all still fits a message
    let mut v = vec![];
    for i in 0..n {
        let k = *r.pick(&[0u8, 1, 2, 3, 4, 5, 6, 7]);
        // structured types and a device without a measurement hash report raw only
        let raw = k >= 5 || mhash == 1 || r.bool();
        let l = if !raw {
            match mhash {
                4 | 0x20 => 48,
                8 | 0x40 => 64,
                _ => 32,
            }
        } else if r.chance(1, 6) {
            *r.pick(&[0usize, 1, 2, 64, 255, 256])
        } else if big && r.chance(1, 8) {
            *r.pick(&[1024, 1023, 512])
        } else {
            r.range(1, 80)
        };
        if l + 7 > left {
            break;
        }
        left -= l + 7;
        v.push(MeasBlock { index: i as u8 + 1, spec: 1, kind: k | if raw { 0x80 } else { 0 }, value: r.bytes(l) });
    }
    v
}
fn chain_for(r: &mut Rng, root: &[u8], leaf: &[u8], max: usize) -> Vec<u8> {
    let inter = r.below(3);
    let min = (2 + inter) * MIN_CERT;
    let size = match r.below(10) {
        0 => 0,
        // sizes around multiples of the transfer portion
        1..=3 => {
            let k = r.range(1, 7) * 512;
            (k + 64).saturating_sub(r.below(140)).max(min)
        }
        4 => max,
        5 => max - r.below(4),
        _ => r.range(min, 2200),
    };
    make_chain(&ChainSpec {
        root: root.to_vec(),
        inter,
        leaf: leaf.to_vec(),
        size: size.min(max),
        salt: r.next(),
    })
}

/// a root certificate that is almost the given one
pub fn near_root(r: &mut Rng, v: &mut Vec<u8>) {
    match r.below(6) {
        0 => {
            let n = v.len() - r.range(1, 8.min(v.len() - 1));
            v.truncate(n);
        }
        1 => {
            let n = r.range(1, 8);
            v.extend_from_slice(&r.bytes(n));
        }
        _ => {
            let i = r.below(v.len());
            v[i] ^= 1 << r.below(8);
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Want {
    /// only algorithms and versions with which every flow is supported
    pub full: bool,
    pub hitc: Option<bool>,
    pub psk: bool,
    pub one_algo: bool,
    pub multi_slot: bool,
    pub small_dts: bool,
}
impl Default for Want {
    fn default() -> Want {
        Want { full: true, hitc: None, psk: true, one_algo: false, multi_slot: false, small_dts: false }
    }
}
/// can this build sign and verify in this version
pub fn can_sign(ver: u8) -> bool {
    !HASHED || ver >= 0x12
}

pub fn gen_versions(r: &mut Rng, must: Option<u8>) -> Vec<u8> {
    let mut v = match r.below(6) {
        0 => vec![0x10, 0x11, 0x12],
        1 => vec![0x12, 0x11, 0x10],
        2 => vec![0x11, 0x12, 0x12],
        3 => vec![0x12, 0x10, 0x11],
        4 => vec![0x10, 0x12, 0x10],
        _ => vec![0x12, 0x12, 0x12],
    };
    if let Some(m) = must {
        if !v.contains(&m) {
            v[r.below(3)] = m;
        }
    }
    v
}

pub fn gen_caps(r: &mut Rng, hitc: bool, psk: bool, mutauth: bool) -> (u32, u32) {
    let mut q = R_CERT | R_CHAL | C_ENCRYPT | C_MAC | C_KEX;
    let mut s = R_CERT | R_CHAL | C_ENCRYPT | C_MAC | C_KEX | S_MEAS_SIG;
    if psk {
        q |= C_PSK;
        s |= C_PSK | C_PSK_CTX * 0;
        // PSK capability field of the responder: 01 without context, 10 with context
        if r.bool() {
            s = (s & !C_PSK) | C_PSK_CTX;
        }
    }
    if mutauth {
        q |= C_MUT | C_ENCAP;
        s |= C_MUT | C_ENCAP;
    } else if r.chance(1, 4) && !hitc {
        q |= C_MUT | C_ENCAP;
    }
    if hitc {
        q |= C_HITC;
        s |= C_HITC;
    } else if r.chance(1, 3) {
        // only one of them supports it
        if r.bool() {
            q |= C_HITC
        } else {
            s |= C_HITC
        }
    }
    match r.below(6) {
        0 => q |= C_HBEAT,
        1 => s |= C_HBEAT,
        _ => {
            q |= C_HBEAT;
            s |= C_HBEAT;
        }
    }
    match r.below(6) {
        0 => q |= C_KEYUPD,
        1 => s |= C_KEYUPD,
        _ => {
            q |= C_KEYUPD;
            s |= C_KEYUPD;
        }
    }
    if r.bool() {
        s |= S_CACHE;
    }
    if r.bool() {
        s |= 0x20;
    }
    (q, s)
}

pub fn gen_pair(r: &mut Rng, w: Want) -> (Ep, Ep) {
    let mut q = blank();
    let mut s = blank();
    q.vers = gen_versions(r, None);
    s.vers = gen_versions(r, None);
    if w.full && HASHED {
        // the highest common version has to be 1.2
        if !q.vers.contains(&0x12) {
            q.vers[r.below(3)] = 0x12;
        }
        if !s.vers.contains(&0x12) {
            s.vers[r.below(3)] = 0x12;
        }
    } else if r.chance(2, 3) {
        let top = *r.pick(&[0x11u8, 0x11, 0x10, 0x12]);
        for v in q.vers.iter_mut() {
            *v = (*v).min(top);
        }
        let k = r.below(3);
        q.vers[k] = top;
        let k = r.below(3);
        s.vers[k] = top;
    } else if !q.vers.iter().any(|v| s.vers.contains(v)) {
        s.vers[r.below(3)] = q.vers[0];
    }
    let hitc = w.hitc.unwrap_or_else(|| r.chance(1, 4));
    let psk = w.psk;
    // the library has no mutual authentication with the handshake in the clear
    let mutual = MUTAUTH && !hitc && r.chance(3, 4);
    let (qc, sc) = gen_caps(r, hitc, psk, mutual);
    q.caps = qc;
    s.caps = sc;
    q.ct = r.range(0, 31) as u8;
    s.ct = r.range(0, 31) as u8;
    if w.one_algo {
        let h = 1u32 << r.below(3);
        let a = 1u32 << r.below(8);
        let d = 8u16 << r.below(2);
        let e = 1u16 << r.below(3);
        for p in [&mut q, &mut s] {
            p.hash = h;
            p.asym = a;
            p.dhe = d;
            p.aead = e;
            p.req_asym = a as u16;
        }
    } else {
        let pick = |r: &mut Rng, mask: u32| {
            loop {
                let a = r.subset(mask);
                let b = r.subset(mask);
                if a & b != 0 {
                    return (a, b);
                }
            }
        };
        let x = pick(r, 7);
        q.hash = x.0;
        s.hash = x.1;
        let x = pick(r, 0xff);
        q.asym = x.0;
        s.asym = x.1;
        let x = pick(r, 0x18);
        q.dhe = x.0 as u16;
        s.dhe = x.1 as u16;
        let x = pick(r, 7);
        q.aead = x.0 as u16;
        s.aead = x.1 as u16;
        let x = pick(r, 0xff);
        q.req_asym = x.0 as u16;
        s.req_asym = x.1 as u16;
    }
    s.mhash = *r.pick(&[1u32, 2, 4, 8, 2, 4, 8, 0x10, 0x20, 0x40, 0x80]);
    q.mhash = s.mhash;
    s.hb = if s.caps & C_HBEAT != 0 { r.u8() } else { 0 };
    q.policy = r.bool() as u8;
    s.rcc = r.bool();
    s.psk = r.bytes(32);
    q.psk = s.psk.clone();
    let root_s = r.bytes(8);
    let root_q = r.bytes(8);
    s.leaf = r.bytes(8);
    q.leaf = r.bytes(8);
    let max = if w.multi_slot { 2800 } else if HASHED { 4096 } else { 3400 };
    let leaf = s.leaf.clone();
    s.chains[0] = Some(chain_for(r, &root_s, &leaf, max));
    if w.multi_slot {
        for i in 1..8 {
            if r.bool() {
                s.chains[i] = Some(chain_for(r, &root_s, &leaf, max));
            }
        }
    }
    let leaf = q.leaf.clone();
    q.chains[0] = Some(chain_for(r, &root_q, &leaf, if HASHED { 4096 } else { 3000 }));
    q.root = Some(root_cert(&root_s));
    s.root = Some(root_cert(&root_q));
    q.seed = root_q;
    s.seed = root_s;
    s.meas = gen_meas(r, s.mhash, true);
    s.secver = *r.pick(&[[0x11u8, 0x11], [0x11, 0x11], [0x10, 0x11], [0x11, 0x10], [0x10, 0x10]]);
    if w.small_dts {
        q.dts = r.range(700, 4096) as u32;
        s.dts = r.range(700, 4096) as u32;
    }
    (q, s)
}

/// another endpoint in the place of `e`, which can work with `peer` as well
pub fn successor(r: &mut Rng, e: &Ep, peer: &Ep, full: bool) -> Ep {
    let mut n = e.clone();
    let redraw = |r: &mut Rng, mask: u32, other: u32| loop {
        let a = r.subset(mask);
        if a & other != 0 {
            return a;
        }
    };
    if r.chance(3, 4) {
        n.hash = redraw(r, 7, peer.hash);
        n.asym = redraw(r, 0xff, peer.asym);
        n.dhe = redraw(r, 0x18, peer.dhe as u32) as u16;
        n.aead = redraw(r, 7, peer.aead as u32) as u16;
        n.req_asym = redraw(r, 0xff, peer.req_asym as u32) as u16;
    }
    if r.bool() {
        loop {
            n.vers = gen_versions(r, None);
            let common: Vec<u8> = n.vers.iter().copied().filter(|v| peer.vers.contains(v)).collect();
            if !common.is_empty() && (!(full && HASHED) || common.contains(&0x12)) {
                break;
            }
        }
    }
    for b in [C_HBEAT, C_KEYUPD] {
        // (either needs a session to be of use)
        if r.chance(1, 4) && n.caps & C_KEX != 0 && n.caps & C_ENCRYPT != 0 && n.caps & C_MAC != 0 {
            n.caps ^= b;
        }
    }
    n.ct = r.range(0, 31) as u8;
    n.policy = r.bool() as u8;
    if r.bool() {
        // another identity under the same root
        n.leaf = r.bytes(8);
        let (seed, leaf) = (n.seed.clone(), n.leaf.clone());
        for c in n.chains.iter_mut() {
            if c.is_some() {
                *c = Some(chain_for(r, &seed, &leaf, 2800));
            }
        }
    }
    n
}
