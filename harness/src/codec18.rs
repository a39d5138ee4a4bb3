//! Every encoder and decoder against one description of the layouts: the same description produces
//! well formed messages and says, for any bytes, how long the message in them is and which of its
//! bits mean something.
use crate::gen::*;
use crate::model::*;
use crate::puppet::{legal_caps, vary_caps};
use crate::report::*;
use crate::sim::*;
use crate::util::*;
use codec::{u24, Codec, Reader, Writer};
use spdmlib::common::opaque::*;
use spdmlib::common::{SpdmCodec, SpdmContext};
use spdmlib::message::vendor::*;
use spdmlib::message::*;
use spdmlib::protocol::*;
use std::fmt::Debug;

/// what was negotiated
#[derive(Clone, Debug)]
struct Cx {
    ver: u8,
    qcaps: u32,
    scaps: u32,
    hash: u32,
    asym: u32,
    req_asym: u32,
    dhe: u32,
    mhash: u32,
    fmt1: bool,
    sum: bool,
    sig: bool,
}
fn hash_len(b: u32) -> usize {
    [32, 48, 64][b.trailing_zeros() as usize % 3]
}
fn sig_len_of(b: u32) -> usize {
    // RSASSA2048 RSAPSS2048 RSASSA3072 RSAPSS3072 ECDSA256 RSASSA4096 RSAPSS4096 ECDSA384
    match b {
        1 | 2 => 256,
        4 | 8 => 384,
        0x10 => 64,
        0x20 | 0x40 => 512,
        0x80 => 96,
        _ => 0,
    }
}
fn dhe_len(b: u32) -> usize {
    if b == 8 {
        64
    } else {
        96
    }
}
fn mhash_len(b: u32) -> usize {
    // raw, SHA2 256 384 512, SHA3 256 384 512, SM3 256
    match b {
        2 | 0x10 | 0x80 => 32,
        4 | 0x20 => 48,
        8 | 0x40 => 64,
        _ => 0,
    }
}
impl Cx {
    fn random(r: &mut Rng) -> Cx {
        let (psk, full) = (r.bool(), r.bool());
        let (mut q, mut s) = gen_pair(r, Want { hitc: None, psk, full, one_algo: false, multi_slot: false, small_dts: false });
        if r.bool() {
            vary_caps(r, &mut q, &mut s);
        }
        let one = |r: &mut Rng, v: &[u32]| *r.pick(v);
        Cx {
            ver: *r.pick(&[0x10, 0x11, 0x12, 0x12]),
            qcaps: q.caps,
            scaps: s.caps,
            hash: one(r, &[1, 2, 4]),
            asym: one(r, &[1, 2, 4, 8, 0x10, 0x20, 0x40, 0x80]),
            req_asym: one(r, &[1, 2, 4, 8, 0x10, 0x20, 0x40, 0x80]),
            dhe: one(r, &[8, 0x10]),
            mhash: one(r, &[1, 2, 4, 8, 0x10, 0x20, 0x40, 0x80]),
            fmt1: r.chance(3, 4),
            sum: r.bool(),
            sig: r.bool(),
        }
    }
    fn install(&self, c: &mut SpdmContext) {
        let n = &mut c.negotiate_info;
        n.spdm_version_sel = ver(self.ver);
        n.req_capabilities_sel = SpdmRequestCapabilityFlags::from_bits_truncate(self.qcaps);
        n.rsp_capabilities_sel = SpdmResponseCapabilityFlags::from_bits_truncate(self.scaps);
        n.measurement_specification_sel = SpdmMeasurementSpecification::DMTF;
        n.measurement_hash_sel = SpdmMeasurementHashAlgo::from_bits_truncate(self.mhash);
        n.base_hash_sel = SpdmBaseHashAlgo::from_bits_truncate(self.hash);
        n.base_asym_sel = SpdmBaseAsymAlgo::from_bits_truncate(self.asym);
        n.req_asym_sel = SpdmReqAsymAlgo::from_bits_truncate(self.req_asym as u16);
        n.dhe_sel = SpdmDheAlgo::from_bits_truncate(self.dhe as u16);
        n.opaque_data_support = if self.fmt1 { SpdmOpaqueSupport::OPAQUE_DATA_FMT1 } else { SpdmOpaqueSupport::empty() };
        c.runtime_info.need_measurement_summary_hash = self.sum;
        c.runtime_info.need_measurement_signature = self.sig;
    }
    fn hl(&self) -> usize {
        hash_len(self.hash)
    }
    fn hitc(&self) -> bool {
        self.qcaps & self.scaps & C_HITC != 0
    }
    fn meas(&self) -> bool {
        self.scaps & (S_MEAS_NOSIG | S_MEAS_SIG) != 0
    }
    fn show(&self) -> String {
        format!(
            "{:x} q{:x} s{:x} h{} a{:x} ra{:x} d{:x} mh{:x}{}{}{}",
            self.ver,
            self.qcaps,
            self.scaps,
            self.hash,
            self.asym,
            self.req_asym,
            self.dhe,
            self.mhash,
            if self.fmt1 { " fmt1" } else { "" },
            if self.sum { " sum" } else { "" },
            if self.sig { " sig" } else { "" }
        )
    }
}

/// Walks a layout: over given bytes, or making them up.
struct Cur<'a> {
    inp: Option<&'a [u8]>,
    r: &'a mut Rng,
    big: bool,
    out: Vec<u8>,
    mask: Vec<u8>,
    short: bool,
}
impl<'a> Cur<'a> {
    fn raw(&mut self, n: usize, mask: u8, g: impl FnOnce(&mut Rng) -> Vec<u8>) -> Vec<u8> {
        if self.short {
            return vec![0; n.min(8)];
        }
        let v = match self.inp {
            None => g(self.r),
            Some(b) => {
                let p = self.out.len();
                if b.len() < p + n {
                    self.short = true;
                    return vec![0; n.min(8)];
                }
                b[p..p + n].to_vec()
            }
        };
        assert!(v.len() == n);
        self.mask.resize(self.mask.len() + n, mask);
        self.out.extend_from_slice(&v);
        v
    }
    fn u8(&mut self, mask: u8, g: impl FnOnce(&mut Rng) -> u8) -> u8 {
        self.raw(1, mask, |r| vec![g(r)])[0]
    }
    fn num(&mut self, n: usize, g: impl FnOnce(&mut Rng) -> usize) -> usize {
        let v = self.raw(n, 0xff, |r| (g(r) as u32).to_le_bytes()[..n].to_vec());
        v.iter().take(n).rev().fold(0, |a, x| a << 8 | *x as usize)
    }
    fn u16(&mut self, g: impl FnOnce(&mut Rng) -> usize) -> usize {
        self.num(2, g)
    }
    fn any16(&mut self) {
        self.raw(2, 0xff, |r| r.bytes(2));
    }
    fn any8(&mut self) -> u8 {
        self.u8(0xff, |r| if r.chance(1, 6) { *r.pick(&[0, 1, 0x7f, 0x80, 0xff]) } else { r.u8() })
    }
    fn bytes(&mut self, n: usize) {
        self.raw(n, 0xff, |r| if r.chance(1, 10) { vec![*r.pick(&[0u8, 0xff]); n] } else { r.bytes(n) });
    }
    /// reserved: what the receiver ignores and the sender sets to zero
    fn res(&mut self, n: usize) {
        self.raw(n, 0, |r| if r.chance(2, 3) { vec![0; n] } else { r.bytes(n) });
    }
    /// little endian bits, of which those in `mask` are defined
    fn bits(&mut self, n: usize, mask: u32, g: impl FnOnce(&mut Rng) -> u32) -> u32 {
        let p = self.out.len();
        let v = self.raw(n, 0xff, |r| g(r).to_le_bytes()[..n].to_vec());
        if !self.short {
            self.mask[p..p + n].copy_from_slice(&mask.to_le_bytes()[..n]);
        }
        v.iter().take(n).rev().fold(0, |a, x| a << 8 | *x as u32)
    }
    fn len(&mut self, max: usize) -> usize {
        let big = self.big;
        self.u16(|r| length(r, max, big))
    }
    fn opaque(&mut self) {
        let n = self.len(1024);
        self.bytes(n);
    }
}
fn length(r: &mut Rng, max: usize, big: bool) -> usize {
    match r.below(8) {
        0 => 0,
        1 => max.min(1),
        2 if big => max,
        3 if big => max - max.min(1),
        4 if big => r.range(0, max),
        5 | 6 => r.range(0, max.min(16)),
        _ => r.range(0, max.min(80)),
    }
}
fn some_bits(r: &mut Rng, mask: u32, wild: u32) -> u32 {
    let v = match r.below(5) {
        0 => 0,
        1 => mask,
        2 => {
            let k = r.below(mask.count_ones() as usize);
            (0..32).filter(|i| mask >> i & 1 == 1).map(|i| 1u32 << i).nth(k).unwrap()
        }
        _ => r.subset(mask),
    };
    // undefined bits beside the defined ones
    if wild != 0 && r.chance(1, 6) {
        v | r.subset(wild & !mask)
    } else {
        v
    }
}
fn one_bit(r: &mut Rng, mask: u32) -> u32 {
    let k = r.below(mask.count_ones() as usize);
    (0..32).filter(|i| mask >> i & 1 == 1).map(|i| 1u32 << i).nth(k).unwrap()
}

const REQ_FLAGS: u32 = 0x3 << 1 | 0x3ffc0;
const RSP_FLAGS: u32 = 0x3fffff;

/// What can be decoded.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Part {
    Msg(u8),
    VendorReq,
    VendorRsp,
    Header,
    Opaque,
    GenHdr,
    SupVer,
    SelVer,
    ElemSup,
    ElemSel,
    ElemHdr,
    SmVer,
    SmVerList,
    Record,
    BlockS,
    BlockC,
    DmtfS,
    DmtfC,
    Alg,
    Digest,
    Signature,
    Dhe,
    Nonce,
    Version,
    NotReady,
    VendorId,
    Encap(u8),
    U(usize),
}
use Part::*;
const CODES: &[u8] = &[
    0x84, 0x04, 0xE1, 0x61, 0xE3, 0x63, 0x81, 0x01, 0x82, 0x02, 0x83, 0x03, 0xE0, 0x60, 0xE4, 0x64, 0xE5, 0x65, 0xE6, 0x66, 0xE7, 0x67, 0xE8,
    0x68, 0xE9, 0x69, 0xEC, 0x6C, 0x7F,
];
const PARTS: &[Part] = &[
    VendorReq, VendorRsp, Header, Opaque, GenHdr, SupVer, SelVer, ElemSup, ElemSel, ElemHdr, SmVer, SmVerList, Record, BlockS, BlockC, DmtfS,
    DmtfC, Alg, Digest, Signature, Dhe, Nonce, Version, NotReady, VendorId, Encap(0xEA), Encap(0x6A), Encap(0xEB), Encap(0x6B),
];

fn vendor(c: &mut Cur) {
    c.res(2);
    c.any16();
    vendor_id(c);
    let n = c.len(4087);
    c.bytes(n);
}
fn vendor_id(c: &mut Cur) {
    let n = c.u8(0xff, |r| *r.pick(&[0u8, 1, 2, 4, 16, 254, 255])) as usize;
    c.bytes(n);
}
fn dmtf(c: &mut Cur, cx: &Cx, strict: bool) {
    let digest_ok = !strict || cx.mhash != 1;
    let mut t = 0;
    c.u8(0xff, |r| {
        t = if digest_ok && r.bool() { r.range(0, 4) as u8 } else { 0x80 | r.range(0, 7) as u8 };
        if !strict && r.chance(1, 4) {
            t = r.u8();
        }
        t
    });
    let n = if strict && t & 0x80 == 0 && c.inp.is_none() {
        let n = mhash_len(cx.mhash);
        c.u16(|_| n)
    } else {
        c.len(1024)
    };
    c.bytes(n);
}
fn block(c: &mut Cur, cx: &Cx, index: u8, strict: bool) {
    c.u8(0xff, |_| index);
    // measurement specification
    c.u8(if strict { 1 } else { 1 }, |_| 1);
    let at = c.out.len();
    c.u16(|_| 0);
    let start = c.out.len();
    dmtf(c, cx, strict);
    if c.inp.is_none() {
        let n = (c.out.len() - start) as u16;
        c.out[at..at + 2].copy_from_slice(&n.to_le_bytes());
    }
}
/// a random list of blocks, made up
fn made_record(r: &mut Rng, cx: &Cx, big: bool) -> (u8, Vec<u8>) {
    let mut o = vec![];
    let mut n = 0;
    let mut ix = 0u8;
    let want = if r.chance(1, 10) { 0 } else { r.range(1, if big { 9 } else { 3 }) };
    for _ in 0..want {
        if ix == 255 {
            break;
        }
        ix = if r.chance(1, 8) { 255 } else { (ix + 1 + r.below(4) as u8).max(ix.saturating_add(1)) };
        let mut c = Cur { inp: None, r, big: big && n < 2, out: vec![], mask: vec![], short: false };
        block(&mut c, cx, ix, true);
        if o.len() + c.out.len() > 4000 {
            break;
        }
        o.extend(c.out);
        n += 1;
    }
    (n, o)
}
fn record(c: &mut Cur, cx: &Cx) {
    let big = c.big;
    let (n, data) = if c.inp.is_none() { made_record(c.r, cx, big) } else { (0, vec![]) };
    c.u8(0xff, |_| n);
    let l = c.num(3, |_| data.len());
    c.raw(l, 0xff, |_| data);
}
fn sm_list(c: &mut Cur) {
    let n = c.u8(0xff, |r| r.range(0, 2) as u8) as usize;
    c.bytes(2 * n);
}
fn elem_sup(c: &mut Cur) {
    c.raw(2, 0xff, |_| vec![0, 0]);
    let at = c.out.len();
    c.u16(|_| 0);
    c.raw(2, 0xff, |_| vec![1, 1]);
    let s = c.out.len();
    sm_list(c);
    if c.inp.is_none() {
        let n = (c.out.len() - s + 2) as u16;
        c.out[at..at + 2].copy_from_slice(&n.to_le_bytes());
    }
    let pad = (4 - c.out.len() % 4) % 4;
    c.res(pad);
}
fn elem_sel(c: &mut Cur) {
    c.raw(6, 0xff, |_| vec![0, 0, 4, 0, 1, 0]);
    c.bytes(2);
}
fn gen_hdr(c: &mut Cur, cx: &Cx, max: usize) -> u8 {
    if cx.ver < 0x12 {
        c.raw(5, 0xff, |_| vec![0x46, 0x54, 0x4d, 0x44, 1]);
        let n = c.u8(0xff, |r| r.range(0, max) as u8);
        c.res(2);
        n
    } else {
        let n = c.u8(0xff, |r| r.range(0, max) as u8);
        c.res(3);
        n
    }
}
fn alg(c: &mut Cur, t: u8, sel: bool, g: Option<u32>) {
    let t = c.u8(0xff, |_| t);
    c.u8(0xff, |_| 0x20);
    let m = match t {
        2 => 0x18,
        3 => 7,
        4 => 0xff,
        5 => 1,
        _ => 0xffff,
    };
    c.bits(2, m, |r| match g {
        Some(x) => x,
        None if sel => one_bit(r, m),
        None => some_bits(r, m, 0xffff),
    });
}
fn cap_flags(c: &mut Cur, cx: &Cx, rsp: bool) {
    let ver = cx.ver;
    c.bits(4, if rsp { RSP_FLAGS } else { REQ_FLAGS }, |r| {
        let mut e: Ep = blank();
        e.vers = vec![ver; 3];
        e.caps = if rsp { cx.scaps } else { cx.qcaps };
        if r.bool() {
            e.caps ^= r.subset(if rsp { 0x1ffff } else { 0x17fc6 }) & r.u32();
            if e.caps & 0x800 != 0 && !rsp {
                e.caps &= !0x800;
            }
            if rsp && e.caps & 0xc00 == 0xc00 {
                e.caps &= !0x800;
            }
            if e.caps & 0x18 == 0x18 {
                e.caps &= !0x8;
            }
            // no pre-provisioned public keys
            e.caps &= !0x10000;
            if e.caps & (C_KEX | C_PSK | if rsp { C_PSK_CTX } else { 0 }) != 0 {
                e.caps |= C_MAC;
            }
            if e.caps & C_MUT != 0 {
                e.caps |= 0x1000; // ENCAP
            }
        }
        legal_caps(&mut e, rsp);
        e.caps | if r.chance(1, 6) { r.subset(!(if rsp { RSP_FLAGS } else { REQ_FLAGS })) } else { 0 }
    });
}
fn algorithms(c: &mut Cur, cx: &Cx, rsp: bool) {
    let v11 = cx.ver >= 0x11;
    let types: Vec<u8> = if !v11 {
        vec![]
    } else if rsp {
        vec![2, 3, 4, 5]
    } else {
        let m = c.r.below(16);
        (0..4u8).filter(|i| m >> i & 1 == 1).map(|i| i + 2).collect()
    };
    let k = types.len();
    let n = if v11 {
        c.u8(0xff, |_| k as u8) as usize
    } else {
        c.res(1);
        0
    };
    c.res(1);
    c.u16(|_| (if rsp { 36 } else { 32 }) + 4 * k);
    c.u8(1, |r| if rsp { 1 } else { some_bits(r, 1, 0xff) as u8 });
    if cx.ver >= 0x12 {
        c.u8(0xff, |r| if rsp || r.bool() { 2 } else { 0 });
    } else {
        c.res(1);
    }
    let sel = |r: &mut Rng, m: u32| if rsp { one_bit(r, m) } else { some_bits(r, m, !0) };
    if rsp {
        c.bits(4, 0xff, |r| one_bit(r, 0xff));
    }
    c.bits(4, 0xff, |r| sel(r, 0xff));
    c.bits(4, 7, |r| sel(r, 7));
    c.res(12);
    c.raw(2, 0xff, |_| vec![0, 0]);
    c.res(2);
    for i in 0..n {
        alg(c, types.get(i).copied().unwrap_or(0), rsp, None);
    }
}

fn message(c: &mut Cur, cx: &Cx, code: u8) {
    let v = cx.ver;
    c.u8(0xff, |_| v);
    c.u8(0xff, |_| code);
    body(c, cx, code)
}
fn body(c: &mut Cur, cx: &Cx, code: u8) {
    let v = cx.ver;
    let hl = cx.hl();
    let hash_type = |c: &mut Cur| {
        let ok = cx.meas();
        c.u8(0xff, |r| if ok { *r.pick(&[0u8, 1, 0xff]) } else { 0 });
    };
    match code {
        0x84 | 0x81 | 0x67 | 0xE8 | 0x68 | 0x6C | 0xEA => c.res(2),
        0x04 => {
            c.res(3);
            let n = c.u8(0xff, |r| r.range(1, 3) as u8);
            for _ in 0..n {
                c.u8(0xff, |r| r.u8());
                c.u8(0xff, |r| *r.pick(&[0x10u8, 0x11, 0x12, 0x13, 0, 0xff]));
            }
        }
        0xE1 => {
            c.res(2);
            if v >= 0x11 {
                c.res(1);
                c.any8();
                c.res(2);
                cap_flags(c, cx, false);
            }
            if v >= 0x12 {
                sizes(c);
            }
        }
        0x61 => {
            c.res(3);
            c.any8();
            c.res(2);
            cap_flags(c, cx, true);
            if v >= 0x12 {
                sizes(c);
            }
        }
        0xE3 => algorithms(c, cx, false),
        0x63 => algorithms(c, cx, true),
        0x01 => {
            c.res(1);
            let m = c.any8();
            for _ in 0..m.count_ones() {
                c.bytes(hl);
            }
        }
        0x82 => {
            c.any8();
            c.res(1);
            c.any16();
            c.any16();
        }
        0x02 => {
            c.any8();
            c.res(1);
            let big = c.big;
            let n = c.u16(|r| length(r, 512, big));
            c.any16();
            c.bytes(n);
        }
        0x83 => {
            c.any8();
            hash_type(c);
            c.bytes(32);
        }
        0x03 => {
            c.u8(0x8f, |r| r.u8() & 0x8f);
            c.any8();
            c.bytes(hl);
            c.bytes(32);
            if cx.sum {
                c.bytes(hl);
            }
            c.opaque();
            c.bytes(sig_len_of(cx.asym));
        }
        0xE0 => {
            let a = c.u8(0xff, |r| r.below(4) as u8);
            c.any8();
            if a & 1 == 1 {
                c.bytes(32);
                if v >= 0x11 {
                    c.any8();
                }
            }
        }
        0x60 => {
            c.any8();
            let m = if !cx.sig || v < 0x11 {
                0
            } else if v < 0x12 {
                0xf
            } else {
                0x3f
            };
            c.u8(m, |r| if m == 0x3f { (*r.pick(&[0u8, 0x10, 0x20, 0x30])) | r.below(16) as u8 } else { r.u8() & 0xf });
            record(c, cx);
            c.bytes(32);
            c.opaque();
            if cx.sig {
                c.bytes(sig_len_of(cx.asym));
            }
        }
        0xE4 => {
            hash_type(c);
            c.any8();
            c.any16();
            if v >= 0x12 {
                c.any8();
            } else {
                c.res(1);
            }
            c.res(1);
            c.bytes(32);
            c.bytes(dhe_len(cx.dhe));
            c.opaque();
        }
        0x64 => {
            c.any8();
            c.res(1);
            c.any16();
            c.u8(0xff, |r| *r.pick(&[0u8, 1, 2, 4]));
            c.any8();
            c.bytes(32);
            c.bytes(dhe_len(cx.dhe));
            if cx.sum {
                c.bytes(hl);
            }
            c.opaque();
            c.bytes(sig_len_of(cx.asym));
            if !cx.hitc() {
                c.bytes(hl);
            }
        }
        0xE5 => {
            let a = c.u8(0xff, |r| r.below(2) as u8);
            c.any8();
            if a & 1 == 1 {
                c.bytes(sig_len_of(cx.req_asym));
            }
            c.bytes(hl);
        }
        0x65 => {
            c.res(2);
            if cx.hitc() {
                c.bytes(hl);
            }
        }
        0xE6 => {
            hash_type(c);
            c.res(1);
            c.any16();
            let a = c.u16(|r| length(r, 32, true));
            let b = c.u16(|r| length(r, 64, true));
            let d = c.len(1024);
            c.bytes(a);
            c.bytes(b);
            c.bytes(d);
        }
        0x66 => {
            c.any8();
            c.res(1);
            c.any16();
            c.res(2);
            let without = cx.scaps & C_PSK != 0;
            let a = c.u16(|r| if without { 0 } else { length(r, 64, true).max(1) });
            let d = c.len(1024);
            if cx.sum {
                c.bytes(hl);
            }
            c.bytes(a);
            c.bytes(d);
            c.bytes(hl);
        }
        0xE7 => {
            c.res(2);
            c.bytes(hl);
        }
        0xE9 | 0x69 => {
            c.u8(0xff, |r| r.range(1, 3) as u8);
            c.any8();
        }
        0xEC => {
            c.u8(0xff, |r| r.below(2) as u8);
            c.res(1);
        }
        0x7F => {
            let e = c.u8(0xff, |r| *r.pick(&[1u8, 3, 4, 5, 6, 7, 9, 0xD, 0x41, 0x42, 0x43, 0xff, 0xff, 0x42, 0, 0x99]));
            c.any8();
            match e {
                0x42 => c.bytes(4),
                0xff => {
                    let n = match c.inp {
                        None => c.r.range(0, 32),
                        Some(b) => b.len().saturating_sub(c.out.len()).min(32),
                    };
                    c.bytes(n);
                }
                _ => {}
            }
        }
        0x6A | 0xEB => {
            c.any8();
            c.res(1);
        }
        0x6B => {
            c.any8();
            c.any8();
            if v >= 0x12 {
                c.any8();
                c.res(3);
            }
        }
        _ => unreachable!(),
    }
}
fn sizes(c: &mut Cur) {
    let mut a = 0;
    c.raw(4, 0xff, |r| {
        a = *r.pick(&[42u32, 43, 0x1000, 0x10000, !0]);
        a.to_le_bytes().to_vec()
    });
    c.raw(4, 0xff, |r| (if r.bool() { a } else { r.range(a as usize, 0xffff_ffff) as u32 }).to_le_bytes().to_vec());
}
fn lay(c: &mut Cur, cx: &Cx, k: Part) {
    match k {
        Msg(code) => message(c, cx, code),
        VendorReq | VendorRsp => vendor(c),
        Encap(code) => body(c, cx, code),
        Header => c.bytes(2),
        Opaque => c.opaque(),
        GenHdr => {
            gen_hdr(c, cx, 255);
        }
        SupVer => {
            let n = gen_hdr(c, cx, 3);
            for _ in 0..n {
                elem_sup(c);
            }
        }
        SelVer => {
            let n = gen_hdr(c, cx, 3);
            for _ in 0..n {
                elem_sel(c);
            }
        }
        ElemSup => elem_sup(c),
        ElemSel => elem_sel(c),
        ElemHdr => {
            c.any8();
            vendor_id(c);
        }
        SmVer => c.bytes(2),
        SmVerList => sm_list(c),
        Record => record(c, cx),
        BlockS | BlockC => {
            let i = c.r.u8();
            block(c, cx, i, k == BlockS)
        }
        DmtfS => dmtf(c, cx, true),
        DmtfC => dmtf(c, cx, false),
        Alg => {
            let t = c.r.range(2, 5) as u8;
            alg(c, t, false, None)
        }
        Digest => c.bytes(cx.hl()),
        Signature => c.bytes(sig_len_of(cx.asym)),
        Dhe => c.bytes(dhe_len(cx.dhe)),
        Nonce => c.bytes(32),
        Version => c.bytes(2),
        NotReady => c.bytes(4),
        VendorId => vendor_id(c),
        U(n) => c.bytes(n),
    }
}

/// a decoded value of any kind
trait Dec {
    fn enc(&self, c: &mut SpdmContext, w: &mut Writer) -> Result<usize, ()>;
    fn dbg(&self) -> String;
    fn fields(&self, _b: &[u8], _cx: &Cx) -> Fl {
        vec![]
    }
}
/// (what, decoded, in the bytes)
type Fl = Vec<(&'static str, u64, u64)>;
struct F<T>(T, fn(&T, &[u8], &Cx) -> Fl);
struct G<T>(T, fn(&T, &[u8], &Cx) -> Fl);
impl<T: SpdmCodec + Debug> Dec for F<T> {
    fn enc(&self, c: &mut SpdmContext, w: &mut Writer) -> Result<usize, ()> {
        self.0.spdm_encode(c, w).map_err(|_| ())
    }
    fn dbg(&self) -> String {
        format!("{:?}", self.0)
    }
    fn fields(&self, b: &[u8], cx: &Cx) -> Fl {
        (self.1)(&self.0, b, cx)
    }
}
impl<T: Codec + Debug> Dec for G<T> {
    fn enc(&self, _: &mut SpdmContext, w: &mut Writer) -> Result<usize, ()> {
        self.0.encode(w).map_err(|_| ())
    }
    fn dbg(&self) -> String {
        format!("{:?}", self.0)
    }
    fn fields(&self, b: &[u8], cx: &Cx) -> Fl {
        (self.1)(&self.0, b, cx)
    }
}
struct S<T: SpdmCodec>(T);
struct P<T: Codec + Debug>(T);
struct M(SpdmMessage);
struct N<T: Codec>(T, String);
impl<T: SpdmCodec> Dec for S<T> {
    fn enc(&self, c: &mut SpdmContext, w: &mut Writer) -> Result<usize, ()> {
        self.0.spdm_encode(c, w).map_err(|_| ())
    }
    fn dbg(&self) -> String {
        format!("{:?}", self.0)
    }
}
impl<T: Codec + Debug> Dec for P<T> {
    fn enc(&self, _: &mut SpdmContext, w: &mut Writer) -> Result<usize, ()> {
        self.0.encode(w).map_err(|_| ())
    }
    fn dbg(&self) -> String {
        format!("{:?}", self.0)
    }
}
impl<T: Codec> Dec for N<T> {
    fn enc(&self, _: &mut SpdmContext, w: &mut Writer) -> Result<usize, ()> {
        self.0.encode(w).map_err(|_| ())
    }
    fn dbg(&self) -> String {
        self.1.clone()
    }
}
impl Dec for M {
    fn enc(&self, c: &mut SpdmContext, w: &mut Writer) -> Result<usize, ()> {
        self.0.spdm_encode(c, w).map_err(|_| ())
    }
    fn dbg(&self) -> String {
        format!("{:?}", self.0)
    }
    fn fields(&self, b: &[u8], cx: &Cx) -> Fl {
        fields(&self.0, b, cx)
    }
}
fn fs<T: SpdmCodec + Debug + 'static>(c: &mut SpdmContext, r: &mut Reader, f: fn(&T, &[u8], &Cx) -> Fl) -> Option<Box<dyn Dec>> {
    T::spdm_read(c, r).map(|x| Box::new(F(x, f)) as Box<dyn Dec>)
}
fn fc<T: Codec + Debug + 'static>(r: &mut Reader, f: fn(&T, &[u8], &Cx) -> Fl) -> Option<Box<dyn Dec>> {
    T::read(r).map(|x| Box::new(G(x, f)) as Box<dyn Dec>)
}
fn bs<T: SpdmCodec + 'static>(c: &mut SpdmContext, r: &mut Reader) -> Option<Box<dyn Dec>> {
    T::spdm_read(c, r).map(|x| Box::new(S(x)) as Box<dyn Dec>)
}
fn bc<T: Codec + Debug + 'static>(r: &mut Reader) -> Option<Box<dyn Dec>> {
    T::read(r).map(|x| Box::new(P(x)) as Box<dyn Dec>)
}
fn read(k: Part, c: &mut SpdmContext, r: &mut Reader) -> Option<Box<dyn Dec>> {
    match k {
        Msg(_) => SpdmMessage::spdm_read(c, r).map(|x| Box::new(M(x)) as Box<dyn Dec>),
        VendorReq => fs::<SpdmVendorDefinedRequestPayload>(c, r, |p, b, _| {
            vendor_fields(b, p.standard_id.get_u16(), &p.vendor_id, p.req_payload.req_length, &p.req_payload.vendor_defined_req_payload)
        }),
        VendorRsp => fs::<SpdmVendorDefinedResponsePayload>(c, r, |p, b, _| {
            vendor_fields(b, p.standard_id.get_u16(), &p.vendor_id, p.rsp_payload.rsp_length, &p.rsp_payload.vendor_defined_rsp_payload)
        }),
        Header => fc::<SpdmMessageHeader>(r, |p, b, _| {
            vec![("version", p.version.get_u8() as u64, b[0] as u64), ("code", p.request_response_code.get_u8() as u64, b[1] as u64)]
        }),
        Opaque => fs::<SpdmOpaqueStruct>(c, r, |p, b, _| opaque_fields(p, b)),
        GenHdr => fs::<SecuredMessageGeneralOpaqueDataHeader>(c, r, |p, b, cx| {
            vec![("total_elements", p.total_elements as u64, b[if cx.ver < 0x12 { 5 } else { 0 }] as u64)]
        }),
        SupVer => fs::<SecuredMessageDMTFSupportedVersion>(c, r, |p, b, cx| {
            let (n, mut at) = if cx.ver < 0x12 { (b[5], 8) } else { (b[0], 4) };
            let mut f = vec![("total_elements", p.secured_message_general_opaque_data_header.total_elements as u64, n as u64)];
            for e in p.opaque_element_dmtf_supported_version_list.iter().take(n as usize) {
                f.extend(sm_list_fields(&e.secured_msg_vers, &b[at + 6..]));
                at += (7 + 2 * b[at + 6] as usize + 3) & !3;
            }
            f
        }),
        SelVer => fs::<SecuredMessageDMTFVersionSelection>(c, r, |p, b, cx| {
            let (n, mut at) = if cx.ver < 0x12 { (b[5], 8) } else { (b[0], 4) };
            let mut f = vec![("total_elements", p.secured_message_general_opaque_data_header.total_elements as u64, n as u64)];
            for e in p.opaque_element_dmtf_version_selection_list.iter().take(n as usize) {
                f.extend(sm_fields(&e.selected_version, &b[at + 6..]));
                at += 8;
            }
            f
        }),
        ElemSup => fs::<OpaqueElementDMTFSupportedVersion>(c, r, |p, b, _| sm_list_fields(&p.secured_msg_vers, &b[6..])),
        ElemSel => fs::<OpaqueElementDMTFVersionSelection>(c, r, |p, b, _| sm_fields(&p.selected_version, &b[6..])),
        ElemHdr => fs::<OpaqueElementHeader>(c, r, |p, b, _| {
            let n = b[1] as usize;
            vec![("id", p.id as u64, b[0] as u64), ("vendor_len", p.vendor_len as u64, n as u64), ("vendor_id", fnv(&p.vendor_id[..n]), fnv(&b[2..2 + n]))]
        }),
        SmVer => fs::<SecuredMessageVersion>(c, r, |p, b, _| sm_fields(p, b)),
        SmVerList => fs::<SecuredMessageVersionList>(c, r, |p, b, _| sm_list_fields(p, b)),
        Record => fs::<SpdmMeasurementRecordStructure>(c, r, |p, b, _| {
            let n = le(b, 1, 3) as usize;
            vec![
                ("number_of_blocks", p.number_of_blocks as u64, b[0] as u64),
                ("record length", p.measurement_record_length.get() as u64, n as u64),
                ("record", fnv(&p.measurement_record_data[..n]), fnv(&b[4..4 + n])),
            ]
        }),
        BlockS => fs::<SpdmMeasurementBlockStructure>(c, r, |p, b, _| block_fields(p, b)),
        BlockC => fc::<SpdmMeasurementBlockStructure>(r, |p, b, _| block_fields(p, b)),
        DmtfS => fs::<SpdmDmtfMeasurementStructure>(c, r, |p, b, _| dmtf_fields(p, b)),
        DmtfC => fc::<SpdmDmtfMeasurementStructure>(r, |p, b, _| dmtf_fields(p, b)),
        Alg => fc::<SpdmAlgStruct>(r, |p, b, _| {
            let mut f = vec![];
            algs(&mut f, &[p.clone()], b);
            f
        }),
        Digest => fs::<SpdmDigestStruct>(c, r, |p, b, _| sized(p.data_size, p.as_ref(), b)),
        Signature => fs::<SpdmSignatureStruct>(c, r, |p, b, _| sized(p.data_size, p.as_ref(), b)),
        Dhe => fs::<SpdmDheExchangeStruct>(c, r, |p, b, _| sized(p.data_size, p.as_ref(), b)),
        Nonce => fc::<SpdmNonceStruct>(r, |p, b, _| vec![("nonce", fnv(&p.data), fnv(b))]),
        Version => fc::<SpdmVersionStruct>(r, |p, b, _| {
            vec![("update", p.update as u64, b[0] as u64), ("version", p.version.get_u8() as u64, b[1] as u64)]
        }),
        NotReady => fs::<SpdmErrorResponseNotReadyExtData>(c, r, |p, b, _| not_ready_fields(p, b)),
        VendorId => VendorIDStruct::read(r).map(|x| {
            let d = hex(&x.vendor_id[..x.len as usize]);
            Box::new(N(x, d)) as Box<dyn Dec>
        }),
        #[cfg(feature = "mutauth")]
        Encap(0xEA) => bs::<SpdmGetEncapsulatedRequestPayload>(c, r),
        #[cfg(feature = "mutauth")]
        Encap(0x6A) => fs::<SpdmEncapsulatedRequestPayload>(c, r, |p, b, _| vec![("request_id", p.request_id as u64, b[0] as u64)]),
        #[cfg(feature = "mutauth")]
        Encap(0xEB) => fs::<SpdmDeliverEncapsulatedResponsePayload>(c, r, |p, b, _| vec![("request_id", p.request_id as u64, b[0] as u64)]),
        #[cfg(feature = "mutauth")]
        Encap(0x6B) => fs::<SpdmEncapsulatedResponseAckPayload>(c, r, |p, b, cx| {
            let mut f = vec![("request_id", p.request_id as u64, b[0] as u64), ("payload_type", p.payload_type.get_u8() as u64, b[1] as u64)];
            if cx.ver >= 0x12 {
                f.push(("ack_request_id", p.ack_request_id as u64, b[2] as u64));
            }
            f
        }),
        Encap(_) => None,
        U(1) => bc::<u8>(r),
        U(2) => bc::<u16>(r),
        U(3) => u24::read(r).map(|x| {
            let d = format!("{}", x.get());
            Box::new(N(x, d)) as Box<dyn Dec>
        }),
        U(4) => bc::<u32>(r),
        U(8) => bc::<u64>(r),
        U(_) => bc::<u128>(r),
    }
}

fn le(b: &[u8], at: usize, n: usize) -> u64 {
    b[at..at + n].iter().rev().fold(0, |a, x| a << 8 | *x as u64)
}
fn sized(n: u16, v: &[u8], b: &[u8]) -> Fl {
    vec![("size", n as u64, b.len() as u64), ("data", fnv(v), fnv(b))]
}
fn opaque_fields(p: &SpdmOpaqueStruct, b: &[u8]) -> Fl {
    let n = le(b, 0, 2) as usize;
    vec![("opaque size", p.data_size as u64, n as u64), ("opaque", fnv(&p.data[..n]), fnv(&b[2..2 + n]))]
}
fn sm_fields(p: &SecuredMessageVersion, b: &[u8]) -> Fl {
    vec![
        ("alpha", p.alpha as u64, b[0] as u64 & 15),
        ("update", p.update_version_number as u64, b[0] as u64 >> 4),
        ("minor", p.minor_version as u64, b[1] as u64 & 15),
        ("major", p.major_version as u64, b[1] as u64 >> 4),
    ]
}
fn sm_list_fields(p: &SecuredMessageVersionList, b: &[u8]) -> Fl {
    let mut f = vec![("version_count", p.version_count as u64, b[0] as u64)];
    for (i, v) in p.versions_list.iter().take(b[0] as usize).enumerate() {
        f.extend(sm_fields(v, &b[1 + 2 * i..]));
    }
    f
}
fn dmtf_fields(p: &SpdmDmtfMeasurementStructure, b: &[u8]) -> Fl {
    let n = le(b, 1, 2) as usize;
    vec![
        ("type", p.r#type.get_u8() as u64, b[0] as u64 & 0x7f),
        ("representation", p.representation.get_u8() as u64, b[0] as u64 & 0x80),
        ("value_size", p.value_size as u64, n as u64),
        ("value", fnv(&p.value[..n]), fnv(&b[3..3 + n])),
    ]
}
fn block_fields(p: &SpdmMeasurementBlockStructure, b: &[u8]) -> Fl {
    let mut f = vec![
        ("index", p.index as u64, b[0] as u64),
        ("measurement_specification", p.measurement_specification.bits() as u64, b[1] as u64 & 1),
        ("measurement_size", p.measurement_size as u64, le(b, 2, 2)),
    ];
    f.extend(dmtf_fields(&p.measurement, &b[4..]));
    f
}
fn not_ready_fields(p: &SpdmErrorResponseNotReadyExtData, b: &[u8]) -> Fl {
    vec![
        ("rdt_exponent", p.rdt_exponent as u64, b[0] as u64),
        ("request_code", p.request_code as u64, b[1] as u64),
        ("token", p.token as u64, b[2] as u64),
        ("rdtm", p.rdtm as u64, b[3] as u64),
    ]
}
fn vendor_fields(b: &[u8], std: u16, id: &VendorIDStruct, len: u16, data: &[u8]) -> Fl {
    let k = b[4] as usize;
    let n = le(b, 5 + k, 2) as usize;
    vec![
        ("standard_id", std as u64, le(b, 2, 2)),
        ("vendor_id length", id.len as u64, k as u64),
        ("vendor_id", fnv(&id.vendor_id[..k]), fnv(&b[5..5 + k])),
        ("payload length", len as u64, n as u64),
        ("payload", fnv(&data[..n]), fnv(&b[7 + k..7 + k + n])),
    ]
}
/// the fields of a decoded message, against the bytes of it: (what, decoded, in the message)
fn fields(m: &SpdmMessage, b: &[u8], cx: &Cx) -> Vec<(&'static str, u64, u64)> {
    let v12 = cx.ver >= 0x12;
    let mut f: Vec<(&'static str, u64, u64)> = vec![
        ("header.version", m.header.version.get_u8() as u64, b[0] as u64),
        ("header.code", m.header.request_response_code.get_u8() as u64, b[1] as u64),
    ];
    let h = |x: &[u8]| fnv(x);
    use SpdmMessagePayload as Y;
    match &m.payload {
        Y::SpdmVersionResponse(p) => {
            f.push(("count", p.version_number_entry_count as u64, b[5] as u64));
            for i in 0..p.version_number_entry_count as usize {
                f.push(("update", p.versions[i].update as u64, b[6 + 2 * i] as u64));
                f.push(("version", p.versions[i].version.get_u8() as u64, b[7 + 2 * i] as u64));
            }
        }
        Y::SpdmGetCapabilitiesRequest(p) if cx.ver >= 0x11 => {
            f.push(("ct_exponent", p.ct_exponent as u64, b[5] as u64));
            f.push(("flags", p.flags.bits() as u64, le(b, 8, 4) & REQ_FLAGS as u64));
            if v12 {
                f.push(("data_transfer_size", p.data_transfer_size as u64, le(b, 12, 4)));
                f.push(("max_spdm_msg_size", p.max_spdm_msg_size as u64, le(b, 16, 4)));
            }
        }
        Y::SpdmCapabilitiesResponse(p) => {
            f.push(("ct_exponent", p.ct_exponent as u64, b[5] as u64));
            f.push(("flags", p.flags.bits() as u64, le(b, 8, 4) & RSP_FLAGS as u64));
            if v12 {
                f.push(("data_transfer_size", p.data_transfer_size as u64, le(b, 12, 4)));
                f.push(("max_spdm_msg_size", p.max_spdm_msg_size as u64, le(b, 16, 4)));
            }
        }
        Y::SpdmNegotiateAlgorithmsRequest(p) => {
            f.push(("measurement_specification", p.measurement_specification.bits() as u64, b[6] as u64 & 1));
            f.push(("base_asym_algo", p.base_asym_algo.bits() as u64, le(b, 8, 4) & 0xff));
            f.push(("base_hash_algo", p.base_hash_algo.bits() as u64, le(b, 12, 4) & 7));
            if v12 {
                f.push(("other_params_support", p.other_params_support.bits() as u64, b[7] as u64));
            }
            algs(&mut f, &p.alg_struct[..p.alg_struct_count as usize], &b[32..]);
        }
        Y::SpdmAlgorithmsResponse(p) => {
            f.push(("measurement_specification", p.measurement_specification_sel.bits() as u64, b[6] as u64 & 1));
            f.push(("measurement_hash_algo", p.measurement_hash_algo.bits() as u64, le(b, 8, 4) & 0xff));
            f.push(("base_asym_sel", p.base_asym_sel.bits() as u64, le(b, 12, 4) & 0xff));
            f.push(("base_hash_sel", p.base_hash_sel.bits() as u64, le(b, 16, 4) & 7));
            if v12 {
                f.push(("other_params_selection", p.other_params_selection.bits() as u64, b[7] as u64));
            }
            algs(&mut f, &p.alg_struct[..p.alg_struct_count as usize], &b[36..]);
        }
        Y::SpdmDigestsResponse(p) => {
            f.push(("slot_mask", p.slot_mask as u64, b[3] as u64));
            let n = cx.hl();
            for i in 0..b[3].count_ones() as usize {
                f.push(("digest size", p.digests[i].data_size as u64, n as u64));
                f.push(("digest", h(&p.digests[i].data[..n]), h(&b[4 + i * n..][..n])));
            }
        }
        Y::SpdmGetCertificateRequest(p) => {
            f.push(("slot_id", p.slot_id as u64, b[2] as u64));
            f.push(("offset", p.offset as u64, le(b, 4, 2)));
            f.push(("length", p.length as u64, le(b, 6, 2)));
        }
        Y::SpdmCertificateResponse(p) => {
            let n = le(b, 4, 2) as usize;
            f.push(("slot_id", p.slot_id as u64, b[2] as u64));
            f.push(("portion_length", p.portion_length as u64, n as u64));
            f.push(("remainder_length", p.remainder_length as u64, le(b, 6, 2)));
            f.push(("cert_chain", h(&p.cert_chain[..n]), h(&b[8..8 + n])));
        }
        Y::SpdmChallengeRequest(p) => {
            f.push(("slot_id", p.slot_id as u64, b[2] as u64));
            f.push(("measurement_summary_hash_type", p.measurement_summary_hash_type.get_u8() as u64, b[3] as u64));
            f.push(("nonce", h(&p.nonce.data), h(&b[4..36])));
        }
        Y::SpdmChallengeAuthResponse(p) => {
            let n = cx.hl();
            f.push(("slot_id", p.slot_id as u64, b[2] as u64 & 0xf));
            f.push(("slot_mask", p.slot_mask as u64, b[3] as u64));
            f.push(("cert_chain_hash", h(&p.cert_chain_hash.data[..n]), h(&b[4..4 + n])));
            f.push(("nonce", h(&p.nonce.data), h(&b[4 + n..36 + n])));
            f.push(("basic_mut_auth_req", p.challenge_auth_attribute.bits() as u64, b[2] as u64 & 0x80));
            let mut at = 36 + n;
            if cx.sum {
                f.push(("summary", h(&p.measurement_summary_hash.data[..n]), h(&b[at..at + n])));
                at += n;
            }
            f.extend(opaque_fields(&p.opaque, &b[at..]));
            let s = p.signature.data_size as usize;
            f.push(("signature", h(&p.signature.data[..s]), h(&b[b.len() - s..])));
        }
        Y::SpdmGetMeasurementsRequest(p) => {
            f.push(("measurement_attributes", p.measurement_attributes.bits() as u64, b[2] as u64));
            if b[2] & 1 == 1 {
                f.push(("nonce", h(&p.nonce.data), h(&b[4..36])));
                if cx.ver >= 0x11 {
                    f.push(("slot_id", p.slot_id as u64, b[36] as u64));
                }
            }
        }
        Y::SpdmMeasurementsResponse(p) => {
            let n = le(b, 5, 3) as usize;
            f.push(("number_of_measurement", p.number_of_measurement as u64, b[2] as u64));
            f.push(("number_of_blocks", p.measurement_record.number_of_blocks as u64, b[4] as u64));
            f.push(("record length", p.measurement_record.measurement_record_length.get() as u64, n as u64));
            f.push(("record", h(&p.measurement_record.measurement_record_data[..n]), h(&b[8..8 + n])));
            f.push(("nonce", h(&p.nonce.data), h(&b[8 + n..40 + n])));
            f.extend(opaque_fields(&p.opaque, &b[40 + n..]));
            if cx.sig {
                let s = sig_len_of(cx.asym);
                f.push(("signature size", p.signature.data_size as u64, s as u64));
                f.push(("signature", h(&p.signature.data[..s]), h(&b[b.len() - s..])));
            }
            if cx.sig && v12 {
                f.push(("content_changed", p.content_changed.bits() as u64, b[3] as u64 & 0x30));
            }
            if cx.sig && cx.ver >= 0x11 {
                f.push(("slot_id", p.slot_id as u64, b[3] as u64 & 0xf));
            }
        }
        Y::SpdmKeyExchangeRequest(p) => {
            f.push(("measurement_summary_hash_type", p.measurement_summary_hash_type.get_u8() as u64, b[2] as u64));
            f.push(("slot_id", p.slot_id as u64, b[3] as u64));
            f.push(("req_session_id", p.req_session_id as u64, le(b, 4, 2)));
            f.push(("session_policy", p.session_policy as u64, if v12 { b[6] as u64 } else { 0 }));
            f.push(("random", h(&p.random.data), h(&b[8..40])));
            let n = dhe_len(cx.dhe);
            f.push(("exchange", h(&p.exchange.data[..p.exchange.data_size as usize]), h(&b[40..40 + n])));
            f.push(("opaque", h(&p.opaque.data[..p.opaque.data_size as usize]), h(&b[42 + n..])));
        }
        Y::SpdmKeyExchangeResponse(p) => {
            f.push(("heartbeat_period", p.heartbeat_period as u64, b[2] as u64));
            f.push(("rsp_session_id", p.rsp_session_id as u64, le(b, 4, 2)));
            f.push(("mut_auth_req", p.mut_auth_req.bits() as u64, b[6] as u64));
            f.push(("req_slot_id", p.req_slot_id as u64, b[7] as u64));
            f.push(("random", h(&p.random.data), h(&b[8..40])));
            let n = dhe_len(cx.dhe);
            f.push(("exchange", h(&p.exchange.data[..p.exchange.data_size as usize]), h(&b[40..40 + n])));
            let mut at = 40 + n;
            let l = cx.hl();
            if cx.sum {
                f.push(("summary", h(&p.measurement_summary_hash.data[..l]), h(&b[at..at + l])));
                at += l;
            }
            f.extend(opaque_fields(&p.opaque, &b[at..]));
            at += 2 + le(b, at, 2) as usize;
            let s = sig_len_of(cx.asym);
            f.push(("signature size", p.signature.data_size as u64, s as u64));
            f.push(("signature", h(&p.signature.data[..s]), h(&b[at..at + s])));
            if !cx.hitc() {
                f.push(("verify_data", h(&p.verify_data.data[..l]), h(&b[at + s..])));
            }
        }
        Y::SpdmFinishResponse(p) if cx.hitc() => {
            f.push(("verify_data", h(&p.verify_data.data[..cx.hl()]), h(&b[4..])));
        }
        Y::SpdmPskFinishRequest(p) => {
            f.push(("verify_data", h(&p.verify_data.data[..cx.hl()]), h(&b[4..])));
        }
        Y::SpdmEndSessionRequest(p) => {
            f.push(("attributes", p.end_session_request_attributes.bits() as u64, b[2] as u64));
        }
        Y::SpdmFinishRequest(p) => {
            f.push(("attributes", p.finish_request_attributes.bits() as u64, b[2] as u64));
            f.push(("req_slot_id", p.req_slot_id as u64, b[3] as u64));
            let n = cx.hl();
            f.push(("verify_data", h(&p.verify_data.data[..n]), h(&b[b.len() - n..])));
            let s = p.signature.data_size as usize;
            f.push(("signature", h(&p.signature.data[..s]), h(&b[4..b.len() - n])));
        }
        Y::SpdmPskExchangeRequest(p) => {
            f.push(("measurement_summary_hash_type", p.measurement_summary_hash_type.get_u8() as u64, b[2] as u64));
            f.push(("req_session_id", p.req_session_id as u64, le(b, 4, 2)));
            let (x, y, z) = (le(b, 6, 2) as usize, le(b, 8, 2) as usize, le(b, 10, 2) as usize);
            f.push(("hint", h(&p.psk_hint.data[..p.psk_hint.data_size as usize]), h(&b[12..12 + x])));
            f.push(("context", h(&p.psk_context.data[..p.psk_context.data_size as usize]), h(&b[12 + x..12 + x + y])));
            f.push(("opaque", h(&p.opaque.data[..p.opaque.data_size as usize]), h(&b[12 + x + y..12 + x + y + z])));
        }
        Y::SpdmPskExchangeResponse(p) => {
            f.push(("heartbeat_period", p.heartbeat_period as u64, b[2] as u64));
            f.push(("rsp_session_id", p.rsp_session_id as u64, le(b, 4, 2)));
            f.push(("context size", p.psk_context.data_size as u64, le(b, 8, 2)));
            f.push(("opaque size", p.opaque.data_size as u64, le(b, 10, 2)));
            let n = cx.hl();
            let mut at = 12;
            if cx.sum {
                f.push(("summary", h(&p.measurement_summary_hash.data[..n]), h(&b[at..at + n])));
                at += n;
            }
            let x = le(b, 8, 2) as usize;
            f.push(("context", h(&p.psk_context.data[..x]), h(&b[at..at + x])));
            f.push(("verify_data", h(&p.verify_data.data[..n]), h(&b[b.len() - n..])));
        }
        Y::SpdmKeyUpdateRequest(p) => {
            f.push(("operation", p.key_update_operation.get_u8() as u64, b[2] as u64));
            f.push(("tag", p.tag as u64, b[3] as u64));
        }
        Y::SpdmKeyUpdateResponse(p) => {
            f.push(("operation", p.key_update_operation.get_u8() as u64, b[2] as u64));
            f.push(("tag", p.tag as u64, b[3] as u64));
        }
        Y::SpdmErrorResponse(p) => {
            f.push(("error_code", p.error_code.get_u8() as u64, b[2] as u64));
            f.push(("error_data", p.error_data as u64, b[3] as u64));
            match &p.extended_data {
                SpdmErrorResponseExtData::SpdmErrorExtDataNotReady(x) => {
                    if b[2] == 0x42 {
                        f.extend(not_ready_fields(x, &b[4..]));
                    }
                }
                SpdmErrorResponseExtData::SpdmErrorExtDataVendorDefined(x) if b[2] == 0xff => {
                    f.push(("extended size", x.data_size as u64, b.len() as u64 - 4));
                    f.push(("extended", h(&x.data[..x.data_size as usize & 63]), h(&b[4..])));
                }
                _ => f.push(("extended data", b[2] as u64, if b[2] == 0x42 || b[2] == 0xff { 0 } else { b[2] as u64 })),
            }
        }
        _ => {}
    }
    f
}
fn algs(f: &mut Vec<(&'static str, u64, u64)>, a: &[SpdmAlgStruct], b: &[u8]) {
    for (i, x) in a.iter().enumerate() {
        f.push(("alg_type", x.alg_type.get_u8() as u64, b[4 * i] as u64));
        let v = le(b, 4 * i + 2, 2);
        let (g, m) = match &x.alg_supported {
            SpdmAlg::SpdmAlgoDhe(y) => (y.bits(), 0x18),
            SpdmAlg::SpdmAlgoAead(y) => (y.bits(), 7),
            SpdmAlg::SpdmAlgoReqAsym(y) => (y.bits(), 0xff),
            SpdmAlg::SpdmAlgoKeySchedule(y) => (y.bits(), 1),
            _ => (0, 0),
        };
        f.push(("alg_supported", g as u64, v & m));
    }
}

/// the longest message in `b`: its bytes' meaningful bits; None if `b` is too short for one
fn parse(b: &[u8], cx: &Cx, k: Part, r: &mut Rng) -> Option<Vec<u8>> {
    let k = match k {
        Msg(_) if b.len() < 2 => return None,
        Msg(_) if !CODES.contains(&b[1]) => return Some(vec![]),
        Msg(_) => Msg(b[1]),
        k => k,
    };
    let mut c = Cur { inp: Some(b), r, big: false, out: vec![], mask: vec![], short: false };
    lay(&mut c, cx, k);
    if c.short {
        None
    } else {
        Some(c.mask)
    }
}
/// out of what the encoders support although the decoders read past it
fn beyond(k: Part, b: &[u8], cx: &Cx) -> bool {
    let at = if cx.ver < 0x12 { 8 } else { 4 };
    match k {
        SmVerList => b.first().map_or(false, |n| *n > 2),
        ElemSup => b.get(6).map_or(false, |n| *n > 2),
        SupVer | SelVer => {
            let n = b.get(if cx.ver < 0x12 { 5 } else { 0 }).copied().unwrap_or(0) as usize;
            if n > 3 {
                return true;
            }
            if k == SelVer {
                return false;
            }
            let mut p = at;
            for _ in 0..n {
                match b.get(p + 6) {
                    Some(x) if *x <= 2 => p += (7 + 2 * *x as usize + 3) & !3,
                    Some(_) => return true,
                    None => return false,
                }
            }
            false
        }
        _ => false,
    }
}

struct T<'a> {
    cx: Cx,
    k: Part,
    c: u64,
    rep: &'a mut Report,
}
impl<'a> T<'a> {
    fn viol(&mut self, what: &str, b: &[u8], more: String) {
        let n = match self.k {
            Msg(_) => format!("message {:02x}", b.get(1).copied().unwrap_or(0)),
            k => format!("{:?}", k),
        };
        self.rep.viol(
            &format!("{}: {}", n, what),
            self.c,
            format!("{}: {} {} [{}; {} bytes {}; {}]", n, what, more, self.cx.show(), b.len(), hexs(b), CONFIG),
        );
    }
    /// decode, re-encode, decode: `legal` if the bytes are a well formed message of this length
    fn probe(&mut self, ctx: &mut SpdmContext, b: &[u8], legal: Option<usize>, r: &mut Rng, deep: bool) -> bool {
        let k = self.k;
        let got = guarded(|| {
            let mut rd = Reader::init(b);
            let v = read(k, ctx, &mut rd);
            (v, rd.used(), rd.left())
        });
        let (v, used, left) = match got {
            Err(e) => {
                self.viol("decoding panics", b, e.show());
                return false;
            }
            Ok(x) => x,
        };
        if used + left != b.len() {
            self.viol("reader used more than there is", b, format!("used {} left {}", used, left));
        }
        let v = match v {
            None => {
                if legal.is_some() {
                    self.viol("a well formed message is refused", b, String::new());
                }
                self.rep.count("refused", 1);
                return false;
            }
            Some(v) => v,
        };
        self.rep.count("accepted", 1);
        if let Some(n) = legal {
            if n != used {
                self.viol("decoding does not consume exactly the message", b, format!("consumed {} of {}", used, n));
                return true;
            }
        }
        if beyond(k, b, &self.cx) {
            self.rep.count("no opinion: longer lists than the encoder has room for", 1);
            return true;
        }
        let mask = match parse(b, &self.cx, k, r) {
            None => {
                self.viol("accepted although it is cut short", b, format!("consumed {}", used));
                return true;
            }
            Some(m) => m,
        };
        if let (Msg(_), true) = (k, mask.is_empty()) {
            self.rep.count("accepted, of a code without a layout here", 1);
            return true;
        }
        if mask.len() != used {
            self.viol("decoding consumes another length than the message has", b, format!("consumed {} of {}", used, mask.len()));
            return true;
        }
        for (what, g, w) in v.fields(&b[..used], &self.cx) {
            self.rep.count("fields compared", 1);
            if g != w {
                self.viol(&format!("field {} decoded wrong", what), b, format!("{:x} instead of {:x}", g, w));
            }
        }
        // a buffer with room to spare
        let extra = r.range(0, 20);
        let pat = r.u8();
        let mut buf = vec![pat; used + extra];
        let enc = guarded(|| {
            let mut w = Writer::init(&mut buf);
            let x = v.enc(ctx, &mut w);
            (x, w.used())
        });
        let (x, wrote) = match enc {
            Err(e) => {
                self.viol("encoding panics", b, e.show());
                return true;
            }
            Ok(x) => x,
        };
        let n = match x {
            Err(()) => {
                self.viol("what was decoded cannot be encoded", b, format!("into {} bytes", used + extra));
                return true;
            }
            Ok(n) => n,
        };
        if n != wrote || n != used {
            self.viol("encoding has another length", b, format!("returns {}, wrote {}, decoded {}", n, wrote, used));
            return true;
        }
        if buf[used..].iter().any(|x| *x != pat) {
            self.viol("encoding writes behind the message", b, String::new());
        }
        for i in 0..used {
            if (buf[i] ^ b[i]) & mask[i] != 0 {
                self.viol("re-encoding differs", b, format!("at {}: {:02x} instead of {:02x}", i, buf[i], b[i]));
                return true;
            }
        }
        buf.truncate(used);
        if !deep {
            return true;
        }
        // and back
        let again = guarded(|| {
            let mut rd = Reader::init(&buf);
            let v = read(k, ctx, &mut rd);
            (v, rd.used())
        });
        match again {
            Ok((Some(w), u)) => {
                if u != used {
                    self.viol("decoding the encoding consumes another length", b, format!("{} of {}", u, used));
                }
                if w.dbg() != v.dbg() {
                    self.viol("decoding the encoding gives another value", b, String::new());
                }
                self.rep.count("round trips", 1);
            }
            Ok((None, _)) => self.viol("its own encoding is refused", b, hexs(&buf)),
            Err(e) => self.viol("decoding the encoding panics", b, e.show()),
        }
        // buffers too small for it
        let sizes: Vec<usize> = if used <= 80 { (0..used).collect() } else { (0..12).map(|_| r.below(used)).chain([0, used - 1]).collect() };
        for s in sizes {
            let mut small = vec![pat; s + 8];
            let x = guarded(|| {
                let mut w = Writer::init(&mut small[..s]);
                let x = v.enc(ctx, &mut w);
                (x, w.used())
            });
            self.rep.count("encodings into too small a buffer", 1);
            match x {
                Err(e) => {
                    self.viol("encoding into too small a buffer panics", b, format!("{} bytes: {}", s, e.show()));
                    break;
                }
                Ok((Ok(n), _)) => {
                    self.viol("encoding into too small a buffer succeeds", b, format!("{} bytes: {}", s, n));
                    break;
                }
                Ok((Err(()), u)) => {
                    if u > s {
                        self.viol("encoding writes past the buffer", b, format!("{} bytes: {}", s, u));
                        break;
                    }
                    if small[..u] != buf[..u] {
                        self.viol("the part that fits is not a prefix of the encoding", b, format!("{} bytes", s));
                        break;
                    }
                    if small[u..].iter().any(|x| *x != pat) {
                        self.viol("encoding writes behind what it reports", b, format!("{} bytes", s));
                        break;
                    }
                }
            }
        }
        true
    }
}
fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..r.range(1, 3) {
        let head = b.len().min(48);
        match r.below(8) {
            0 if !b.is_empty() => {
                let i = r.below(b.len());
                b[i] ^= 1 << r.below(8);
            }
            1 | 2 if head > 0 => {
                let i = r.below(head);
                b[i] = *r.pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0x10, 0x20, 0x7f, 0x80, 0xf0, 0xfe, 0xff]);
            }
            3 if head > 1 => {
                let i = r.below(head - 1);
                let v = match r.below(4) {
                    0 => r.u16(),
                    1 => r.below(70) as u16,
                    2 => *r.pick(&[31u16, 32, 33, 63, 64, 65, 511, 512, 513, 1023, 1024, 1025, 1027, 1028, 4000, 4001, 4086, 4087, 4088, 4096, 0xffff]),
                    _ => (b.len() as u16).wrapping_sub(r.below(20) as u16),
                };
                b[i..i + 2].copy_from_slice(&v.to_le_bytes());
            }
            4 => {
                let n = r.below(b.len() + 1);
                b.truncate(n);
            }
            5 => {
                let n = if r.chance(1, 6) { r.range(1, 6000) } else { r.range(1, 40) };
                let x = r.bytes(n);
                b.extend(x);
            }
            6 if head > 0 => {
                let i = r.below(head);
                b[i] = b[i].wrapping_add(if r.bool() { 1 } else { 0xff });
            }
            7 if head > 2 => {
                let i = r.below(head);
                let n = r.below(4).min(b.len() - i);
                if r.bool() {
                    b.drain(i..i + n);
                } else {
                    let x = r.bytes(n);
                    b.splice(i..i, x);
                }
            }
            _ => {}
        }
    }
}

/// Reader, Writer and the integers
fn primitives(c: u64, r: &mut Rng, rep: &mut Report) {
    let n = r.range(0, 24);
    let data = r.bytes(n);
    let mut buf = data.clone();
    let mut log = vec![];
    let res = guarded(|| {
        let mut bad: Option<String> = None;
        // the reader against a cursor
        let mut rd = Reader::init(&data);
        let mut p = 0usize;
        for _ in 0..12 {
            let op = r.below(8);
            let k = if r.chance(1, 8) { *r.pick(&[usize::MAX, usize::MAX - 3, 1 << 40]) } else { r.below(9) };
            let room = n - p;
            let ok = match op {
                0 => {
                    let g = rd.take(k).map(|x| x.to_vec());
                    let w = if k <= room { Some(data[p..p + k].to_vec()) } else { None };
                    if g.is_some() {
                        p += k.min(room);
                    }
                    g == w
                }
                1 => {
                    let g = rd.sub(k).map(|s| (s.left(), s.used()));
                    let w = if k <= room { Some((k, 0)) } else { None };
                    if g.is_some() {
                        p += k.min(room);
                    }
                    g == w
                }
                2 if r.chance(1, 6) => {
                    let g = rd.rest().to_vec();
                    let w = data[p..].to_vec();
                    p = n;
                    g == w
                }
                3 => {
                    let g = u8::read(&mut rd);
                    let w = data.get(p).copied();
                    p += w.map_or(0, |_| 1);
                    g == w
                }
                4 => int(&mut rd, &data, &mut p, 2, |r| u16::read(r).map(|x| x as u128)),
                5 => int(&mut rd, &data, &mut p, 3, |r| u24::read(r).map(|x| x.get() as u128)),
                6 => int(&mut rd, &data, &mut p, 4, |r| u32::read(r).map(|x| x as u128)),
                7 if r.bool() => int(&mut rd, &data, &mut p, 8, |r| u64::read(r).map(|x| x as u128)),
                7 => int(&mut rd, &data, &mut p, 16, u128::read),
                _ => true,
            };
            log.push((op, k));
            if !ok {
                bad = Some("reading gives something else".into());
                break;
            }
            if rd.used() != p || rd.left() != n - p || rd.any_left() != (p < n) {
                bad = Some(format!("reader is at {}, {} left, instead of {} of {}", rd.used(), rd.left(), p, n));
                break;
            }
        }
        // the writer against a vector
        let mut model: Vec<u8> = vec![];
        let before = buf.clone();
        {
            let mut w = Writer::init(&mut buf);
            for _ in 0..8 {
                if bad.is_some() {
                    break;
                }
                let room = n - model.len();
                let v = (r.next() as u128) << 64 | r.next() as u128;
                let op = r.below(8);
                // how many bytes, whether it must succeed as a whole
                let (k, g): (usize, Option<usize>) = match op {
                    0 => {
                        let k = r.below(9);
                        (k, w.extend_from_slice(&v.to_le_bytes()[..k]))
                    }
                    1 => (1, w.push(v as u8).map(|_| 1)),
                    2 => (1, (v as u8).encode(&mut w).ok()),
                    3 => (2, (v as u16).encode(&mut w).ok()),
                    4 => (3, u24::new(v as u32 & 0xff_ffff).encode(&mut w).ok()),
                    5 => (4, (v as u32).encode(&mut w).ok()),
                    6 => (8, (v as u64).encode(&mut w).ok()),
                    _ => (16, v.encode(&mut w).ok()),
                };
                log.push((100 + op, k));
                if k <= room {
                    if g != Some(k) {
                        bad = Some(format!("writing {} bytes where {} fit gives {:?}", k, room, g));
                    }
                    model.extend_from_slice(&v.to_le_bytes()[..k]);
                } else {
                    if g.is_some() {
                        bad = Some(format!("writing {} bytes where {} fit gives {:?}", k, room, g));
                    }
                    break;
                }
                if w.used() != model.len() || w.left() != n - model.len() || w.used_slice() != &model[..] || w.mut_used_slice() != &model[..] {
                    bad = Some(format!("writer holds {} bytes, {} left, instead of {} of {}", w.used(), w.left(), model.len(), n));
                }
            }
        }
        if bad.is_none() && (buf[..model.len()] != model[..] || buf.len() != before.len()) {
            bad = Some("what was written is not in the buffer".into());
        }
        bad
    });
    rep.count("reader and writer sequences", 1);
    match res {
        Err(e) => rep.viol("Reader/Writer panics", c, format!("Reader/Writer panics: {} [{:?} of {} bytes]", e.show(), log, n)),
        Ok(Some(m)) => {
            let s: String = m.chars().filter(|c| !c.is_ascii_digit()).collect();
            rep.viol(&format!("Reader/Writer: {}", s), c, format!("{} [{:?} of {} bytes {}]", m, log, n, hex(&data)))
        }
        Ok(None) => {}
    }
}
fn int(rd: &mut Reader, d: &[u8], p: &mut usize, n: usize, f: impl FnOnce(&mut Reader) -> Option<u128>) -> bool {
    let w = if d.len() - *p >= n { Some(d[*p..*p + n].iter().rev().fold(0u128, |a, x| a << 8 | *x as u128)) } else { None };
    let g = f(rd);
    if w.is_some() {
        *p += n;
    }
    g == w
}

pub fn case(p: &Plan, prop: &'static str, c: u64, r: &mut Rng, rep: &mut Report) {
    let _ = prop;
    let q = blank();
    let mut sim = Sim::new(Trans::Mctp, Some(&q), None);
    let ctx = &mut sim.rq().common;
    for _ in 0..30 {
        rep.evals += 1;
        if r.chance(1, 12) {
            primitives(c, r, rep);
            continue;
        }
        let cx = Cx::random(r);
        cx.install(ctx);
        let mut k = if r.chance(3, 4) { Msg(*r.pick(CODES)) } else { *r.pick(PARTS) };
        if r.chance(1, 20) {
            k = U(*r.pick(&[1usize, 2, 3, 4, 8, 16]));
        }
        if matches!(k, Encap(_)) && !MUTAUTH {
            continue;
        }
        if matches!(k, GenHdr | SupVer | SelVer) && cx.ver >= 0x12 && !cx.fmt1 {
            continue;
        }
        let big = r.chance(1, 6);
        let mut cur = Cur { inp: None, r, big, out: vec![], mask: vec![], short: false };
        lay(&mut cur, &cx, k);
        let b = cur.out;
        let name = match k {
            Msg(x) => format!("message {:02x}", x),
            k => format!("{:?}", k),
        };
        rep.count(&name, 1);
        rep.max("max message bytes", b.len() as u64);
        rep.seen(fnv(&b));
        if p.verbose {
            eprintln!("{} {} [{}]", name, hexs(&b), cx.show());
        }
        rep.sample(|| format!("{} {} [{}]", name, hexs(&b), cx.show()));
        let mut t = T { cx: cx.clone(), k, c, rep };
        let vendor_err = k == Msg(0x7F) && b[2] == 0xff;
        // well formed
        t.probe(ctx, &b, Some(b.len()), r, true);
        // with something behind it
        if !vendor_err {
            let mut x = b.clone();
            let n = r.range(1, 30);
            let y = r.bytes(n);
            x.extend(y);
            t.probe(ctx, &x, Some(b.len()), r, false);
            t.rep.count("messages with bytes behind them", 1);
        }
        // cut short
        if !vendor_err {
            let cuts: Vec<usize> = if b.len() <= 100 { (0..b.len()).collect() } else { (0..12).map(|_| r.below(b.len())).chain([b.len() - 1, 0, 2]).collect() };
            for n in cuts {
                t.rep.count("messages cut short", 1);
                let got = guarded(|| read(k, ctx, &mut Reader::init(&b[..n])).is_some());
                match got {
                    Err(e) => {
                        t.viol("decoding a message cut short panics", &b[..n], e.show());
                        break;
                    }
                    Ok(true) => {
                        t.viol("a message cut short is accepted", &b[..n], format!("of {}", b.len()));
                        break;
                    }
                    Ok(false) => {}
                }
            }
        }
        // damaged
        for _ in 0..12 {
            let mut x = b.clone();
            mutate(r, &mut x);
            t.rep.count("damaged messages", 1);
            let deep = r.chance(1, 3);
            if t.probe(ctx, &x, None, r, deep) {
                t.rep.count("damaged messages accepted", 1);
            }
        }
        // of another negotiation, or nonsense
        if r.chance(1, 3) {
            let other = Cx::random(r);
            other.install(ctx);
            t.cx = other.clone();
            if !(matches!(k, GenHdr | SupVer | SelVer) && other.ver >= 0x12 && !other.fmt1) {
                t.probe(ctx, &b, None, r, true);
                t.rep.count("messages read under another negotiation", 1);
                let n = r.range(0, 200);
                let mut x = r.bytes(n);
                if let (Msg(m), true) = (k, n > 1) {
                    x[1] = m;
                }
                t.probe(ctx, &x, None, r, true);
                t.rep.count("random bytes", 1);
            }
        }
    }
}
