//! The two transports' framing, against the byte layouts of their binding specifications.
use crate::gen::CONFIG;
use crate::report::*;
use crate::sim::{guarded, PanicInfo, Trans};
use crate::util::*;
use mctp_transport::MctpTransportEncap;
use pcidoe_transport::PciDoeTransportEncap;
use spdmlib::common::SpdmTransportEncap;

const DOE_MAX_DW: usize = 0x40000;

fn boxed(t: Trans) -> Box<dyn SpdmTransportEncap> {
    match t {
        Trans::Mctp => Box::new(MctpTransportEncap {}),
        Trans::Doe => Box::new(PciDoeTransportEncap {}),
    }
}
/// The frame of a message; None if the transport has none for it.
fn frame(t: Trans, m: &[u8], secured: bool) -> Option<Vec<u8>> {
    let mut o = vec![];
    match t {
        Trans::Mctp => {
            o.push(if secured { 6 } else { 5 });
            o.extend_from_slice(m);
        }
        Trans::Doe => {
            let dw = 2 + (m.len() + 3) / 4;
            if dw > DOE_MAX_DW {
                return None;
            }
            o.extend([1, 0, if secured { 2 } else { 1 }, 0]);
            o.extend(((dw % DOE_MAX_DW) as u32).to_le_bytes());
            o.extend_from_slice(m);
            o.resize(dw * 4, 0);
        }
    }
    Some(o)
}
fn app_frame(t: Trans, m: &[u8], app: bool) -> Vec<u8> {
    match t {
        Trans::Mctp => {
            let mut o = vec![if app { 1 } else { 5 }];
            o.extend_from_slice(m);
            o
        }
        Trans::Doe => m.to_vec(),
    }
}
/// What a received frame holds: Err is "must be refused".
fn parse(t: Trans, f: &[u8]) -> Result<(Vec<u8>, bool), &'static str> {
    match t {
        Trans::Mctp => match f.first() {
            None => Err("empty"),
            Some(5) => Ok((f[1..].to_vec(), false)),
            Some(6) => Ok((f[1..].to_vec(), true)),
            Some(_) => Err("of another message type"),
        },
        Trans::Doe => {
            if f.len() < 8 {
                return Err("shorter than its header");
            }
            if f[0] != 1 || f[1] != 0 {
                return Err("of another vendor");
            }
            if f[2] != 1 && f[2] != 2 {
                return Err("of another object type");
            }
            let mut dw = u32::from_le_bytes([f[4], f[5], f[6], f[7]]) as usize % DOE_MAX_DW;
            if dw == 0 {
                dw = DOE_MAX_DW;
            }
            if dw < 2 {
                return Err("with a length below its header's");
            }
            if dw * 4 > f.len() {
                return Err("shorter than its length field");
            }
            Ok((f[8..dw * 4].to_vec(), f[2] == 2))
        }
    }
}
/// Nothing is said about frames with reserved bits set or bytes after the end: they may be
/// refused, but if they are taken, then for what they say.
fn odd(t: Trans, f: &[u8]) -> bool {
    t == Trans::Doe && f.len() >= 8 && {
        let l = u32::from_le_bytes([f[4], f[5], f[6], f[7]]) as usize;
        let dw = if l % DOE_MAX_DW == 0 { DOE_MAX_DW } else { l % DOE_MAX_DW };
        f[3] != 0 || l >= DOE_MAX_DW || dw * 4 != f.len()
    }
}
fn parse_app(t: Trans, f: &[u8]) -> Result<(Vec<u8>, bool), &'static str> {
    match t {
        Trans::Mctp => match f.first() {
            None => Err("empty"),
            Some(5) => Ok((f[1..].to_vec(), false)),
            Some(1) => Ok((f[1..].to_vec(), true)),
            Some(_) => Err("of another message type"),
        },
        Trans::Doe => Ok((f.to_vec(), false)),
    }
}
fn size(r: &mut Rng) -> usize {
    match r.below(16) {
        0..=5 => r.range(0, 64),
        6..=9 => r.range(0, 4200),
        10 => r.range(4080, 4170),
        11 => *r.pick(&[0, 1, 2, 3, 4, 5, 7, 8, 9, 42, 255, 256, 1023, 1024, 4095, 4096]),
        12 => r.range(0xfff0, 0x10010),
        13 if r.chance(1, 30) => 4 * DOE_MAX_DW - 8 - r.below(6),
        14 if r.chance(1, 30) => 4 * DOE_MAX_DW - 8 + r.below(12),
        _ => r.range(0, 300),
    }
}
/// sizes of a buffer in which `need` bytes have to fit
fn room(r: &mut Rng, need: usize) -> usize {
    match r.below(8) {
        0 | 1 => need,
        2 => need + 1,
        3 => need.saturating_sub(1),
        4 => need.saturating_sub(r.range(1, 9)),
        5 => r.below(need.max(1)),
        6 => r.below(12),
        _ => need + r.range(0, 5000),
    }
}
fn dirty(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut v = vec![r.u8() | 1; n];
    if r.chance(1, 3) {
        r.fill(&mut v);
    }
    v
}

struct Ck<'a> {
    c: u64,
    rep: &'a mut Report,
    t: Trans,
}
impl Ck<'_> {
    fn bad(&mut self, sig: &str, msg: String) {
        let m = format!("{:?}: {} [config {} case {}]", self.t, msg, CONFIG, self.c);
        self.rep.viol(sig, self.c, m);
    }
    fn died<T>(&mut self, what: &str, r: Result<T, PanicInfo>, ctx: &dyn Fn() -> String) -> Option<T> {
        match r {
            Ok(x) => Some(x),
            Err(p) => {
                self.bad(&format!("{} panicked", what), format!("{} panicked ({}): {}", what, p.show(), ctx()));
                None
            }
        }
    }
    /// wrap and compare with the layout
    fn wrap(&mut self, r: &mut Rng, m: &[u8], class: bool, app: bool) -> Option<Vec<u8>> {
        let want = if app { Some(app_frame(self.t, m, class)) } else { frame(self.t, m, class) };
        let need = want.as_ref().map_or(m.len() + 16, |w| w.len());
        let cap = room(r, need);
        let mut buf = dirty(r, cap);
        let mut t = boxed(self.t);
        let what = if app { "encap_app" } else { "encap" };
        let ctx = || format!("{} of {} bytes, class {}, into a buffer of {}", what, m.len(), class, cap);
        let g = guarded(|| if app { t.encap_app(m, &mut buf, class) } else { t.encap(m, &mut buf, class) });
        let g = self.died(what, g, &ctx)?;
        self.rep.count(what, 1);
        match (&want, g) {
            (None, Ok(_)) => self.bad("too large for the transport, but framed", format!("a message no frame can hold was framed: {}", ctx())),
            (None, Err(_)) => self.rep.count("messages too large for the transport refused", 1),
            (Some(w), Ok(_)) if cap < w.len() => {
                self.bad("a small buffer taken", format!("{} succeeded, but the frame has {} bytes", ctx(), w.len()))
            }
            (Some(_), Err(_)) if cap < need => self.rep.count("buffers too small for a frame refused", 1),
            (Some(_), Err(e)) => self.bad("a message not framed", format!("{} failed with {:?}", ctx(), e)),
            (Some(w), Ok(n)) => {
                if n != w.len() || buf[..n.min(cap)] != w[..] {
                    let at = (0..n.min(w.len())).find(|i| buf[*i] != w[*i]);
                    self.bad(
                        "another frame",
                        format!("{}: {} bytes instead of {}, first difference at {:?}: {} for {}", ctx(), n, w.len(), at, hexs(&buf[..n.min(cap)]), hexs(m)),
                    );
                }
                self.rep.max("max frame size", n as u64);
                return Some(buf[..n.min(cap)].to_vec());
            }
        }
        None
    }
    /// unwrap and compare
    fn unwrap(&mut self, r: &mut Rng, f: &[u8], app: bool) {
        let want = if app { parse_app(self.t, f) } else { parse(self.t, f) };
        let need = want.as_ref().map_or(f.len(), |w| w.0.len());
        let cap = room(r, need);
        let mut buf = dirty(r, cap);
        let mut t = boxed(self.t);
        let what = if app { "decap_app" } else { "decap" };
        let ctx = || format!("{} of {} into a buffer of {}", what, hexs(f), cap);
        let exact: Box<[u8]> = f.to_vec().into_boxed_slice();
        let g = guarded(|| if app { t.decap_app(&exact, &mut buf) } else { t.decap(&exact, &mut buf) });
        let g = match self.died(what, g, &ctx) {
            Some(g) => g,
            None => return,
        };
        self.rep.count(what, 1);
        match (&want, g) {
            (Err(w), Ok(x)) => self.bad(&format!("a frame {} taken", w), format!("a frame {} was taken as {:?}: {}", w, x, ctx())),
            (Err(w), Err(_)) => self.rep.count(&format!("frames refused: {}", w), 1),
            (Ok(_), Ok(_)) if cap < need => self.bad("a message cut to the buffer", format!("{} succeeded, but the message has {} bytes", ctx(), need)),
            (Ok(_), Err(_)) if cap < need => self.rep.count("buffers too small for a message refused", 1),
            (Ok(_), Err(_)) if !app && odd(self.t, f) => self.rep.count("odd frames refused", 1),
            (Ok(_), Err(e)) => self.bad("a good frame refused", format!("{} failed with {:?}", ctx(), e)),
            (Ok((b, cl)), Ok((n, k))) => {
                if n != b.len() || buf[..n.min(cap)] != b[..] {
                    self.bad("another message", format!("{} gave {} bytes {} instead of {}", ctx(), n, hexs(&buf[..n.min(cap)]), hexs(b)));
                }
                if *cl != k {
                    self.bad("another class", format!("{} gave class {} instead of {}", ctx(), k, cl));
                }
                self.rep.count("messages unwrapped", 1);
            }
        }
    }
}
pub fn case(p: &Plan, _prop: &'static str, c: u64, r: &mut Rng, rep: &mut Report) {
    let t = if r.bool() { Trans::Mctp } else { Trans::Doe };
    let mut ck = Ck { c, rep, t };
    for _ in 0..40 {
        let app = r.chance(1, 3);
        let n = size(r);
        let m = match r.below(4) {
            0 => vec![r.u8(); n],
            _ => r.bytes(n),
        };
        let class = r.bool();
        ck.rep.seen(fnv(&m) ^ n as u64);
        if let Some(f) = ck.wrap(r, &m, class, app) {
            for _ in 0..2 {
                ck.unwrap(r, &f, app);
            }
        }
        // frames of others, from a good one
        let mut f = if app { app_frame(t, &m, class) } else { frame(t, &m, class).unwrap_or_default() };
        if f.len() > 5000 && r.chance(9, 10) {
            continue;
        }
        match r.below(8) {
            0 => {
                let k = r.below(f.len() + 1);
                f.truncate(k);
            }
            1 => {
                let k = r.below(f.len().min(12) + 1);
                f.truncate(k);
            }
            2 => {
                let k = r.range(1, 9);
                let e = r.bytes(k);
                f.extend(e);
            }
            3 => {
                if !f.is_empty() {
                    f[0] = if r.bool() { r.u8() } else { f[0] ^ 1 << r.below(8) };
                }
            }
            4 | 5 => {
                let h = f.len().min(8);
                for _ in 0..r.range(1, 3) {
                    if h > 0 {
                        let i = r.below(h);
                        f[i] = if r.bool() { r.u8() } else { f[i] ^ 1 << r.below(8) };
                    }
                }
            }
            6 => {
                if t == Trans::Doe && f.len() >= 8 {
                    let l = (f.len() / 4) as i64 + *r.pick(&[-3, -2, -1, 1, 2, 3, 0x40000, 0x80000]);
                    let l = if r.chance(1, 3) { *r.pick(&[0u32, 1, 2, 3, 0x3ffff, 0x40000, 0x40001, 0x40002, 0xffff_ffff]) } else { l as u32 };
                    f[4..8].copy_from_slice(&l.to_le_bytes());
                }
            }
            _ => {
                let n = r.below(24);
                f = r.bytes(n);
                if n > 2 && r.bool() {
                    f[0] = 1;
                    f[1] = 0;
                    f[2] = r.below(4) as u8;
                }
            }
        }
        ck.rep.seen(fnv(&f));
        ck.unwrap(r, &f, app);
    }
    if p.verbose {
        eprintln!("{:?}", t);
    }
    ck.rep.sample(|| format!("{:?} case {}: 40 messages wrapped, unwrapped and damaged", t, c));
    let mut b = boxed(t);
    let (a, d) = (b.get_sequence_number_count(), b.get_max_random_count());
    let w = if t == Trans::Mctp { (2u8, 32u16) } else { (0, 0) };
    if (a, d) != w {
        ck.bad("secured message parameters", format!("{} sequence number octets and up to {} random ones instead of {:?}", a, d, w));
    }
}
