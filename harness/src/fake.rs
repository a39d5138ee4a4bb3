//! Engine C: the harness plays the responder against a real requester.
//!
//! Most answers are what an honest responder sends, with every freedom the protocol leaves
//! (portion sizes, opaque data, nonces, periods, records). Some are attacks. What each
//! operation must come to is decided by the reference model, which replays the bytes that were
//! really exchanged: an operation in which the model finds anything that does not verify must
//! not succeed; an operation answered honestly must.
use crate::gen::*;
use crate::model::code::*;
use crate::model::*;
use crate::ops::*;
use crate::report::*;
use crate::sim::*;
use crate::util::*;
use crate::world::*;
use spdmlib::error::*;
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

type Tags = Vec<&'static str>;

pub fn op_tags(op: &Op) -> Tags {
    match op {
        Op::Init | Op::Version | Op::Caps | Op::Algo => vec!["C02"],
        Op::Digest(_) => vec!["C16"],
        Op::Cert(..) => vec!["C05", "C16"],
        Op::Challenge(..) => vec!["C04", "C05"],
        Op::Meas(_, _, a, _) if a & 1 == 1 => vec!["C17", "C04"],
        Op::Meas(..) => vec!["C17"],
        Op::Start(..) => vec!["C06"],
        Op::Heartbeat(_) | Op::App(..) => vec!["C09"],
        Op::KeyUpdate(..) => vec!["C10"],
        Op::End(_) => vec!["C11"],
        Op::Vendor(..) => vec!["C26"],
    }
}

/// is a formatted chain what a requester may record as its peer's identity
pub fn identity_ok(h: usize, c: &[u8], root: Option<&Vec<u8>>) -> Result<(), String> {
    let o = 4 + h;
    if c.len() <= o {
        return Err("nothing but a header".into());
    }
    if u16le(c, 0) != Some(c.len()) {
        return Err(format!("length field {} in {} bytes", u16le(c, 0).unwrap(), c.len()));
    }
    let v = split_chain(&c[o..]).ok_or("no well-formed certificates")?;
    let first = &c[o + v[0].0..o + v[0].1];
    if c[4..o] != sha(h, first)[..] {
        return Err("root hash is not that of the root certificate".into());
    }
    if !chain_ok(&c[o..]) {
        return Err("chain does not verify".into());
    }
    if let Some(r) = root {
        if &first[..] != &r[..] {
            return Err("root is not the provisioned one".into());
        }
    }
    Ok(())
}

pub struct Fake {
    t: Trans,
    q: Ep,
    sp: Ep,
    pub m: Model,
    r: Rng,
    pub f: Finds,
    // ---- the operation in progress
    op: Op,
    keep: Model,
    k: usize,
    at: usize,
    armed: bool,
    pub hit: bool,
    what: String,
    bad: Vec<(Tags, String)>,
    any: bool,
    clean_err: bool,
    status: Option<Vec<SpdmStatus>>,
    mute: bool,
    gone: Vec<u32>,
    ku: Option<(u32, Dir, Dir)>,
    shadow: HashMap<u32, Sess>,
    want_data: Option<Vec<u8>>,
    want_meas: Option<(u8, u8, Vec<u8>)>,
    tw: usize,
    /// version byte of the next signed response
    hv: Option<u8>,
    // ---- over operations
    odd: bool,
    murky: bool,
    murky_s: HashSet<u32>,
    old: Vec<Vec<u8>>,
    old_msgs: Vec<Vec<u8>>,
    sub_chain: HashMap<u8, Vec<u8>>,
    listed: Vec<u8>,
    encap: Option<Encap>,
    /// what the requester drew from its random source and key generator since its last request
    draws: Vec<(Vec<u8>, bool)>,
    publics: Vec<Vec<u8>>,
    used: HashSet<Vec<u8>>,
    seen_sig: u64,
    pub stat: HashMap<String, u64>,
}
#[derive(Clone, Debug)]
struct Encap {
    left: usize,
    want: Vec<u8>,
    exact: bool,
    rid: u8,
    slot: u8,
    off: usize,
    phase: u8,
    hostile: bool,
    endless: bool,
    loose: bool,
}

impl Fake {
    fn new(r: &mut Rng, q: &Ep, sp: &Ep, t: Trans) -> Fake {
        let mut m = Model::new(Some(q), Some(sp), false);
        m.rsp_ep = None;
        Fake {
            t,
            q: q.clone(),
            sp: sp.clone(),
            keep: m.clone(),
            m,
            r: r.fork(77),
            f: Finds::default(),
            op: Op::Init,
            k: 0,
            at: 0,
            armed: false,
            hit: false,
            what: String::new(),
            bad: vec![],
            any: false,
            clean_err: false,
            status: None,
            mute: false,
            gone: vec![],
            ku: None,
            shadow: Default::default(),
            want_data: None,
            want_meas: None,
            tw: 0,
            hv: None,
            odd: false,
            murky: false,
            murky_s: Default::default(),
            old: vec![],
            old_msgs: vec![],
            sub_chain: Default::default(),
            listed: vec![],
            encap: None,
            draws: vec![],
            publics: vec![],
            used: Default::default(),
            seen_sig: 0,
            stat: Default::default(),
        }
    }
    fn count(&mut self, k: &str) {
        *self.stat.entry(k.to_string()).or_insert(0) += 1;
    }
    /// something the requester itself did wrong
    fn own(&mut self, tags: &[&'static str], msg: String) {
        if self.hit || self.odd {
            self.bad.push((tags.to_vec(), msg));
        } else {
            self.f.add(tags, format!("{} during {}", msg, op_str(&self.op)));
        }
    }
    fn must_fail(&mut self, tags: &[&'static str], msg: &str) {
        self.bad.push((tags.to_vec(), msg.to_string()));
    }
    fn begin(&mut self, op: &Op, attack: Option<usize>) {
        self.keep = self.m.clone();
        self.op = op.clone();
        self.k = 0;
        self.armed = attack.is_some();
        self.at = attack.unwrap_or(0);
        self.hit = false;
        self.what = "honest".into();
        self.bad.clear();
        self.any = false;
        self.clean_err = false;
        self.status = None;
        self.mute = false;
        self.gone.clear();
        self.ku = None;
        self.shadow.clear();
        self.want_data = None;
        self.want_meas = None;
        self.tw = 0;
        self.encap = None;
    }

    // ------------------------------------------------------------ one frame
    pub fn answer(&mut self, f: &[u8]) -> Vec<Vec<u8>> {
        self.k += 1;
        let (kind, body) = match unframe(self.t, f) {
            Some(x) => x,
            None => {
                self.own(&["C19"], format!("the requester sent a frame no transport defines: {}", hexs(f)));
                return vec![];
            }
        };
        let t = self.t;
        let (sess, req, app) = match kind {
            Kind::Clear => (None, body, false),
            Kind::Secured => {
                let id = u32le(&body, 0).unwrap_or(0);
                match self.m.s(id).map(|s| s.open(t, REQ, &body)) {
                    None => {
                        self.own(&["C08", "C11"], format!("record for session {:08x}, which the requester does not have", id));
                        return vec![];
                    }
                    Some(Err(e)) => {
                        self.own(&["C08", "C07", "C10", "C06"], format!("requester record does not open: {}", e));
                        return vec![];
                    }
                    Some(Ok((p, a))) => (Some(id), p, a),
                }
            }
        };
        if self.mute {
            return vec![];
        }
        if app {
            return self.app(sess.unwrap(), &req);
        }
        let n = self.m.neg.clone();
        let rl = match req_len(&n, &req) {
            Some(l) if l <= req.len() => l,
            _ => {
                self.own(&["C18"], format!("the requester sent an incomplete request {}", hexs(&req)));
                return vec![];
            }
        };
        let tail = &req[rl..];
        if tail.len() > 3 || tail.iter().any(|x| *x != 0) || (!tail.is_empty() && (t == Trans::Mctp || sess.is_some())) {
            self.own(&["C18", "C19"], format!("{} bytes after the request {}", tail.len(), hexs(&req)));
        }
        let req = req[..rl].to_vec();
        if req.len() < 4 {
            return vec![];
        }
        self.check_request(sess, &req);
        self.check_fresh(&req);
        if req[1] == KEY_UPDATE && req[2] == 3 {
            // the update itself is done: both sides use the new keys
            self.keep = self.m.clone();
            self.ku = None;
        }
        if req[1] == KEY_UPDATE && req[2] != 3 {
            if let Some(s) = sess.and_then(|i| self.m.s(i)) {
                let sv = (s.id, s.app[REQ].clone(), s.app[RSP].clone());
                let n = s.neg.clone();
                s.app[REQ] = s.app[REQ].updated(&n);
                if req[2] == 2 {
                    s.app[RSP] = s.app[RSP].updated(&n);
                }
                self.ku = Some(sv);
            }
        }
        let attack = self.armed && !self.hit && self.k - 1 == self.at;
        self.tw = 0;
        if attack && self.r.chance(1, 2) {
            self.tw = 1 + self.r.below(64);
        }
        let before = self.what.clone();
        self.hv = None;
        if self.tw != 0 && self.r.chance(1, 12) && matches!(req[1], CHALLENGE | GET_MEASUREMENTS | KEY_EXCHANGE | PSK_EXCHANGE) {
            // otherwise genuine, and signed as sent
            self.tw = 0;
            let v = self.m.neg.ver;
            let mut x = v;
            while x == v {
                x = if self.r.bool() { self.r.u8() } else { *self.r.pick(&[0x10u8, 0x11, 0x12, 0x13]) };
            }
            self.hv = Some(x);
            let rsp = self.build(sess, &req);
            self.hv = None;
            self.hit = true;
            if rsp.get(1) == Some(&ERROR) {
                return vec![self.emit(sess, &req, rsp)];
            }
            self.note("signed response of another version");
            let mut tags = op_tags(&self.op);
            tags.push("C02");
            self.must_fail(&tags, "a signed response of another version");
            return vec![self.emit(sess, &req, rsp)];
        }
        let rsp = self.build(sess, &req);
        if attack {
            if self.tw != 0 && self.what != before {
                // the content is the attack
                self.hit = true;
                return vec![self.emit(sess, &req, rsp)];
            }
            self.hit = true;
            return self.post(sess, &req, rsp);
        }
        vec![self.emit(sess, &req, rsp)]
    }
    /// random fields and public keys are drawn for this request alone
    fn check_fresh(&mut self, req: &[u8]) {
        for e in with(|w| std::mem::take(&mut w.ev)) {
            match e {
                Ev::Rand { role: Role::Req, data } => self.draws.push((data, false)),
                Ev::DheGen { role: Role::Req, public, .. } => self.publics.push(public),
                _ => {}
            }
        }
        let f: Option<(&str, Vec<u8>)> = match req[1] {
            CHALLENGE if req.len() >= 36 => Some(("CHALLENGE nonce", req[4..36].to_vec())),
            GET_MEASUREMENTS if req[2] & 1 == 1 && req.len() >= 36 => Some(("GET_MEASUREMENTS nonce", req[4..36].to_vec())),
            KEY_EXCHANGE if req.len() > 40 => {
                self.count("fresh fields checked");
                match self.publics.iter().position(|x| req[40..].starts_with(x)) {
                    Some(i) => {
                        self.publics.remove(i);
                    }
                    None => self.f.add(&["C21"], "the KEY_EXCHANGE public key was not generated for this exchange".into()),
                }
                Some(("KEY_EXCHANGE random", req[8..40].to_vec()))
            }
            PSK_EXCHANGE if req.len() >= 12 => {
                let p = u16le(req, 6).unwrap_or(0);
                let l = u16le(req, 8).unwrap_or(0);
                if l < 32 {
                    self.f.add(&["C21"], format!("PSK_EXCHANGE context of {} bytes", l));
                }
                req.get(12 + p..12 + p + l).map(|x| ("PSK_EXCHANGE context", x.to_vec()))
            }
            _ => None,
        };
        if let Some((what, x)) = f {
            self.count("fresh fields checked");
            if let Err(e) = crate::mon::drawn(&mut self.draws, &mut self.used, &x) {
                self.f.add(&["C21"], format!("the requester's {} {}", what, e));
            }
        }
        self.draws.clear();
    }
    /// what every request must satisfy
    fn check_request(&mut self, sess: Option<u32>, req: &[u8]) {
        let want = match req[1] {
            GET_VERSION => 0x10,
            _ => self.m.neg.ver,
        };
        if req[1] == GET_CAPABILITIES {
            // the version chosen: the highest both have
            let best = self.listed.iter().copied().filter(|v| self.q.vers.contains(v)).max().unwrap_or(0);
            if req[0] != best {
                self.own(
                    &["C02"],
                    format!("the requester goes on with version {:02x}; offered were {} and it supports {}", req[0], hex(&self.listed), hex(&self.q.vers)),
                );
            }
        } else if req[0] != want {
            self.own(&["C02", "C13"], format!("request {:02x} with version {:02x} on a connection of version {:02x}", req[1], req[0], want));
        }
        let must_session = matches!(req[1], HEARTBEAT | KEY_UPDATE | END_SESSION | PSK_FINISH | GET_ENCAP | DELIVER_ENCAP);
        if must_session && sess.is_none() {
            self.own(&["C09", "C24"], format!("request {:02x} in the clear", req[1]));
        }
        if req[1] == FINISH && sess.is_none() != self.m.neg.hitc() {
            self.own(&["C09", "C06"], "FINISH sent on the wrong channel".into());
        }
    }
    fn app(&mut self, id: u32, data: &[u8]) -> Vec<Vec<u8>> {
        if let Op::App(_, d) = &self.op {
            if &d[..] != data {
                self.own(&["C09"], format!("application data {} arrived as {}", hexs(d), hexs(data)));
            }
        }
        let n = *self.r.pick(&[0usize, 1, 2, 16, 300, 2000, 3500]);
        let x = self.r.bytes(n);
        self.want_data = Some(x.clone());
        let t = self.t;
        let attack = self.armed && !self.hit;
        if !attack {
            let s = match self.m.s(id) {
                Some(s) => s,
                None => return vec![],
            };
            let f = sealed(t, s, RSP, &x, true);
            self.old.push(f.clone());
            return vec![f];
        }
        self.hit = true;
        self.record_attack(id, &x, true)
    }
    /// send `rsp` as it should travel, and let the model replay the exchange
    fn emit(&mut self, sess: Option<u32>, req: &[u8], rsp: Vec<u8>) -> Vec<u8> {
        let t = self.t;
        let (f, seen) = match sess {
            None => {
                let f = frame(t, Kind::Clear, &rsp);
                let p = unframe(t, &f).unwrap().1;
                (f, p)
            }
            Some(id) => match self.m.s(id) {
                Some(s) => (sealed(t, s, RSP, &rsp, false), rsp),
                None => (vec![], rsp),
            },
        };
        if let Some(s) = sess.and_then(|i| self.m.s(i)) {
            let s = s.clone();
            self.shadow.insert(s.id, s);
        }
        self.commit(sess, req, &seen);
        self.remember(&f, &seen);
        f
    }
    fn remember(&mut self, f: &[u8], msg: &[u8]) {
        if self.old.len() < 40 {
            self.old.push(f.to_vec());
            self.old_msgs.push(msg.to_vec());
        } else {
            let k = self.r.below(40);
            self.old[k] = f.to_vec();
            let k = self.r.below(self.old_msgs.len());
            self.old_msgs[k] = msg.to_vec();
        }
    }
    fn commit(&mut self, sess: Option<u32>, req: &[u8], rsp: &[u8]) {
        let tags = op_tags(&self.op);
        if rsp.len() >= 2 && rsp[1] == ALGORITHMS && u16le(rsp, 4).map_or(true, |l| l < 36) {
            if rsp.len() >= 6 {
                self.any = true;
            }
            self.bad.push((tags, "ALGORITHMS shorter than its fields".into()));
            return;
        }
        let mut fs = Finds::default();
        if self.hit && rsp.len() >= 6 && rsp[1] == VERSION {
            // what was really listed
            self.listed = rsp[6..].chunks(2).take(rsp[5] as usize).filter(|c| c.len() == 2).map(|c| c[1]).collect();
        }
        self.m.exchange(sess, req, rsp, &mut fs);
        if self.hit && rsp.get(1) == Some(&ALGORITHMS) {
            self.m.neg.known();
        }
        for f in fs.0 {
            if f.msg.contains("stray bytes") || f.msg.contains("reserved half") {
                self.any = true;
            } else if self.hit || self.odd {
                let mut t = tags.clone();
                t.extend(f.props);
                self.bad.push((t, f.msg));
            } else {
                let o = op_str(&self.op);
                self.f.add(&f.props, format!("{} during {}", f.msg, o));
            }
        }
        if rsp.len() >= 8 && rsp[1] == CERTIFICATE && req[1] == GET_CERTIFICATE && u16le(rsp, 6) == Some(0) {
            let slot = req[2] & 0xf;
            let c = self.m.fetched.get(&slot).cloned().unwrap_or_default();
            let root = self.q.root.clone();
            if let Err(e) = identity_ok(self.m.neg.h(), &c, root.as_ref()) {
                self.hit = true;
                self.must_fail(&["C05"], &format!("certificate chain: {}", e));
            }
        }
        if rsp.len() >= 8 && rsp[1] == MEASUREMENTS && req[1] == GET_MEASUREMENTS {
            if let Some(l) = rsp_lay(&self.m.neg, req, rsp) {
                let total = if req[3] == 0 { rsp[2] } else { rsp[4] };
                self.want_meas = Some((total, rsp[4], rsp[l.record.0..l.record.0 + l.record.1].to_vec()));
            }
        }
        if rsp.len() >= 8 && rsp[1] == VENDOR_RSP && req[1] == VENDOR {
            if let Some(i) = rsp.get(6).map(|x| 7 + *x as usize) {
                if let Some(l) = u16le(rsp, i) {
                    self.want_data = rsp.get(i + 2..i + 2 + l).map(|x| x.to_vec());
                }
            }
        }
    }

    // ------------------------------------------------------------ content
    fn opaque_sel(&mut self) -> Vec<u8> {
        let mut v = vec![];
        if self.m.neg.ver >= 0x12 {
            v.extend_from_slice(&[1, 0, 0, 0]);
            v.extend_from_slice(&[0, 0, 4, 0, 1, 0, 0, 0x11]);
        } else {
            v.extend_from_slice(b"FTMD");
            v[..4].copy_from_slice(&[0x46, 0x54, 0x4d, 0x44]);
            v.extend_from_slice(&[1, 1, 0, 0, 0, 0, 4, 0, 1, 0, 0, 0x11]);
        }
        v
    }
    fn note(&mut self, s: &str) {
        self.what = s.to_string();
    }
    fn error_rsp(&self, c: u8, d: u8) -> Vec<u8> {
        vec![self.m.neg.ver, ERROR, c, d]
    }
    fn build(&mut self, sess: Option<u32>, req: &[u8]) -> Vec<u8> {
        let n = self.m.neg.clone();
        let h = n.h();
        let v = n.ver;
        match req[1] {
            GET_VERSION => self.b_version(),
            GET_CAPABILITIES => self.b_caps(req),
            NEGOTIATE_ALGORITHMS => self.b_algo(req),
            GET_DIGESTS => {
                let mut d = vec![v, DIGESTS, 0, 0];
                match self.tw % 4 {
                    1 if self.tw != 0 => {
                        self.note("digests: random mask and values");
                        self.any = true;
                        let k = self.r.u8();
                        d[3] = k;
                        let x = self.r.bytes(h * k.count_ones() as usize);
                        d.extend_from_slice(&x);
                    }
                    2 if self.tw != 0 => {
                        self.note("digests: mask without digests");
                        d[3] = 0xff;
                        let x = self.r.bytes(h);
                        d.extend_from_slice(&x);
                        self.must_fail(&["C16", "C18"], "DIGESTS shorter than its mask says");
                    }
                    _ => {
                        for i in 0..8 {
                            if let Some(c) = &self.sp.chains[i] {
                                d[3] |= 1 << i;
                                d.extend_from_slice(&n.digest(&fmt_chain(h, c)));
                            }
                        }
                    }
                }
                d
            }
            GET_CERTIFICATE => self.b_cert(req),
            CHALLENGE => self.b_challenge(req),
            GET_MEASUREMENTS => self.b_meas(sess, req),
            KEY_EXCHANGE => self.b_kex(req),
            PSK_EXCHANGE => self.b_psk(req),
            FINISH | PSK_FINISH => {
                let mut d = vec![v, answer_of(req[1]), 0, 0];
                if req[1] == FINISH && n.hitc() {
                    let id = sess.or(self.m.last);
                    let rch = self.m.req_data[self.m.req_slot].as_ref().map(|d| fmt_chain(h, d));
                    let mut mac = vec![0; h];
                    if let Some(s) = id.and_then(|i| self.m.s(i)) {
                        let mut s = s.clone();
                        if s.mut_req != 0 {
                            s.th.extend_from_slice(&s.neg.digest(&rch.unwrap_or_default()));
                        }
                        s.th.extend_from_slice(req);
                        s.th.extend_from_slice(&d);
                        mac = s.mac(RSP);
                        if self.tw != 0 {
                            self.note("finish: verify data of another transcript");
                            match self.tw % 4 {
                                0 => mac = s.mac(REQ),
                                1 => {
                                    let c = s.th.len() - 1;
                                    s.th.truncate(c);
                                    mac = s.mac(RSP)
                                }
                                2 => mac = s.neg.digest(&s.th),
                                _ => mac = vec![0; h],
                            }
                        }
                    }
                    d.extend_from_slice(&mac);
                }
                d
            }
            HEARTBEAT => vec![v, HEARTBEAT_ACK, 0, 0],
            END_SESSION => vec![v, END_SESSION_ACK, 0, 0],
            KEY_UPDATE => {
                let mut d = vec![v, KEY_UPDATE_ACK, req[2], req[3]];
                if self.tw != 0 {
                    self.note("key update: acknowledges something else");
                    match self.tw % 3 {
                        0 => d[3] = d[3].wrapping_add(1 + self.r.below(255) as u8),
                        1 => d[2] = [1u8, 2, 3, 1][req[2] as usize & 3].wrapping_add(1) % 4,
                        _ => d[2] = req[2].wrapping_add(1 + self.r.below(255) as u8),
                    }
                }
                d
            }
            VENDOR => {
                let i = 7 + req[6] as usize;
                let mut d = vec![v, VENDOR_RSP, 0, 0];
                d.extend_from_slice(&req[4..i]);
                let mut len = match self.r.below(8) {
                    0 => 0,
                    1 => 3000,
                    _ => self.r.below(600),
                };
                let mut claim = None;
                match if self.tw == 0 { 0 } else { 1 + self.tw % 4 } {
                    1 => {
                        self.note("vendor: payload shorter than its length");
                        claim = Some(len + 1 + self.r.below(40000));
                        self.must_fail(&["C26", "C18"], "VENDOR_DEFINED_RESPONSE shorter than its length field");
                    }
                    2 => {
                        self.note("vendor: other vendor id");
                        self.any = true;
                        let k = self.r.below(8);
                        d.truncate(4);
                        let b = self.r.bytes(2);
                        d.extend_from_slice(&b);
                        d.push(k as u8);
                        let b = self.r.bytes(k);
                        d.extend_from_slice(&b);
                    }
                    3 => {
                        self.note("vendor: largest payload");
                        self.any = true;
                        len = *self.r.pick(&[4087usize, 4085, 4000, 4070]);
                        len = len.min(4080 - d.len());
                    }
                    4 => {
                        self.note("vendor: header only");
                        self.must_fail(&["C26", "C18"], "VENDOR_DEFINED_RESPONSE without its fields");
                        d.truncate(4);
                        return d;
                    }
                    _ => {}
                }
                p16(&mut d, claim.unwrap_or(len));
                let p = self.r.bytes(len);
                d.extend_from_slice(&p);
                d
            }
            GET_ENCAP | DELIVER_ENCAP => self.b_encap(sess, req),
            _ => {
                self.own(&["C12", "C13"], format!("unexpected request {}", hexs(req)));
                self.error_rsp(7, req[1])
            }
        }
    }
    fn b_version(&mut self) -> Vec<u8> {
        let mut vs: Vec<u8> = vec![];
        for v in &self.sp.vers {
            if !vs.contains(v) {
                vs.push(*v);
            }
        }
        let mut r = self.r.fork(1);
        r.shuffle(&mut vs);
        let mut hv = 0x10;
        let mut count = None;
        match if self.tw == 0 { 0 } else { 1 + self.tw % 6 } {
            1 => {
                self.note("version: none in common");
                vs = (0..1 + r.below(3)).map(|_| *r.pick(&[0x13u8, 0x20, 0x00, 0x09, 0x14, 0xff])).collect();
                self.must_fail(&["C02"], "VERSION without a version the requester supports");
            }
            2 => {
                self.note("version: empty list");
                vs.clear();
                self.must_fail(&["C02"], "VERSION with an empty list");
            }
            3 => {
                self.note("version: long list");
                self.any = true;
                for _ in 0..r.range(1, 250) {
                    let v = *r.pick(&[0x10u8, 0x11, 0x12, 0x13, 0x20, 0x00]);
                    vs.push(v);
                }
            }
            4 => {
                self.note("version: header of another version");
                hv = *r.pick(&[0x11u8, 0x12, 0x13, 0, 0xff, 0x20]);
            }
            5 => {
                self.note("version: more entries claimed than sent");
                count = Some((vs.len() + 3 + r.below(200)) as u8);
                self.must_fail(&["C02", "C18"], "VERSION shorter than its entry count says");
            }
            6 => {
                self.note("version: unknown versions among known ones");
                vs.truncate(2);
                let k = r.below(vs.len() + 1);
                let v = *r.pick(&[0x13u8, 0x20, 0x09, 0x01, 0xf0]);
                vs.insert(k, v);
            }
            _ => {}
        }
        self.listed = vs.clone();
        if count.is_none() && !vs.iter().any(|v| self.q.vers.contains(v)) {
            self.hit = true;
            self.must_fail(&["C02"], "VERSION without a common version");
        }
        let mut d = vec![hv, VERSION, 0, 0, 0, count.unwrap_or(vs.len() as u8)];
        for v in &vs {
            let low = if r.chance(1, 4) { r.u8() } else { 0 };
            d.push(low);
            d.push(*v);
        }
        d
    }
    fn b_caps(&mut self, req: &[u8]) -> Vec<u8> {
        let v = req[0];
        self.m.neg.ver = v;
        let mask = match v {
            0x10 => 0x3f,
            0x11 => 0x1ffff,
            _ => 0x3fffff,
        };
        let mut caps = self.sp.caps & mask;
        let (mut dts, mut max) = (self.sp.dts, self.sp.max);
        let mut ct = self.sp.ct;
        match if self.tw == 0 { 0 } else { 1 + self.tw % 4 } {
            1 => {
                self.note("capabilities: random flags");
                self.any = true;
                caps = self.r.u32();
                if self.r.bool() {
                    caps &= mask;
                }
            }
            2 => {
                self.note("capabilities: some flags changed");
                self.any = true;
                for _ in 0..self.r.range(1, 3) {
                    caps ^= 1 << self.r.below(22);
                }
            }
            3 if v >= 0x12 => {
                self.note("capabilities: odd sizes");
                self.any = true;
                dts = *self.r.pick(&[0u32, 1, 41, 42, 43, 100, 4096, 0xffff_ffff, 0x10000]);
                max = *self.r.pick(&[0u32, 1, 41, 42, 43, 100, 4096, 0xffff_ffff, 0x10000]);
                if dts < 42 || max < dts {
                    self.must_fail(&["C02"], "CAPABILITIES with illegal sizes");
                }
            }
            4 => {
                self.note("capabilities: exponent");
                ct = self.r.u8();
            }
            _ => {}
        }
        let mut d = vec![v, CAPABILITIES, 0, 0, 0, ct, 0, 0];
        p32(&mut d, caps);
        if v >= 0x12 {
            p32(&mut d, dts);
            p32(&mut d, max);
        }
        d
    }
    fn b_algo(&mut self, req: &[u8]) -> Vec<u8> {
        self.m.rsp_ep = Some(self.sp.clone());
        let sel = self.m.select(req);
        self.m.rsp_ep = None;
        let mut n = match sel {
            Some(n) => n,
            None => return self.error_rsp(1, 0),
        };
        // what is on offer
        let o_asym = u32le(req, 8).unwrap();
        let o_hash = u32le(req, 12).unwrap();
        let (o_mspec, o_opaque) = (req[6], req[7]);
        let mut structs: Vec<(u8, u16)> = vec![];
        let mut offers = HashMap::new();
        for i in 0..req[2] as usize {
            let o = 32 + 4 * i;
            offers.insert(req[o], u16le(req, o + 2).unwrap() as u16);
        }
        if n.mspec == 0 {
            n.mhash = 0;
        }
        let mut r = self.r.fork(2);
        // bits the library does not know are masked off by it: a selection made of
        // one known, offered bit and unknown ones is not refused
        let two = |r: &mut Rng, offer: u32, width: usize, known: u32| -> u32 {
            // a selection a responder may not make
            loop {
                let x = match r.below(4) {
                    0 => 1 << r.below(width),
                    1 => (1 << r.below(width)) | (1 << r.below(width)),
                    2 => offer,
                    _ => r.u32() & ((1u64 << width) - 1) as u32,
                };
                if x & known != 0 && (x & known & !offer != 0 || (x & known).count_ones() > 1) {
                    return x;
                }
                if known.count_ones() == 1 && offer & known == known {
                    return 0;
                }
            }
        };
        let mut ext = [0u8; 2];
        let mut len_adj = 0i32;
        let tw = if self.tw == 0 { 0 } else { 1 + self.tw % 16 };
        let ill = "ALGORITHMS selects what was not offered, or more than one";
        match tw {
            1 => {
                self.note("algorithms: asym not offered or several");
                n.asym = two(&mut r, o_asym, 9, 0xff);
                if n.asym == 0 {
                    self.any = true;
                } else {
                    self.must_fail(&["C02"], ill);
                }
            }
            2 => {
                self.note("algorithms: hash not offered or several");
                n.hash = two(&mut r, o_hash, 6, 7);
                if n.hash == 0 {
                    self.any = true;
                } else {
                    self.must_fail(&["C02"], ill);
                }
            }
            3 => {
                self.note("algorithms: no asym or no hash");
                if r.bool() {
                    n.asym = 0
                } else {
                    n.hash = 0
                }
                self.any = true;
            }
            4 if n.ver >= 0x11 => {
                self.note("algorithms: dhe not offered or several");
                n.dhe = two(&mut r, *offers.get(&2).unwrap_or(&0) as u32, 6, 0x18) as u16;
                if n.dhe == 0 {
                    self.any = true;
                } else {
                    self.must_fail(&["C02"], ill);
                }
            }
            5 if n.ver >= 0x11 => {
                self.note("algorithms: aead not offered or several");
                n.aead = two(&mut r, *offers.get(&3).unwrap_or(&0) as u32, 3, 7) as u16;
                if n.aead == 0 {
                    self.any = true;
                } else {
                    self.must_fail(&["C02"], ill);
                }
            }
            6 if n.ver >= 0x11 => {
                self.note("algorithms: requester asym not offered or several");
                n.req_asym = two(&mut r, *offers.get(&4).unwrap_or(&0) as u32, 9, 0xff) as u16;
                if n.req_asym == 0 {
                    self.any = true;
                } else {
                    self.must_fail(&["C02"], ill);
                }
            }
            7 => {
                self.note("algorithms: measurement specification not offered");
                n.mspec = two(&mut r, o_mspec as u32, 8, 1) as u8;
                if n.mspec == 0 {
                    self.any = true;
                } else {
                    self.must_fail(&["C02"], ill);
                }
            }
            8 if n.ver >= 0x12 => {
                self.note("algorithms: opaque format not offered");
                n.opaque = two(&mut r, o_opaque as u32, 4, 3) as u8;
                if n.opaque == 0 {
                    self.any = true;
                } else {
                    self.must_fail(&["C02"], ill);
                }
            }
            9 => {
                self.note("algorithms: several measurement hashes");
                loop {
                    n.mhash = r.u32() & 0xff;
                    if (n.mhash & 0xff).count_ones() > 1 {
                        break;
                    }
                }
                self.must_fail(&["C02"], "ALGORITHMS selects several measurement hashes");
            }
            10 => {
                self.note("algorithms: wrong length field");
                len_adj = *r.pick(&[-4i32, -1, 1, 4, 100, -32, 60000]);
                self.any = true;
            }
            11 => {
                self.note("algorithms: external algorithms");
                ext = [r.u8(), r.u8()];
                self.any = true;
            }
            12 if n.ver >= 0x11 => {
                self.note("algorithms: missing selections");
                self.any = true;
                match r.below(3) {
                    0 => n.dhe = 0,
                    1 => n.aead = 0,
                    _ => {
                        n.dhe = 0;
                        n.aead = 0;
                    }
                }
            }
            13 => {
                self.note("algorithms: no measurement algorithms");
                self.any = true;
                n.mhash = 0;
                if r.bool() {
                    n.mspec = 0;
                }
            }
            _ => {}
        }
        if n.ver >= 0x11 {
            structs = vec![(2, n.dhe), (3, n.aead), (4, n.req_asym), (5, n.ks)];
            match tw {
                14 => {
                    self.note("algorithms: structures missing");
                    self.any = true;
                    structs.truncate(r.below(4));
                }
                15 => {
                    self.note("algorithms: unknown structure");
                    self.any = true;
                    let k = r.below(4);
                    structs[k].0 = *r.pick(&[0u8, 1, 6, 7, 0xff]);
                }
                16 => {
                    self.note("algorithms: repeated or too many structures");
                    self.any = true;
                    if r.bool() {
                        let k = r.below(4);
                        let j = r.below(4);
                        structs[k] = structs[j];
                    } else {
                        for _ in 0..r.range(1, 60) {
                            let k = structs[r.below(4)];
                            structs.push(k);
                        }
                    }
                }
                _ => {}
            }
        }
        let mut d = vec![n.ver, ALGORITHMS, structs.len() as u8, 0];
        p16(&mut d, ((36 + 4 * structs.len()) as i32 + len_adj) as usize);
        d.push(n.mspec);
        d.push(if n.ver >= 0x12 { n.opaque } else { 0 });
        p32(&mut d, n.mhash);
        p32(&mut d, n.asym);
        p32(&mut d, n.hash);
        d.resize(32, 0);
        d.extend_from_slice(&ext);
        d.resize(36, 0);
        for (t, v) in structs {
            d.push(t);
            d.push(0x20);
            p16(&mut d, v as usize);
        }
        d
    }
    fn b_cert(&mut self, req: &[u8]) -> Vec<u8> {
        let n = self.m.neg.clone();
        let h = n.h();
        let slot = req[2] & 0xf;
        let off = u16le(req, 4).unwrap();
        let len = u16le(req, 6).unwrap();
        let mut r = self.r.fork(3);
        if off == 0 {
            self.sub_chain.remove(&slot);
            if self.tw != 0 && r.chance(2, 3) {
                if let Some(c) = self.odd_chain(slot, &mut r) {
                    self.sub_chain.insert(slot, c);
                    self.tw = 64 * 100; // no further change here
                }
            }
        }
        let honest = self.sp.chains.get(slot as usize).and_then(|c| c.as_ref()).map(|c| fmt_chain(h, c));
        let ch = match self.sub_chain.get(&slot).cloned().or(honest) {
            Some(c) => c,
            None => return self.error_rsp(1, 0),
        };
        if off > ch.len() || len == 0 {
            self.own(&["C16"], format!("GET_CERTIFICATE offset {} length {} of a {} byte chain", off, len, ch.len()));
            return self.error_rsp(1, 0);
        }
        let full = len.min(ch.len() - off);
        let roomy = HASHED || ch.len() < 1500;
        let mut por = if roomy && full > 1 && r.chance(1, 3) { r.range(1 + full / 40, full) } else { full };
        let mut rem = ch.len() - off - por;
        let mut sl = slot;
        let mut claim = None;
        let mut data = ch[off..off + por].to_vec();
        let tw = if self.tw == 0 || self.tw > 64 { 0 } else { 1 + self.tw % 7 };
        match tw {
            1 => {
                self.note("certificate: more than was asked for");
                por = len + 1 + r.below(600);
                data.resize(por, 0x5a);
                self.must_fail(&["C16"], "CERTIFICATE portion larger than requested");
            }
            2 => {
                self.note("certificate: empty portion, data remaining");
                por = 0;
                data.clear();
                rem = (ch.len() - off).max(1);
                self.must_fail(&["C15", "C16"], "CERTIFICATE that makes no progress");
            }
            3 => {
                self.note("certificate: another slot");
                sl = (slot + 1 + r.below(7) as u8) & 7;
                self.must_fail(&["C16", "C05"], "CERTIFICATE of another slot");
            }
            4 => {
                self.note("certificate: inconsistent remainder");
                let was = rem;
                while rem == was {
                    rem = match r.below(4) {
                        0 => 0,
                        1 => rem + 1,
                        2 => 0xffff,
                        _ => r.u16() as usize,
                    };
                }
                self.any = true;
            }
            5 => {
                self.note("certificate: portion longer than the message");
                claim = Some(por + 4 + r.below(2000));
                self.must_fail(&["C16", "C18"], "CERTIFICATE shorter than its portion length");
            }
            6 => {
                self.note("certificate: damaged portion");
                let k = r.below(data.len().max(1));
                if let Some(x) = data.get_mut(k) {
                    *x ^= 1 << r.below(8);
                }
            }
            7 => {
                self.note("certificate: all of it at once");
                por = ch.len() - off;
                rem = 0;
                data = ch[off..].to_vec();
                if por > len {
                    self.must_fail(&["C16"], "CERTIFICATE portion larger than requested");
                }
            }
            _ => {}
        }
        let mut d = vec![n.ver, CERTIFICATE, sl, 0];
        p16(&mut d, claim.unwrap_or(por));
        p16(&mut d, rem);
        d.extend_from_slice(&data);
        d.truncate(4100);
        d
    }
    /// a chain other than the provisioned one, to be served from now on
    fn odd_chain(&mut self, slot: u8, r: &mut Rng) -> Option<Vec<u8>> {
        let h = self.m.neg.h();
        let base = self.sp.chains.get(slot as usize)?.clone()?;
        let mut c = fmt_chain(h, &base);
        let o = 4 + h;
        let max = if HASHED { 3000 } else { 1800 };
        match r.below(11) {
            0 => {
                self.note("chain: wrong root hash");
                let k = 4 + r.below(h);
                c[k] ^= 1 << r.below(8);
            }
            1 => {
                self.note("chain: another root, another leaf");
                let root = r.bytes(8);
                let leaf = r.bytes(8);
                let spec = ChainSpec { root, inter: r.below(3), leaf, size: r.below(max), salt: r.next() };
                c = fmt_chain(h, &make_chain(&spec));
            }
            2 => {
                self.note("chain: a certificate damaged");
                let k = o + r.below(c.len() - o);
                c[k] ^= 1 << r.below(8);
            }
            3 => {
                self.note("chain: wrong length field");
                let l = u16le(&c, 0).unwrap();
                let x = match r.below(4) {
                    0 => l + 1,
                    1 => l - 1,
                    2 => 0,
                    _ => r.u16() as usize,
                };
                c[..2].copy_from_slice(&(x as u16).to_le_bytes());
            }
            4 => {
                self.note("chain: cut short");
                let k = r.range(1, c.len() - 1);
                c.truncate(k);
                if r.bool() && k >= 2 {
                    c[..2].copy_from_slice(&(k as u16).to_le_bytes());
                }
            }
            5 => {
                self.note("chain: leaf missing");
                let v = split_chain(&base)?;
                let k = v[v.len() - 1].0;
                c = fmt_chain(h, &base[..k]);
            }
            6 => {
                self.note("chain: genuine root, foreign rest");
                let v = split_chain(&base)?;
                let spec = ChainSpec { root: r.bytes(8), inter: r.below(2), leaf: r.bytes(8), size: r.below(max), salt: r.next() };
                let x = make_chain(&spec);
                let w = split_chain(&x)?;
                let mut b = base[..v[0].1].to_vec();
                b.extend_from_slice(&x[if r.bool() { w[0].1 } else { 0 }..]);
                c = fmt_chain(h, &b);
            }
            7 => {
                self.note("chain: foreign chain under the genuine root hash");
                let spec = ChainSpec { root: r.bytes(8), inter: r.below(2), leaf: r.bytes(8), size: r.below(max), salt: r.next() };
                let x = fmt_chain(h, &make_chain(&spec));
                let keep = c[4..o].to_vec();
                c = x;
                c[4..o].copy_from_slice(&keep);
            }
            8 => {
                self.note("chain: header only");
                c.truncate(r.below(o + 1).max(1));
                if r.bool() && c.len() >= 2 {
                    let k = c.len() as u16;
                    c[..2].copy_from_slice(&k.to_le_bytes());
                }
            }
            9 if HASHED => {
                self.note("chain: longer than can be kept");
                self.any = true;
                let size = 4097 + r.below(64 - h + 24);
                let spec = ChainSpec { root: r.bytes(8), inter: r.below(2), leaf: r.bytes(8), size, salt: r.next() };
                c = fmt_chain(h, &make_chain(&spec));
            }
            _ => {
                self.note("chain: certificates after the leaf");
                let spec = ChainSpec { root: r.bytes(8), inter: 0, leaf: r.bytes(8), size: 0, salt: r.next() };
                let mut b = base.clone();
                b.extend_from_slice(&make_chain(&spec));
                if b.len() > 3500 {
                    return None;
                }
                c = fmt_chain(h, &b);
            }
        }
        Some(c)
    }
    fn opaque_any(&mut self) -> Vec<u8> {
        let max = if HASHED { 1024 } else { 64 };
        let k = *self.r.pick(&[0usize, 0, 1, 16, 64, max, 33]);
        self.r.bytes(k)
    }
    /// the signature for `transcript`, or a wrong one when that is the attack
    fn signature(&mut self, slot: usize, label: &'static [u8], transcript: &[u8]) -> Vec<u8> {
        let n = self.m.neg.clone();
        let pk = self.m.pk(slot);
        if crate::mon::trace() {
            eprintln!("  fake signs {}", hex(transcript));
        }
        let tw = if self.tw == 0 { 0 } else { 1 + self.tw % 12 };
        match tw {
            1 => {
                self.note("signature: other key");
                let x = self.r.bytes(8);
                sign_as(&n, &seed_pk(&x), n.asym, label, transcript)
            }
            2 => {
                self.note("signature: other transcript");
                let mut t = transcript.to_vec();
                let k = self.r.below(t.len());
                t[k] ^= 1 << self.r.below(8);
                sign_as(&n, &pk, n.asym, label, &t)
            }
            3 => {
                self.note("signature: transcript without its last or first part");
                let k = self.r.range(1, transcript.len() - 1);
                let t = if self.r.bool() { &transcript[..k] } else { &transcript[k..] };
                sign_as(&n, &pk, n.asym, label, t)
            }
            4 if n.ver >= 0x12 => {
                self.note("signature: made for another purpose");
                let l = *self.r.pick(&[CTX_CHAL, CTX_MEAS, CTX_KEX, CTX_FIN]);
                let l = if l == label { if label == CTX_FIN { CTX_CHAL } else { CTX_FIN } } else { l };
                sign_as(&n, &pk, n.asym, l, transcript)
            }
            5 => {
                self.note("signature: zeros");
                vec![0; n.sig()]
            }
            6 => {
                self.note("signature: another version's rule");
                let mut o = n.clone();
                o.ver = if n.ver >= 0x12 { 0x11 } else { 0x12 };
                sign_as(&o, &pk, n.asym, label, transcript)
            }
            _ => sign_as(&n, &pk, n.asym, label, transcript),
        }
    }
    fn summary_bytes(&mut self, ty: u8) -> Vec<u8> {
        if ty == 0 {
            return vec![];
        }
        let h = self.m.neg.h();
        self.r.bytes(h)
    }
    fn b_challenge(&mut self, req: &[u8]) -> Vec<u8> {
        let n = self.m.neg.clone();
        let slot = req[2] as usize;
        let mut mask = 0u8;
        for i in 0..8 {
            if self.sp.chains[i].is_some() {
                mask |= 1 << i;
            }
        }
        let ch = match self.m.rsp_chain[slot & 7].clone() {
            Some(c) => c,
            None => return self.error_rsp(1, 0),
        };
        let mut d = vec![self.hv.unwrap_or(n.ver), CHALLENGE_AUTH, req[2] & 0xf, mask];
        let mut hash = n.digest(&ch);
        if self.tw != 0 && self.tw % 12 >= 9 {
            match self.tw % 12 {
                9 => {
                    self.note("challenge: hash of another chain");
                    self.any = true;
                    hash = self.r.bytes(hash.len());
                }
                10 => {
                    self.note("challenge: another slot");
                    self.any = true;
                    d[2] = self.r.u8();
                    d[3] = self.r.u8();
                }
                _ => {}
            }
        }
        d.extend_from_slice(&hash);
        let nonce = self.r.bytes(32);
        d.extend_from_slice(&nonce);
        let s = self.summary_bytes(req[3]);
        d.extend_from_slice(&s);
        let o = if self.tw != 0 && self.tw % 12 == 11 && HASHED {
            self.note("challenge: too much opaque data");
            self.any = true;
            let k = self.r.range(1025, 3500);
            self.r.bytes(k)
        } else {
            self.opaque_any()
        };
        p16(&mut d, o.len());
        d.extend_from_slice(&o);
        let mut t = self.m.m1m2();
        t.extend_from_slice(req);
        t.extend_from_slice(&d);
        let sig = self.signature(slot, CTX_CHAL, &t);
        d.extend_from_slice(&sig);
        d
    }
    fn b_meas(&mut self, sess: Option<u32>, req: &[u8]) -> Vec<u8> {
        let n = self.m.neg.clone();
        let signed = req[2] & 1 == 1;
        let slot = if req.len() == 37 { req[36] & 0xf } else { 0 };
        let op = req[3];
        let mut r = self.r.fork(4);
        let mut total = r.u8();
        let mut blocks = 0u8;
        let mut rec = vec![];
        let limit = if HASHED { 3000 } else { 1500 };
        match op {
            0 => {}
            0xff => {
                for mut b in gen_meas(&mut r, n.mhash.max(1), true) {
                    b.index = blocks + 1 + (r.chance(1, 4) as u8) * r.below(8) as u8;
                    if blocks > 0 && rec.len() + b.value.len() + 7 > limit {
                        break;
                    }
                    let prev = if rec.is_empty() { 0 } else { total };
                    if b.index <= prev {
                        b.index = prev + 1;
                    }
                    total = b.index;
                    rec.extend_from_slice(&b.encode());
                    blocks += 1;
                }
                total = 0;
            }
            i => {
                let mut b = match gen_meas(&mut r, n.mhash.max(1), false).into_iter().next() {
                    Some(b) => b,
                    None => MeasBlock { index: i, spec: 1, kind: 0x81, value: r.bytes(16) },
                };
                b.index = i;
                rec = b.encode();
                blocks = 1;
                total = 0;
            }
        }
        let mut claim = None;
        let tw = if self.tw == 0 || self.tw % 2 == 0 { 0 } else { 1 + (self.tw / 2) % 9 };
        match tw {
            1 => {
                self.note("measurements: more blocks claimed");
                self.any = true;
                blocks = blocks.wrapping_add(1 + r.below(250) as u8);
            }
            2 => {
                self.note("measurements: fewer blocks claimed");
                self.any = true;
                blocks = blocks.saturating_sub(1 + r.below(3) as u8);
            }
            3 => {
                self.note("measurements: record longer than the message");
                claim = Some(rec.len() + 2000 + r.below(0xfff000));
                self.must_fail(&["C17", "C18"], "MEASUREMENTS shorter than its record length");
            }
            4 => {
                self.note("measurements: a block with a false size");
                self.any = true;
                if rec.len() >= 7 {
                    let k = if r.bool() { 2 } else { 5 };
                    let x = r.u16();
                    rec[k..k + 2].copy_from_slice(&x.to_le_bytes());
                }
            }
            5 => {
                self.note("measurements: random record");
                self.any = true;
                let k = r.below(limit);
                rec = r.bytes(k);
                blocks = r.u8();
            }
            6 => {
                self.note("measurements: another index");
                self.any = true;
                if !rec.is_empty() {
                    rec[0] = rec[0].wrapping_add(1 + r.below(200) as u8);
                }
            }
            7 => {
                self.note("measurements: oversized block");
                self.any = true;
                let l = r.range(1025, 2600);
                let b = MeasBlock { index: 1, spec: 1, kind: 0x81, value: r.bytes(l) };
                rec = b.encode();
                blocks = 1;
            }
            8 => {
                self.note("measurements: stray bytes in the record");
                self.any = true;
                let k = r.range(1, 9);
                let x = r.bytes(k);
                rec.extend_from_slice(&x);
            }
            _ => {}
        }
        let p2 = match n.ver {
            0x10 => 0,
            0x11 => slot,
            _ => slot | (r.below(4) as u8) << 4,
        };
        let mut d = vec![self.hv.unwrap_or(n.ver), MEASUREMENTS, total, p2, blocks];
        let l = claim.unwrap_or(rec.len());
        d.extend_from_slice(&[l as u8, (l >> 8) as u8, (l >> 16) as u8]);
        d.extend_from_slice(&rec);
        let x = r.bytes(32);
        d.extend_from_slice(&x);
        let room = 4060usize.saturating_sub(d.len() + 600);
        let mut o = self.opaque_any();
        o.truncate(room.min(1024));
        if tw == 0 && self.tw % 12 == 10 && HASHED && room > 1030 {
            self.note("measurements: too much opaque data");
            self.any = true;
            let k = r.range(1025, room);
            o = r.bytes(k);
        }
        p16(&mut d, o.len());
        d.extend_from_slice(&o);
        if signed {
            let mut t = self.m.l1l2(sess);
            t.extend_from_slice(req);
            t.extend_from_slice(&d);
            let was = self.tw;
            if tw != 0 {
                self.tw = 0;
            }
            let sig = self.signature(slot as usize, CTX_MEAS, &t);
            self.tw = was;
            if was != 0 && was % 12 == 7 && tw == 0 {
                self.note("measurements: signature left out");
                self.must_fail(&["C17"], "signed measurements without a signature");
                return d;
            }
            d.extend_from_slice(&sig);
        }
        d
    }
    fn hb(&mut self) -> u8 {
        self.r.u8()
    }
    fn b_kex(&mut self, req: &[u8]) -> Vec<u8> {
        let n = self.m.neg.clone();
        let h = n.h();
        let mut r = self.r.fork(5);
        let mut sid = r.range(1, 0xffff);
        let mut mutual = 0u8;
        let mut rslot = 0u8;
        if MUTAUTH && n.cap(C_MUT) && n.cap(C_ENCAP) && !n.hitc() && n.req_asym != 0 && r.chance(2, 3) {
            mutual = *r.pick(&[1u8, 2, 4]);
            let mine: Vec<u8> = (0..8).filter(|i| self.q.chains[*i as usize].is_some()).collect();
            rslot = *r.pick(&mine);
        }
        let x = r.next() >> 4;
        let mut public = dhe_public(n.dhe, x);
        let mut opaque = self.opaque_sel();
        let tw = if self.tw == 0 { 0 } else { 1 + (self.tw / 3) % 8 };
        let mine_tw = self.tw != 0 && self.tw % 3 == 0;
        let sig_tw = self.tw != 0 && self.tw % 3 == 1;
        let mac_tw = self.tw != 0 && self.tw % 3 == 2 && !n.hitc();
        if mine_tw {
            match tw {
                1 => {
                    self.note("key exchange: reserved session id");
                    sid = 0;
                }
                2 => {
                    self.note("key exchange: public key that is none");
                    public = if r.bool() { vec![0; public.len()] } else { r.bytes(public.len()) };
                    self.must_fail(&["C06", "C07"], "KEY_EXCHANGE_RSP with an invalid public key");
                }
                3 => {
                    self.note("key exchange: mutual authentication out of the blue");
                    mutual = *r.pick(&[1u8, 2, 4, 3, 5, 6, 7, 0x80, 0xff, 8]);
                    rslot = r.u8();
                    self.any = true;
                    if MUTAUTH && !n.cap(C_MUT) && mutual & 7 != 0 {
                        self.must_fail(&["C22"], "mutual authentication requested without the capability");
                    }
                }
                4 => {
                    self.note("key exchange: strange opaque data");
                    self.any = true;
                    let k = *r.pick(&[0usize, 1, 4, 12, 16, 40, 1024, 1025, 1500, 2048, 2500, 3072, 3500]);
                    opaque = if r.bool() { r.bytes(k) } else { vec![0; k] };
                }
                5 => {
                    self.note("key exchange: another secured message version");
                    self.any = true;
                    let k = opaque.len();
                    opaque[k - 1] = r.u8();
                    if r.bool() {
                        opaque[k - 2] = r.u8();
                    }
                }
                6 => {
                    self.note("key exchange: opaque data damaged");
                    self.any = true;
                    let k = r.below(opaque.len());
                    opaque[k] ^= 1 << r.below(8);
                }
                7 => {
                    self.note("key exchange: opaque data longer than the message");
                }
                _ => {
                    self.note("key exchange: public key of the requester sent back");
                    let k = dhe_size(n.dhe);
                    public = req[40..40 + k].to_vec();
                    self.any = true;
                }
            }
        }
        self.m.xs.insert(public.clone(), x);
        let mut d = vec![self.hv.unwrap_or(n.ver), KEY_EXCHANGE_RSP, self.hb(), 0];
        p16(&mut d, sid);
        d.push(mutual);
        d.push(rslot);
        let rnd = r.bytes(32);
        d.extend_from_slice(&rnd);
        d.extend_from_slice(&public);
        let s = self.summary_bytes(req[2]);
        d.extend_from_slice(&s);
        if mine_tw && tw == 7 {
            p16(&mut d, 2000 + r.below(60000));
            self.must_fail(&["C06", "C18"], "KEY_EXCHANGE_RSP shorter than its opaque length");
        } else {
            p16(&mut d, opaque.len());
        }
        d.extend_from_slice(&opaque);
        let mut s = self.m.begin_session(req, &d);
        let was = self.tw;
        if !sig_tw {
            self.tw = 0;
        }
        let th = s.th.clone();
        let sig = self.signature(s.slot as usize, CTX_KEX, &th);
        self.tw = was;
        d.extend_from_slice(&sig);
        s.th.extend_from_slice(&sig);
        if let Some(k) = self.m.dhe_secret(req, &d) {
            s.hs_secret = hkdf_extract(h, &vec![0u8; h], &k);
        }
        self.m.session_keys(&mut s);
        if !n.hitc() {
            let mac = self.mac_or_not(&s, mac_tw);
            d.extend_from_slice(&mac);
        }
        if mutual != 0 {
            self.encap = Some(Encap {
                left: 400,
                want: vec![],
                exact: true,
                rid: 0,
                slot: rslot,
                off: 0,
                phase: 0,
                hostile: false,
                endless: false,
                loose: false,
            });
            self.m.req_slot = rslot as usize & 7;
        } else {
            self.m.req_slot = 0;
        }
        d
    }
    fn mac_or_not(&mut self, s: &Sess, wrong: bool) -> Vec<u8> {
        let h = s.neg.h();
        if !wrong {
            return s.mac(RSP);
        }
        self.note("exchange: verify data of another key or transcript");
        match self.r.below(5) {
            0 => s.mac(REQ),
            1 => vec![0; h],
            2 => {
                let mut s = s.clone();
                let k = s.th.len() - 1;
                s.th.truncate(k);
                s.mac(RSP)
            }
            3 => hmac(h, &vec![0; h], &s.neg.digest(&s.th)),
            _ => {
                let mut m = s.mac(RSP);
                let k = self.r.below(h);
                m[k] ^= 1 << self.r.below(8);
                m
            }
        }
    }
    fn b_psk(&mut self, req: &[u8]) -> Vec<u8> {
        let n = self.m.neg.clone();
        let mut r = self.r.fork(6);
        let mut sid = r.range(1, 0xffff);
        let mut ctx = if n.rsp_caps & C_PSK_CTX != 0 {
            let k = *r.pick(&[32usize, 32, 48, 64, 16]);
            r.bytes(k)
        } else {
            vec![]
        };
        let mut opaque = self.opaque_sel();
        let tw = if self.tw == 0 { 0 } else { 1 + (self.tw / 2) % 7 };
        let mine = self.tw != 0 && self.tw % 2 == 0;
        let mut lens = None;
        if mine {
            match tw {
                1 => {
                    self.note("psk exchange: reserved session id");
                    sid = 0;
                }
                2 => {
                    self.note("psk exchange: large context");
                    self.any = true;
                    let k = r.range(65, 1200);
                    ctx = r.bytes(k);
                }
                3 => {
                    self.note("psk exchange: strange opaque data");
                    self.any = true;
                    let k = *r.pick(&[0usize, 1, 4, 12, 16, 40, 1024, 1025, 1500, 2048, 2500, 3072, 3500]);
                    opaque = if r.bool() { r.bytes(k) } else { vec![0; k] };
                }
                4 => {
                    self.note("psk exchange: context unlike the capability");
                    self.any = true;
                    ctx = if ctx.is_empty() { r.bytes(32) } else { vec![] };
                }
                5 => {
                    self.note("psk exchange: lengths beyond the message");
                    lens = Some((ctx.len() + r.below(60000), opaque.len() + 3000 + r.below(60000)));
                    self.must_fail(&["C06", "C18"], "PSK_EXCHANGE_RSP shorter than its lengths");
                }
                6 => {
                    self.note("psk exchange: opaque data damaged");
                    self.any = true;
                    let k = r.below(opaque.len());
                    opaque[k] ^= 1 << r.below(8);
                }
                _ => {}
            }
        }
        let mut d = vec![self.hv.unwrap_or(n.ver), PSK_EXCHANGE_RSP, self.hb(), 0];
        p16(&mut d, sid);
        d.extend_from_slice(&[0, 0]);
        let (a, b) = lens.unwrap_or((ctx.len(), opaque.len()));
        p16(&mut d, a);
        p16(&mut d, b);
        let s = self.summary_bytes(req[2]);
        d.extend_from_slice(&s);
        d.extend_from_slice(&ctx);
        d.extend_from_slice(&opaque);
        let mut s = self.m.begin_session(req, &d);
        self.m.session_keys(&mut s);
        let mac = self.mac_or_not(&s, self.tw != 0 && !mine);
        d.extend_from_slice(&mac);
        d
    }
    fn b_encap(&mut self, sess: Option<u32>, req: &[u8]) -> Vec<u8> {
        let n = self.m.neg.clone();
        let h = n.h();
        let mut e = match self.encap.take() {
            Some(e) => e,
            None => {
                self.own(&["C22"], "encapsulated exchange nobody asked for".into());
                return self.error_rsp(4, 0);
            }
        };
        let _ = sess;
        let mut_req = sess.and_then(|i| self.m.s(i)).map_or(0, |s| s.mut_req);
        // what the requester delivered
        if req[1] == DELIVER_ENCAP {
            if e.phase == 0 && mut_req != 4 {
                self.own(&["C22"], "DELIVER_ENCAPSULATED_RESPONSE before any encapsulated request".into());
            }
            if e.phase == 0 {
                // the digests were asked for with KEY_EXCHANGE_RSP
                e.want = self.my_digests();
                e.rid = 0;
                e.exact = true;
            }
            if req[2] != e.rid && !e.loose {
                self.own(&["C22"], format!("encapsulated response {} to request {}", req[2], e.rid));
            }
            let got = &req[4..];
            let ok = if e.exact { got == &e.want[..] } else { got.len() >= 4 && (got[1] == ERROR || got == &e.want[..]) };
            if !ok && !e.loose {
                self.own(
                    &["C22"],
                    format!("encapsulated response {} but the requester holds {}{}", hexs(got), if e.exact { "" } else { "an error or " }, hexs(&e.want)),
                );
            }
        } else if e.phase != 0 || mut_req == 4 {
            self.own(&["C22"], "GET_ENCAPSULATED_REQUEST in the middle of an encapsulated exchange".into());
        }
        // the next thing to ask
        let first = req[1] == GET_ENCAP;
        if first {
            e.phase = 1;
        } else if e.phase < 2 {
            e.phase = 2;
        }
        if self.tw != 0 {
            e.hostile = true;
            if self.tw % 16 == 5 {
                e.endless = true;
                e.left = 100_000;
            }
        }
        e.rid = if self.r.chance(1, 2) { e.rid.wrapping_add(1) } else { self.r.u8() };
        let acked = req[2];
        let mut inner: Option<Vec<u8>> = None;
        e.left = e.left.saturating_sub(1);
        e.exact = true;
        if first {
            inner = Some(vec![n.ver, GET_DIGESTS, 0, 0]);
            e.want = self.my_digests();
            if self.r.chance(1, 4) {
                e.phase = 2;
                inner = None;
            }
        }
        let ch = self.q.chains[e.slot as usize & 7].as_ref().map(|d| fmt_chain(h, d));
        if inner.is_none() && e.left > 0 {
            match &ch {
                Some(c) if e.off < c.len() || e.endless => {
                    let off = if e.endless { self.r.below(c.len()) } else { e.off };
                    let len = *self.r.pick(&[512usize, 512, 511, 200, 1024, 64]);
                    let got = len.min(512).min(c.len() - off);
                    let mut i = vec![n.ver, GET_CERTIFICATE, e.slot, 0];
                    p16(&mut i, off);
                    p16(&mut i, len);
                    inner = Some(i);
                    let mut w = vec![n.ver, CERTIFICATE, e.slot, 0];
                    p16(&mut w, got);
                    p16(&mut w, c.len() - off - got);
                    w.extend_from_slice(&c[off..off + got]);
                    e.want = w;
                    e.off = off + got;
                }
                _ => {}
            }
        }
        if e.hostile && !e.endless {
            let mut r = self.r.fork(9);
            match self.tw % 8 {
                1 => {
                    self.note("encapsulated: unknown or unsupported request");
                    self.any = true;
                    let mut x = inner.clone().unwrap_or(vec![n.ver, 0, 0, 0]);
                    x[1] = *r.pick(&[CHALLENGE, GET_VERSION, 0x80, 0xff, KEY_EXCHANGE, KEY_UPDATE, FINISH, ERROR, 0x61, END_SESSION, 0x00]);
                    inner = Some(x);
                    e.exact = false;
                    e.want = vec![];
                }
                2 => {
                    self.note("encapsulated: impossible slot, offset or length");
                    self.any = true;
                    let mut x = vec![n.ver, GET_CERTIFICATE, r.u8(), r.u8()];
                    p16(&mut x, r.u16() as usize);
                    p16(&mut x, r.u16() as usize);
                    if r.bool() {
                        x[2] = e.slot;
                    }
                    e.exact = false;
                    let sl = x[2] as usize & 0xf;
                    let (off, len) = (u16le(&x, 4).unwrap(), u16le(&x, 6).unwrap());
                    let cc = self.q.chains.get(sl).and_then(|c| c.as_ref()).map(|d| fmt_chain(h, d));
                    e.want = vec![];
                    if let Some(c) = cc {
                        if off < c.len() {
                            let got = len.min(512).min(c.len() - off);
                            let mut w = vec![n.ver, CERTIFICATE, sl as u8, 0];
                            p16(&mut w, got);
                            p16(&mut w, c.len() - off - got);
                            w.extend_from_slice(&c[off..off + got]);
                            e.want = w;
                        }
                    }
                    inner = Some(x);
                }
                3 => {
                    self.note("encapsulated: another version");
                    self.any = true;
                    if let Some(x) = &mut inner {
                        x[0] = r.u8();
                        if x[0] != n.ver {
                            e.exact = false;
                            e.want = vec![];
                        }
                    }
                }
                4 => {
                    self.note("encapsulated: truncated request");
                    self.any = true;
                    if let Some(x) = &mut inner {
                        let k = r.below(x.len());
                        x.truncate(k);
                        e.exact = false;
                        e.want = vec![];
                    }
                }
                6 => {
                    self.note("encapsulated: malformed acknowledgement");
                    self.any = true;
                    e.loose = true;
                    self.encap = Some(e);
                    let mut d = vec![n.ver, if first { ENCAP_REQUEST } else { ENCAP_ACK }, r.u8(), r.u8()];
                    let k = r.below(12);
                    let x = r.bytes(k);
                    d.extend_from_slice(&x);
                    return d;
                }
                7 => {
                    self.note("encapsulated: slot that is none");
                    self.any = true;
                    let sl = if r.bool() { r.u8() } else { r.below(16) as u8 };
                    self.m.req_slot = sl as usize & 7;
                    e.slot = sl;
                    self.encap = Some(e);
                    let mut d = vec![n.ver, ENCAP_ACK, 0, 2];
                    if n.ver >= 0x12 {
                        d.extend_from_slice(&[acked, 0, 0, 0]);
                    }
                    d.push(sl);
                    if self.m.req_data.get(sl as usize).and_then(|c| c.as_ref()).is_none() {
                        self.must_fail(&["C22"], "mutual authentication with a slot that holds no certificate");
                    }
                    return d;
                }
                _ => {}
            }
        } else if e.endless {
            if self.what == "honest" {
                self.note("encapsulated: without end");
                self.must_fail(&["C15", "C22"], "an encapsulated exchange without end");
            }
        }
        let fin_slot = e.slot;
        let d = if first {
            let mut d = vec![n.ver, ENCAP_REQUEST, e.rid, 0];
            match &inner {
                Some(i) => d.extend_from_slice(i),
                None => {
                    // nothing to ask at all
                    d.extend_from_slice(&[n.ver, GET_DIGESTS, 0, 0]);
                    e.want = self.my_digests();
                }
            }
            d
        } else {
            match &inner {
                Some(i) => {
                    let mut d = vec![n.ver, ENCAP_ACK, e.rid, 1];
                    if n.ver >= 0x12 {
                        d.extend_from_slice(&[acked, 0, 0, 0]);
                    }
                    d.extend_from_slice(i);
                    d
                }
                None => {
                    let absent = fin_slot as usize == 0 && false;
                    let mut d = vec![n.ver, ENCAP_ACK, e.rid, if absent { 0 } else { 2 }];
                    if n.ver >= 0x12 {
                        d.extend_from_slice(&[acked, 0, 0, 0]);
                    }
                    if !absent {
                        d.push(fin_slot);
                    }
                    self.m.req_slot = fin_slot as usize & 7;
                    d
                }
            }
        };
        self.encap = Some(e);
        d
    }
    fn my_digests(&self) -> Vec<u8> {
        let n = &self.m.neg;
        let mut d = vec![n.ver, DIGESTS, 0, 0];
        for i in 0..8 {
            if let Some(c) = &self.q.chains[i] {
                d[3] |= 1 << i;
                d.extend_from_slice(&n.digest(&fmt_chain(n.h(), c)));
            }
        }
        d
    }

    // ------------------------------------------------------------ attacks on the way
    fn undo_ku(&mut self) {
        if let Some((id, a, b)) = self.ku.take() {
            if let Some(s) = self.m.s(id) {
                if s.app[REQ].secret != a.secret {
                    s.app[REQ] = a;
                }
                if s.app[RSP].secret != b.secret {
                    s.app[RSP] = b;
                }
            }
        }
    }
    fn post(&mut self, sess: Option<u32>, req: &[u8], rsp: Vec<u8>) -> Vec<Vec<u8>> {
        let t = self.t;
        let tags = op_tags(&self.op);
        // the content above was honest
        if let Some(e) = &mut self.encap {
            e.loose = true;
        }
        self.bad.clear();
        self.any = false;
        let mut r = self.r.fork(11);
        match r.below(13) {
            0 => {
                self.note("no answer");
                self.mute = true;
                self.must_fail(&tags, "no answer at all");
                vec![]
            }
            1 | 2 | 3 => {
                let c = *r.pick(&[1u8, 3, 4, 5, 6, 7, 9, 0x0d, 0x41, 0x42, 0x43, 0x42, 6, 0, 2, 0xff, 0x44]);
                self.undo_ku();
                let mut d = self.error_rsp(c, if c == 7 { req[1] } else { 0 });
                if req[1] == GET_VERSION {
                    d[0] = 0x10;
                }
                if c == 0x42 {
                    d.extend_from_slice(&[r.u8(), req[1], r.u8(), r.u8()]);
                } else if r.chance(1, 4) {
                    let k = r.below(33);
                    let x = r.bytes(k);
                    d.extend_from_slice(&x);
                }
                let encap = matches!(req[1], GET_ENCAP | DELIVER_ENCAP);
                self.note(&format!("ERROR {:02x}", c));
                self.must_fail(&["C25"], "an ERROR response");
                if !encap {
                    self.status = Some(match c {
                        6 => vec![SPDM_STATUS_SESSION_MSG_ERROR],
                        0x42 => vec![SPDM_STATUS_NOT_READY_PEER],
                        3 => vec![SPDM_STATUS_BUSY_PEER],
                        0x43 => vec![],
                        _ => vec![SPDM_STATUS_ERROR_PEER],
                    });
                    self.clean_err = true;
                }
                if let Some(id) = sess {
                    if c == 6 || c == 0x43 {
                        self.gone.push(id);
                    }
                }
                vec![self.emit(sess, req, d)]
            }
            4 => {
                self.note("damaged frame");
                self.mute = true;
                self.must_fail(&tags, "a frame that is none");
                let f = match r.below(5) {
                    0 => vec![],
                    1 => {
                        let k = r.below(4200);
                        let mut f = r.bytes(k);
                        if t == Trans::Mctp && !f.is_empty() && (f[0] & 0x7f == 5 || f[0] & 0x7f == 6) {
                            f[0] = 0x7e;
                        }
                        f
                    }
                    2 => vec![0u8; 9000],
                    3 => {
                        let mut f = frame(t, Kind::Clear, &rsp);
                        match t {
                            Trans::Mctp => f[0] = *r.pick(&[0u8, 1, 4, 7, 0x7e, 0x7f]),
                            Trans::Doe => {
                                let k = r.below(3);
                                f[k] ^= 1 << r.range(2, 7);
                            }
                        }
                        f
                    }
                    _ => {
                        let mut f = frame(t, Kind::Clear, &rsp);
                        f.truncate(match t {
                            Trans::Mctp => 1,
                            Trans::Doe => r.below(9),
                        });
                        f
                    }
                };
                vec![f]
            }
            5 => {
                self.note("answer on the other channel");
                self.mute = true;
                self.must_fail(&["C09", "C06"], "an answer on the wrong channel");
                match sess {
                    Some(_) => vec![frame(t, Kind::Clear, &rsp)],
                    None => {
                        let ids: Vec<u32> = self.m.sess.iter().map(|s| s.id).collect();
                        if ids.is_empty() {
                            let mut s = Sess { id: r.u32(), neg: self.m.neg.clone(), ..Default::default() };
                            if s.neg.h() == 0 {
                                s.neg.hash = 1;
                                s.neg.aead = 1;
                            }
                            s.hs[RSP] = Dir::new(&s.neg, vec![7; 32]);
                            vec![sealed(t, &mut s, RSP, &rsp, false)]
                        } else {
                            let id = *r.pick(&ids);
                            let mut s = self.m.s(id).unwrap().clone();
                            vec![sealed(t, &mut s, RSP, &rsp, false)]
                        }
                    }
                }
            }
            6 | 7 => {
                // a bit of the message
                let mut x = rsp;
                let k = r.below(x.len());
                x[k] ^= 1 << r.below(8);
                self.note(&format!("bit of message {:02x} flipped", req[1]));
                // parts nothing protects may be taken as they are
                self.any = true;
                vec![self.emit(sess, req, x)]
            }
            8 => {
                self.note("message cut short");
                let mut x = rsp;
                let k = r.below(x.len());
                x.truncate(k);
                if k < 2 {
                    self.must_fail(&tags, "a message without a code");
                    self.mute = true;
                    return vec![match sess {
                        None => frame(t, Kind::Clear, &x),
                        Some(id) => sealed(t, self.m.s(id).unwrap(), RSP, &x, false),
                    }];
                }
                self.any = true;
                vec![self.emit(sess, req, x)]
            }
            9 => {
                self.note("bytes after the message");
                let mut x = rsp;
                let k = r.range(1, 64);
                let y = r.bytes(k);
                x.extend_from_slice(&y);
                self.any = true;
                vec![self.emit(sess, req, x)]
            }
            10 => {
                if let (Some(id), true) = (sess, r.bool()) {
                    return self.record_attack(id, &rsp, false);
                }
                self.note("other response code or version");
                let mut x = rsp;
                if r.bool() {
                    let c = x[1];
                    while x[1] == c {
                        x[1] = if r.bool() { r.u8() } else { *r.pick(&[1u8, 2, 3, 4, 0x60, 0x61, 0x63, 0x64, 0x65, 0x66, 0x67, 0x68, 0x69, 0x6a, 0x6b, 0x6c, 0x7e]) };
                        if x[1] == ERROR {
                            x[1] = c;
                        }
                    }
                    self.must_fail(&tags, "another response than the request's");
                } else {
                    let c = x[0];
                    while x[0] == c {
                        x[0] = if r.bool() { r.u8() } else { *r.pick(&[0x10u8, 0x11, 0x12, 0x13]) };
                    }
                    self.must_fail(&tags, "a response of another version");
                }
                vec![self.emit(sess, req, x)]
            }
            11 => match sess {
                Some(id) => self.record_attack(id, &rsp, false),
                None => {
                    self.note("earlier response replayed");
                    let same: Vec<Vec<u8>> = self.old_msgs.iter().filter(|m| m.len() > 1 && m[1] == rsp[1]).cloned().collect();
                    let x = if !same.is_empty() && r.chance(3, 4) {
                        r.pick(&same).clone()
                    } else if self.old_msgs.is_empty() {
                        r.bytes(20)
                    } else {
                        r.pick(&self.old_msgs).clone()
                    };
                    self.any = true;
                    if x.len() > 1 && x[1] == ERROR {
                        self.mute = true;
                        self.must_fail(&["C25"], "an ERROR response");
                        return vec![frame(t, Kind::Clear, &x)];
                    }
                    if x.len() < 2 {
                        self.mute = true;
                        self.must_fail(&tags, "a message without a code");
                        return vec![frame(t, Kind::Clear, &x)];
                    }
                    vec![self.emit(None, req, x)]
                }
            },
            _ => {
                self.note("random contents");
                let mut x = rsp[..2].to_vec();
                let k = match r.below(4) {
                    0 => r.below(16),
                    1 => r.below(200),
                    2 => rsp.len(),
                    _ => r.below(4000),
                };
                let mut y = r.bytes(k);
                if r.bool() {
                    for b in y.iter_mut() {
                        if r.chance(1, 2) {
                            *b = 0;
                        }
                    }
                }
                x.extend_from_slice(&y);
                self.any = true;
                vec![self.emit(sess, req, x)]
            }
        }
    }
    /// a record that must not be taken for the answer
    fn record_attack(&mut self, id: u32, msg: &[u8], app: bool) -> Vec<Vec<u8>> {
        let t = self.t;
        let mut r = self.r.fork(12);
        self.mute = true;
        self.must_fail(&["C09"], "a record that is not the peer's next one");
        let s = match self.m.s(id) {
            Some(s) => s.clone(),
            None => return vec![],
        };
        let mut o = s.clone();
        match r.below(7) {
            0 => {
                self.note("record: damaged");
                let mut f = sealed(t, &mut o, RSP, msg, app);
                let lo = match t {
                    Trans::Mctp => 1,
                    Trans::Doe => 8,
                };
                // the padding of DOE is nobody's
                let hi = match t {
                    Trans::Mctp => f.len(),
                    Trans::Doe => {
                        let l = u16le(&f, 12).unwrap_or(0);
                        (14 + l).min(f.len())
                    }
                };
                let k = r.range(lo, hi - 1);
                f[k] ^= 1 << r.below(8);
                vec![f]
            }
            1 => {
                self.note("record: earlier one replayed");
                let pick: Vec<Vec<u8>> = self
                    .old
                    .iter()
                    .filter(|f| unframe(t, f).map_or(false, |(k, b)| k == Kind::Secured && u32le(&b, 0) == Some(id)))
                    .cloned()
                    .collect();
                if pick.is_empty() {
                    return vec![];
                }
                vec![r.pick(&pick).clone()]
            }
            2 => {
                self.note("record: from the future");
                let n = *r.pick(&[1u64, 2, 7, 65536]);
                o.dir(RSP).seq += n;
                vec![sealed(t, &mut o, RSP, msg, app)]
            }
            3 => {
                self.note("record: the requester's own direction");
                let d = o.dir(REQ).clone();
                let q = o.dir(RSP).seq;
                *o.dir(RSP) = d;
                if r.bool() {
                    o.dir(RSP).seq = q;
                }
                vec![sealed(t, &mut o, RSP, msg, app)]
            }
            4 => {
                self.note("record: of another session");
                let others: Vec<u32> = self.m.sess.iter().map(|s| s.id).filter(|i| *i != id).collect();
                if others.is_empty() {
                    o.id ^= 1 << r.below(32);
                    vec![sealed(t, &mut o, RSP, msg, app)]
                } else {
                    let mut p = self.m.s(*r.pick(&others)).unwrap().clone();
                    if r.bool() {
                        p.id = id;
                    }
                    vec![sealed(t, &mut p, RSP, msg, app)]
                }
            }
            5 => {
                self.note("record: keys of another phase");
                if s.estab {
                    o.estab = false;
                    o.hs[RSP].seq = s.app[RSP].seq;
                    vec![sealed(t, &mut o, RSP, msg, app)]
                } else {
                    o.finish();
                    vec![sealed(t, &mut o, RSP, msg, app)]
                }
            }
            _ => {
                self.note("record: cut short");
                let mut f = sealed(t, &mut o, RSP, msg, app);
                let k = match t {
                    Trans::Mctp => r.range(1, f.len() - 1),
                    Trans::Doe => r.range(9, f.len() - 1),
                };
                f.truncate(k);
                vec![f]
            }
        }
    }
}

// ---------------------------------------------------------------- the verdict on an operation
fn merge_dir(keep: &mut Dir, now: &Dir, saved: Option<&Dir>) {
    if keep.secret == now.secret {
        keep.seq = now.seq;
    } else if let Some(s) = saved {
        if s.secret == keep.secret {
            keep.seq = s.seq;
        }
    }
}
impl Fake {
    /// sessions the requester holds
    fn held(sim: &mut Sim) -> Vec<(u32, u8)> {
        let mut v: Vec<(u32, u8)> = sim.snap_req().sessions.into_iter().filter(|x| x.0 != 0).collect();
        v.sort_unstable();
        v
    }
    fn peer_chain(sim: &mut Sim, slot: u8) -> Option<Vec<u8>> {
        sim.rq().common.peer_info.peer_cert_chain[slot as usize & 7].as_ref().map(|c| c.data[..c.data_size as usize].to_vec())
    }
    fn find(&mut self, tags: &[&'static str], msg: String) {
        let w = self.what.clone();
        let o = op_str(&self.op);
        self.f.add(tags, format!("{} [{}; the responder was {}]", msg, o, w));
    }
    /// false: the case is over
    fn end(&mut self, out: &Out<Res>, sim: &mut Sim) -> bool {
        let op = self.op.clone();
        let tags = op_tags(&op);
        let with = |x: &'static str| {
            let mut t = tags.clone();
            if !t.contains(&x) {
                t.push(x)
            }
            t
        };
        if let Out::Panic(p) = out {
            if p.in_harness() && !p.is_budget() {
                eprintln!("HARNESS-FAILURE: {}", p.show());
            } else {
                let msg = format!("{} during {}", p.show(), op.name());
                let t = if p.msg.contains("overflow") || p.msg.contains("out of") { vec!["C15", "C23"] } else { vec!["C15"] };
                self.find(&t, msg);
            }
            return false;
        }
        for x in crate::world::with(|w| std::mem::take(&mut w.nonce_reuse)) {
            self.f.add(&["C08"], x);
        }
        if !self.f.0.is_empty() {
            return false;
        }
        let bad = std::mem::take(&mut self.bad);
        let murky = match &op {
            Op::Challenge(..) => self.murky,
            Op::Meas(None, _, a, _) if a & 1 == 1 => self.murky,
            Op::Meas(Some(i), _, a, _) if a & 1 == 1 => self.murky_s.contains(i),
            // failed retrievals fill the transcript buffer of these builds
            Op::Cert(None, _) => !HASHED && self.murky,
            _ => false,
        };
        let any = self.any || murky || self.odd;
        let held = Fake::held(sim);
        match out {
            Out::Panic(_) => unreachable!(),
            Out::Ok(res) => {
                self.count("operations that succeeded");
                if self.hit {
                    self.count("attacked operations that succeeded");
                }
                if !bad.is_empty() && !self.odd {
                    let mut t: Tags = vec![];
                    for (b, _) in &bad {
                        for x in b {
                            if !t.contains(x) {
                                t.push(*x)
                            }
                        }
                    }
                    let why: Vec<String> = bad.into_iter().map(|b| b.1).collect();
                    self.find(&t, format!("{} succeeded although: {}", op.name(), why.join("; ")));
                    return false;
                }
                self.ok_state(&op, res, sim, &held);
                !(self.f.0.len() > 0)
            }
            Out::Err(e) => {
                self.count("operations that failed");
                if self.hit {
                    self.count("attacked operations refused");
                }
                if bad.is_empty() && !any {
                    self.find(&with("C15"), format!("{} failed with {:?} although nothing was wrong", op.name(), e.status_code));
                    return false;
                }
                if let (Some(l), false) = (self.status.clone(), self.odd) {
                    self.count("ERROR responses mapped");
                    if !l.is_empty() && !l.contains(e) {
                        self.find(&["C25"], format!("{} returned {:?}; the status for that ERROR is {:?}", op.name(), e.status_code, l[0].status_code));
                        return false;
                    }
                }
                self.err_state(&op, sim, &held)
            }
        }
    }
    fn ok_state(&mut self, op: &Op, res: &Res, sim: &mut Sim, held: &[(u32, u8)]) {
        let clean = !self.any && !self.hit;
        match op {
            Op::Init => {
                self.odd = self.any;
                self.murky = false;
                self.murky_s.clear();
                self.old_msgs.truncate(30);
                if !self.odd {
                    self.check_nego(sim);
                }
            }
            Op::Digest(None) => self.murky = false,
            Op::Cert(_, slot) if !self.odd => {
                let have = Fake::peer_chain(sim, *slot);
                let want = self.m.fetched.get(slot).cloned();
                match have {
                    Some(c) => {
                        if Some(&c) != want.as_ref() {
                            self.find(&["C16", "C05"], format!("the requester recorded a chain of {} bytes, it was served {:?}", c.len(), want.map(|w| w.len())));
                        } else if let Err(e) = identity_ok(self.m.neg.h(), &c, self.q.root.clone().as_ref()) {
                            self.find(&["C05"], format!("the requester recorded a chain that is no identity: {}", e));
                        }
                        if self.hit && clean {
                            self.count("odd chains recorded");
                        }
                    }
                    None => self.find(&["C16"], "no chain recorded after a successful retrieval".into()),
                }
            }
            Op::Vendor(..) => {
                if let (Some(d), false) = (&self.want_data, self.odd) {
                    if d != &res.data {
                        let m = format!("vendor answer {} reached the caller as {}", hexs(d), hexs(&res.data));
                        self.find(&["C26"], m);
                    }
                }
            }
            Op::App(..) => {
                if let (Some(d), false) = (&self.want_data, self.odd) {
                    if d != &res.data {
                        let m = format!("application data {} reached the caller as {}", hexs(d), hexs(&res.data));
                        self.find(&["C09"], m);
                    }
                }
            }
            Op::Meas(_, _, _, o) => {
                if let (Some((t, b, rec)), false) = (self.want_meas.clone(), self.odd) {
                    if t != res.total || (*o != 0 && b != res.blocks) || rec != res.record {
                        let m = format!(
                            "the responder reported total {} blocks {} record {} but the caller got {} / {} / {}",
                            t, b, hexs(&rec), res.total, res.blocks, hexs(&res.record)
                        );
                        self.find(&["C17"], m);
                    }
                }
            }
            Op::Start(..) => {
                if !self.odd {
                    let id = res.session.unwrap_or(0);
                    match self.m.s(id) {
                        Some(s) if s.estab => {}
                        x => {
                            let m = format!("session {:08x} reported, which the exchange {}", id, if x.is_some() { "did not establish" } else { "did not create" });
                            self.find(&["C06", "C11"], m);
                        }
                    }
                }
            }
            _ => {}
        }
        if let Some(i) = op.session() {
            if !matches!(op, Op::Meas(..) | Op::App(..)) {
                self.murky_s.remove(&i);
            }
        }
        self.same_sessions(held, op, sim);
    }
    fn same_sessions(&mut self, held: &[(u32, u8)], op: &Op, sim: &mut Sim) {
        if self.odd {
            return;
        }
        let mut want: Vec<(u32, u8)> = self.m.sess.iter().map(|s| (s.id, if s.estab { 2 } else { 1 })).collect();
        want.sort_unstable();
        if held != &want[..] {
            let t: Tags = match op {
                Op::Start(..) => vec!["C11", "C06", "C22"],
                Op::Init => vec!["C11"],
                _ => vec!["C11", "C25"],
            };
            self.find(&t, format!("after {} the requester holds sessions {:x?} but {:x?} are live", op.name(), held, want));
            return;
        }
        // and with the prescribed keys
        let mut wrong = None;
        for s in &self.m.sess {
            if !s.estab {
                continue;
            }
            let want: Vec<(Vec<u8>, Vec<u8>, u64)> = (0..2).map(|d| (s.app[d].key.clone(), s.app[d].iv.clone(), s.app[d].seq)).collect();
            let got = sim.rq().common.get_session_via_id(s.id).map(|s| s.export_keys()).map(|(a, b)| {
                [a, b]
                    .iter()
                    .map(|k| (k.encryption_key.as_ref().to_vec(), k.salt.as_ref().to_vec(), k.sequence_number))
                    .collect::<Vec<_>>()
            });
            if let Some(g) = got {
                if g != want {
                    wrong = Some((s.id, g.iter().map(|x| x.2).collect::<Vec<_>>(), want.iter().map(|x| x.2).collect::<Vec<_>>()));
                }
            }
        }
        if let Some((id, g, w)) = wrong {
            let t: Tags = match op {
                Op::KeyUpdate(..) => vec!["C10", "C07"],
                Op::Start(..) => vec!["C07", "C06"],
                _ => vec!["C09", "C10", "C11"],
            };
            self.find(&t, format!("after {} session {:08x} has other keys or counters than prescribed (counters {:?}, prescribed {:?})", op.name(), id, g, w));
        }
    }
    fn err_state(&mut self, op: &Op, sim: &mut Sim, held: &[(u32, u8)]) -> bool {
        let before: Vec<u32> = self.keep.sess.iter().map(|s| s.id).collect();
        if !self.clean_err {
            let mut k = self.keep.clone();
            k.xs = self.m.xs.clone();
            for s in k.sess.iter_mut() {
                let now = match self.m.s(s.id).map(|x| x.clone()).or(self.shadow.get(&s.id).cloned()) {
                    Some(x) => x,
                    None => continue,
                };
                let ku = self.ku.clone().filter(|x| x.0 == s.id);
                for d in 0..2 {
                    merge_dir(&mut s.app[d], &now.app[d], ku.as_ref().map(|x| if d == REQ { &x.1 } else { &x.2 }));
                }
            }
            self.m = k;
            // its request may have reset the transcripts outside too
            self.murky = true;
            if let Some(i) = op.session() {
                self.murky_s.insert(i);
            }
        } else {
            if matches!(op, Op::Meas(..) | Op::Challenge(..)) {
                // whether a refused request counts is not for us to say here
                match op.session() {
                    Some(i) => {
                        self.murky_s.insert(i);
                    }
                    None => self.murky = true,
                }
            }
            self.m.sess.retain(|s| before.contains(&s.id));
        }
        let gone = self.gone.clone();
        self.m.sess.retain(|s| !gone.contains(&s.id));
        if let Op::Cert(_, slot) = op {
            // what is still recorded must be what was recorded before
            let have = Fake::peer_chain(sim, *slot);
            let was = self.m.rsp_chain[*slot as usize & 7].clone();
            match have {
                None => self.m.rsp_chain[*slot as usize & 7] = None,
                Some(c) => {
                    if was.as_ref() != Some(&c) && !self.odd {
                        self.find(&["C05"], format!("a failed retrieval left a chain of {} bytes as the peer's identity", c.len()));
                        return false;
                    }
                }
            }
        }
        match op {
            Op::Init => {
                self.m.conn = 0;
                self.m.sess.clear();
                return true;
            }
            Op::End(i) => {
                // ending is for good, or it is not
                let h = held.iter().any(|x| x.0 == *i);
                if !h {
                    self.m.sess.retain(|s| s.id != *i);
                }
            }
            _ => {}
        }
        self.same_sessions(held, op, sim);
        self.f.0.is_empty()
    }
    fn check_nego(&mut self, sim: &mut Sim) {
        let x = sim.snap_req();
        let n = self.m.neg.clone();
        let want = vec![
            n.req_caps, n.rsp_caps, n.mspec as u32, n.mhash, n.hash, n.asym, n.dhe as u32, n.aead as u32,
            n.req_asym as u32, n.ks as u32, n.opaque as u32,
        ];
        let best = self.listed.iter().copied().filter(|v| self.q.vers.contains(v)).max().unwrap_or(0);
        if x.ver != n.ver || x.ver != best {
            self.find(&["C02"], format!("the requester holds version {:02x}; the messages say {:02x}, the best common one is {:02x}", x.ver, n.ver, best));
        }
        for i in 0..11 {
            if (i == 0 && n.ver == 0x10) || (i == 10 && n.ver < 0x12) || (i == 3 && n.mspec == 0) {
                continue;
            }
            if x.nego[i] != want[i] {
                self.find(&["C02"], format!("the requester holds {} {:x}, the messages say {:x}", NEGO[i], x.nego[i], want[i]));
            }
        }
        let q = &self.q;
        let offer = [0, 0, q.mspec as u32, !0u32, q.hash, q.asym, q.dhe as u32, q.aead as u32, q.req_asym as u32, q.ks as u32, q.opaque as u32];
        for i in 2..11 {
            if (i >= 6 && n.ver < 0x11) || (i == 10 && n.ver < 0x12) {
                continue;
            }
            let v = want[i];
            if v & !offer[i] != 0 || v.count_ones() > 1 {
                self.find(&["C02"], format!("the requester accepted {} {:x} of an offer {:x}", NEGO[i], v, offer[i]));
            }
        }
        let c = &sim.rq().common.negotiate_info;
        let (ct, dts, max) = (c.rsp_ct_exponent_sel, c.rsp_data_transfer_size_sel, c.rsp_max_spdm_msg_size_sel);
        if ct != n.rsp_ct {
            self.find(&["C02"], format!("the requester holds timing exponent {}, the responder sent {}", ct, n.rsp_ct));
        }
        if n.ver >= 0x12 && (dts, max) != (n.rsp_dts, n.rsp_max) {
            self.find(&["C02"], format!("the requester holds sizes {}/{}, the responder sent {}/{}", dts, max, n.rsp_dts, n.rsp_max));
        }
    }

    // ------------------------------------------------------------ what to do next
    fn choose(&mut self, r: &mut Rng, fl: &crate::honest::Flavor) -> Op {
        if self.m.conn < 3 {
            return Op::Init;
        }
        let n = self.m.neg.clone();
        let v = n.ver;
        let signs = can_sign(v);
        if !HASHED && self.m.b.len() > 932 {
            return Op::Digest(None);
        }
        if self.murky && r.chance(1, 2) {
            return Op::Digest(None);
        }
        let fetched: Vec<u8> = (0..8u8).filter(|i| self.m.rsp_chain[*i as usize].is_some()).collect();
        let slots: Vec<u8> = (0..8u8).filter(|i| self.sp.chains[*i as usize].is_some()).collect();
        let live: Vec<u32> = self.m.sess.iter().filter(|s| s.estab).map(|s| s.id).collect();
        if fetched.is_empty() && r.chance(2, 3) {
            return Op::Cert(None, *r.pick(&slots));
        }
        for _ in 0..200 {
            let total = fl.sessions + fl.keyupd + fl.app + fl.meas + fl.cert + fl.chal + fl.vendor + 1;
            let mut k = r.below(total);
            let sess = if live.is_empty() { None } else { Some(*r.pick(&live)) };
            if k < fl.sessions {
                match r.below(5) {
                    0 if sess.is_some() => return Op::End(sess.unwrap()),
                    1 if sess.is_some() && n.cap(C_HBEAT) => return Op::Heartbeat(sess.unwrap()),
                    _ => {
                        if live.len() >= 4 {
                            return Op::End(sess.unwrap());
                        }
                        if v < 0x11 {
                            continue;
                        }
                        let psk = n.req_caps & C_PSK != 0 && n.rsp_caps & (C_PSK | C_PSK_CTX) != 0 && r.bool();
                        if !psk && (fetched.is_empty() || !signs || !n.cap(C_KEX)) {
                            continue;
                        }
                        let slot = if psk { 0 } else { *r.pick(&fetched) };
                        return Op::Start(psk, slot, *r.pick(&[0u8, 1, 0xff]));
                    }
                }
            }
            k -= fl.sessions;
            if k < fl.keyupd {
                if let (Some(s), true) = (sess, n.cap(C_KEYUPD)) {
                    return Op::KeyUpdate(s, r.range(1, 2) as u8);
                }
                continue;
            }
            k -= fl.keyupd;
            if k < fl.app {
                if let (Some(s), Trans::Mctp) = (sess, self.t) {
                    let n = r.below(200);
                    return Op::App(s, r.bytes(n));
                }
                continue;
            }
            k -= fl.app;
            if k < fl.meas {
                let tgt = if r.bool() { sess } else { None };
                if !HASHED {
                    let full = match tgt {
                        None => self.m.m_hi,
                        Some(i) => self.m.s(i).map_or(0, |s| s.m_hi),
                    };
                    if full > 1200 {
                        return Op::Digest(tgt);
                    }
                }
                let mut op = *r.pick(&[0u8, 0xff, 1, 2, 3]);
                if op > 0 && op < 0xff {
                    op = r.range(1, 0xfe) as u8;
                }
                let mut attr = r.below(2) as u8;
                if !signs || fetched.is_empty() || (v < 0x11 && !fetched.contains(&0)) || n.rsp_caps & S_MEAS_SIG == 0 {
                    attr = 0;
                }
                let slot = if attr & 1 == 1 { *r.pick(&fetched) } else { 0 };
                return Op::Meas(tgt, if v >= 0x11 { slot } else { 0 }, attr, op);
            }
            k -= fl.meas;
            if k < fl.cert {
                let i = if r.chance(1, 3) { sess } else { None };
                if r.chance(1, 3) {
                    return Op::Digest(i);
                }
                return Op::Cert(i, *r.pick(&slots));
            }
            k -= fl.cert;
            if k < fl.chal {
                if fetched.is_empty() || !signs {
                    continue;
                }
                return Op::Challenge(*r.pick(&fetched), *r.pick(&[0u8, 0, 1, 0xff]));
            }
            k -= fl.chal;
            if k < fl.vendor {
                let i = if r.bool() { sess } else { None };
                let nid = *r.pick(&[0usize, 1, 2, 4, 16, 255]);
                let np = r.below(300);
                return Op::Vendor(i, r.below(12) as u16, r.bytes(nid), r.bytes(np));
            }
            return Op::Init;
        }
        Op::Init
    }
}

pub fn flavor(prop: &str) -> (crate::honest::Flavor, usize) {
    let d = crate::honest::Flavor { sessions: 4, keyupd: 2, app: 2, meas: 3, cert: 3, chal: 2, vendor: 2, steps: 18, ..Default::default() };
    // attacks on how many of ten operations
    match prop {
        "C02" => (crate::honest::Flavor { steps: 4, ..d }, 8),
        "C05" => (crate::honest::Flavor { cert: 14, chal: 5, meas: 2, steps: 14, ..d }, 6),
        "C16" => (crate::honest::Flavor { cert: 14, steps: 14, ..d }, 6),
        "C04" => (crate::honest::Flavor { chal: 8, meas: 8, sessions: 6, ..d }, 4),
        "C06" | "C22" | "C07" => (crate::honest::Flavor { sessions: 14, ..d }, if prop == "C07" { 3 } else { 6 }),
        "C08" => (crate::honest::Flavor { sessions: 6, app: 6, keyupd: 6, ..d }, 5),
        "C21" => (crate::honest::Flavor { sessions: 8, chal: 6, meas: 6, ..d }, 5),
        "C09" => (crate::honest::Flavor { sessions: 5, app: 8, ..d }, 5),
        "C10" => (crate::honest::Flavor { sessions: 4, keyupd: 12, ..d }, 5),
        "C11" => (crate::honest::Flavor { sessions: 14, keyupd: 1, ..d }, 5),
        "C17" => (crate::honest::Flavor { meas: 16, ..d }, 5),
        "C26" => (crate::honest::Flavor { vendor: 14, ..d }, 5),
        _ => (d, 6),
    }
}

pub fn case(p: &Plan, prop: &'static str, c: u64, r: &mut Rng, rep: &mut Report) {
    let (fl, rate) = flavor(prop);
    reset_world(r.next());
    let w = Want {
        full: !(prop == "C02" && r.chance(2, 3)),
        multi_slot: r.chance(1, 2),
        one_algo: r.chance(1, 3),
        ..Default::default()
    };
    let (mut q, sp) = gen_pair(r, w);
    let t = if r.chance(1, 3) { Trans::Doe } else { Trans::Mctp };
    let mut near = false;
    if r.chance(1, 5) {
        q.root = None;
    } else if r.chance(1, if prop == "C05" { 8 } else { 40 }) {
        if let Some(v) = q.root.as_mut() {
            near_root(r, v);
            near = true;
        }
    }
    if MUTAUTH && r.chance(1, 3) {
        for i in 1..8 {
            if r.chance(1, 3) {
                q.chains[i] = q.chains[0].clone();
            }
        }
    }
    let mut sim = Sim::new(t, Some(&q), None);
    let fake = Rc::new(RefCell::new(Fake::new(r, &q, &sp, t)));
    {
        let f = fake.clone();
        let mut l = sim.link.borrow_mut();
        l.puppet = Some(Box::new(move |x: &[u8]| f.borrow_mut().answer(x)));
        l.budget = 20_000;
    }
    with(|w| w.record = true);
    let mut log: Vec<String> = vec![];
    let mut alive = true;
    let steps = r.range(fl.steps / 2, fl.steps);
    let mut attacks = 0u64;
    for _ in 0..steps {
        let op = fake.borrow_mut().choose(r, &fl);
        // sessions have to exist before they can be attacked
        let rate = if fake.borrow().m.conn < 3 && !matches!(prop, "C02" | "C15" | "C25") { 1 } else { rate };
        let attack = if r.chance(rate, 10) {
            Some(match &op {
                Op::Init => r.below(3),
                Op::Cert(..) => {
                    if r.bool() {
                        0
                    } else {
                        r.below(5)
                    }
                }
                Op::Start(..) => {
                    if r.chance(2, 3) {
                        r.below(2)
                    } else {
                        r.below(9)
                    }
                }
                Op::KeyUpdate(..) => r.below(2),
                _ => 0,
            })
        } else {
            None
        };
        fake.borrow_mut().begin(&op, attack);
        if p.verbose {
            println!("  .. {} {:?}", op_str(&op), fake.borrow().m.neg);
        }
        let out = run(&mut sim, &op);
        if p.verbose {
            println!("  {}{}={}", op_str(&op), if fake.borrow().hit { format!(" <{}>", fake.borrow().what) } else { String::new() }, out.show());
        }
        rep.count(&format!("op {}", op.name()), 1);
        let mut f = fake.borrow_mut();
        log.push(format!("{}{}={}", op_str(&op), if f.hit { format!(" <{}>", f.what) } else { String::new() }, out.show()));
        if f.hit {
            attacks += 1;
            let k = format!("attack {}", f.what.split(':').next().unwrap_or(""));
            f.count(&k);
        }
        alive = f.end(&out, &mut sim);
        if !alive {
            break;
        }
    }
    if alive {
        // an honest responder again
        let n0 = fake.borrow().m.neg.clone();
        let _ = n0;
        let mut plan = vec![Op::Init];
        let mut i = 0;
        while i < plan.len() {
            let op = plan[i].clone();
            i += 1;
            {
                let mut f = fake.borrow_mut();
                f.begin(&op, None);
                if matches!(op, Op::Init) {
                    f.odd = false;
                }
            }
            let out = run(&mut sim, &op);
            log.push(format!("(recovery) {}={}", op_str(&op), out.show()));
            let mut f = fake.borrow_mut();
            let was = f.f.0.len();
            alive = f.end(&out, &mut sim);
            for x in f.f.0[was..].iter_mut() {
                if !x.props.contains(&"C15") {
                    x.props.push("C15");
                }
                x.msg.push_str(" (in the recovery after the attacks)");
            }
            if !alive {
                break;
            }
            if matches!(op, Op::Init) {
                let v = f.m.neg.ver;
                let n = f.m.neg.clone();
                plan.push(Op::Digest(None));
                plan.push(Op::Cert(None, 0));
                // (with another root provisioned, nobody can be authenticated)
                if can_sign(v) && !near {
                    if HASHED || f.sp.chains[0].as_ref().map_or(0, |c| c.len()) < 900 {
                        plan.push(Op::Challenge(0, 0));
                    } else {
                        plan.push(Op::Digest(None));
                    }
                    if n.rsp_caps & S_MEAS_SIG != 0 {
                        plan.push(Op::Meas(None, 0, 1, 0xff));
                    }
                }
                if v >= 0x11 && can_sign(v) && n.cap(C_KEX) && !near {
                    plan.push(Op::Start(false, 0, 0));
                }
            }
            if let (Op::Start(..), Out::Ok(res)) = (&op, &out) {
                let id = res.session.unwrap_or(0);
                plan.push(Op::Vendor(Some(id), 0, vec![], vec![1, 2, 3]));
                if f.m.neg.cap(C_KEYUPD) {
                    plan.push(Op::KeyUpdate(id, 2));
                }
                plan.push(Op::End(id));
            }
        }
        if alive {
            rep.count("recoveries with an honest responder", 1);
        }
    }
    {
        sim.link.borrow_mut().puppet = None;
    }
    let mut f = fake.borrow_mut();
    rep.count("attacks", attacks);
    for (k, v) in f.stat.clone() {
        rep.count(&k, v);
    }
    for (k, v) in f.m.seen.clone() {
        rep.count(&format!("msg {}", k), v);
    }
    rep.seen(log.iter().fold(7u64, |a, x| a.rotate_left(7) ^ fnv(x.as_bytes())));
    let finds = std::mem::take(&mut f.f.0);
    let ctx = || {
        format!(
            "config {} transport {:?} version {:02x} req caps {:x} rsp caps {:x} steps {}",
            CONFIG, t, f.m.neg.ver, q.caps, sp.caps, log.join("; ")
        )
    };
    if p.verbose {
        println!("{}", ctx());
        for x in &finds {
            println!("  FIND {:?} {}", x.props, x.msg);
        }
    }
    rep.sample(|| ctx());
    rep.finds(prop, c, &ctx, &finds);
}
