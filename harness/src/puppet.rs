//! Engine B: the harness is the requester. It follows the protocol as far as it likes
//! and departs from it at will; the model says what the responder may answer.
use crate::gen::*;
use crate::model::code::*;
use crate::model::*;
use crate::mon::*;
use crate::ops::*;
use crate::report::*;
use crate::sim::*;
use crate::util::*;
use crate::world::*;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Serve(Vec<&'static str>),
    Refuse(Vec<&'static str>),
    /// the model does not say
    Any,
}
fn serve(t: &[&'static str]) -> V {
    V::Serve(t.to_vec())
}
fn refuse(t: &[&'static str]) -> V {
    V::Refuse(t.to_vec())
}

pub struct Pup {
    pub s: Sim,
    pub mon: Mon,
    pub q: Ep,
    pub sp: Ep,
    pub log: Vec<String>,
    pub app_log: Rc<RefCell<Vec<(u32, Vec<u8>, Vec<u8>)>>>,
    pub vendor_log: Rc<RefCell<Vec<(Vec<u8>, Vec<u8>)>>>,
    pub dead: bool,
    pub served: u64,
    pub refused: u64,
    pub silent: u64,
    pub limited: u64,
    pub raw: u64,
    pub fuzzed: u64,
    pub dev: std::collections::BTreeMap<&'static str, u64>,
    /// sessions that are gone, with their last keys
    pub grave: Vec<Sess>,
    /// request records sent so far
    pub sent: Vec<(u32, Vec<u8>)>,
    pub got: Vec<Vec<u8>>,
    /// superseded request keys
    pub old_keys: Vec<(u32, Dir)>,
    /// requester chain the responder holds is the honest one
    pub mutual_ok: bool,
    /// an encapsulated exchange was left unfinished
    pub encap_open: bool,
    /// a session for which the encapsulated flow was completed
    pub mutual_done: Vec<u32>,
    /// the provisioned root is not quite the one of the requester's chain
    pub near_root: bool,
    pub prop: &'static str,
}

/// random legal capability sets: clear bits of a full set
pub fn vary_caps(r: &mut Rng, q: &mut Ep, s: &mut Ep) {
    if r.chance(1, 3) {
        return;
    }
    for p in [0, 1] {
        let e: &mut Ep = if p == 0 { q } else { s };
        let bits: &[u32] = if p == 0 {
            &[R_CERT, R_CHAL, C_ENCRYPT, C_MUT, C_KEX, C_PSK, C_HBEAT, C_KEYUPD]
        } else {
            &[R_CERT, R_CHAL, S_MEAS_SIG, C_MUT, C_KEX, C_PSK | C_PSK_CTX, C_HBEAT, C_KEYUPD, S_MEAS_SIG | 0x20]
        };
        if p == 1 && r.chance(1, 6) {
            e.caps = (e.caps & !S_MEAS_SIG) | S_MEAS_NOSIG;
        }
        for _ in 0..r.range(0, 2) {
            e.caps &= !*r.pick(bits);
        }
        legal_caps(e, p == 1);
    }
}
/// make a capability set legal by clearing what depends on cleared bits
pub fn legal_caps(e: &mut Ep, rsp: bool) {
    for _ in 0..4 {
        let c = e.caps;
        let psk = c & (if rsp { C_PSK | C_PSK_CTX } else { C_PSK }) != 0;
        if c & C_KEX == 0 && !psk {
            e.caps &= !(C_MAC | C_ENCRYPT | C_HITC | C_HBEAT | C_KEYUPD);
        }
        if c & C_KEX == 0 {
            e.caps &= !C_HITC;
        }
        if c & R_CERT == 0 {
            e.caps &= !(R_CHAL | C_MUT);
            if rsp {
                e.caps &= !C_KEX;
                if e.caps & S_MEAS_SIG != 0 {
                    e.caps = (e.caps & !S_MEAS_SIG) | S_MEAS_NOSIG;
                }
            }
        } else if c & R_CHAL == 0 && c & C_KEX == 0 && !(rsp && c & S_MEAS_SIG != 0) {
            e.caps |= R_CHAL;
        }
        if rsp {
            if e.caps & (S_MEAS_NOSIG | S_MEAS_SIG) == 0 {
                e.caps &= !0x20;
            }
            // 1.0
            if e.vers.contains(&0x10) && e.caps & S_MEAS_SIG == 0 && (e.caps & R_CERT != 0) != (e.caps & R_CHAL != 0) {
                if e.caps & R_CERT != 0 {
                    e.caps |= R_CHAL;
                }
            }
        }
    }
    if e.caps & C_HBEAT == 0 && rsp {
        e.hb = 0;
    }
}

impl Pup {
    pub fn new(r: &mut Rng, prop: &'static str, q: Ep, sp: Ep, t: Trans) -> Pup {
        reset_world(r.next());
        let app_log: Rc<RefCell<Vec<(u32, Vec<u8>, Vec<u8>)>>> = Default::default();
        let vendor_log: Rc<RefCell<Vec<(Vec<u8>, Vec<u8>)>>> = Default::default();
        let (a, v) = (app_log.clone(), vendor_log.clone());
        let salt = r.next();
        let vfail = r.below(8) == 0;
        with(|w| {
            w.app = Some(Box::new(move |s, d, _| {
                let x = crate::honest::reply_for(d, salt, 900);
                a.borrow_mut().push((s, d.to_vec(), x.clone()));
                Some(x)
            }));
            w.vendor = Some(Box::new(move |d| {
                if vfail && d.first().map_or(false, |x| x & 3 == 3) {
                    v.borrow_mut().push((d.to_vec(), b"no answer from the handler".to_vec()));
                    return None;
                }
                let x = crate::honest::reply_for(d, salt ^ 1, 300);
                v.borrow_mut().push((d.to_vec(), x.clone()));
                Some(x)
            }));
        });
        let s = Sim::new(t, Some(&q), Some(&sp));
        let mut mon = Mon::new(t, &q, &sp);
        mon.puppet = true;
        Pup {
            s,
            mon,
            q,
            sp,
            log: vec![],
            app_log,
            vendor_log,
            dead: false,
            served: 0,
            refused: 0,
            silent: 0,
            limited: 0,
            raw: 0,
            fuzzed: 0,
            dev: Default::default(),
            grave: vec![],
            sent: vec![],
            got: vec![],
            old_keys: vec![],
            mutual_ok: false,
            encap_open: false,
            mutual_done: vec![],
            near_root: false,
            prop,
        }
    }
    pub fn find(&mut self, t: &[&'static str], m: String) {
        self.mon.f.add(t, m);
    }
    fn neg(&self) -> Neg {
        let mut n = self.mon.m.neg.clone();
        // something to build messages with where nothing was negotiated
        let early = self.mon.m.conn < 3;
        if early || n.hash == 0 {
            n.hash = 2;
        }
        if early || n.asym == 0 {
            n.asym = 0x80;
        }
        if early || n.req_asym == 0 {
            n.req_asym = 0x80;
        }
        if early || n.dhe == 0 {
            n.dhe = 8;
        }
        if early || n.aead == 0 {
            n.aead = 2;
        }
        if self.mon.m.conn < 2 {
            n.ver = *self.sp.vers.last().unwrap();
        }
        n
    }
    fn t(&self) -> Trans {
        self.s.trans
    }
    /// what is true of the responder after every step
    fn agree(&mut self, what: &str) {
        let b = self.s.snap_rsp();
        if let Some(i) = self.mon.maybe_gone.take() {
            if !b.sessions.iter().any(|x| x.0 == i) {
                self.mon.m.sess.retain(|s| s.id != i);
                if self.mon.m.last == Some(i) {
                    self.mon.m.last = None;
                }
            }
        }
        let mut got: Vec<(u32, u8)> = b.sessions.iter().copied().filter(|x| x.0 != 0).collect();
        got.sort_unstable();
        let mut want: Vec<(u32, u8)> = self.mon.m.sess.iter().map(|s| (s.id, 1 + s.estab as u8)).collect();
        want.sort_unstable();
        if got != want {
            let up = got.iter().any(|g| g.1 == 2 && !want.contains(g));
            let tags: &[&'static str] = if up { &["C06", "C12", "C11", "C22"] } else { &["C11", "C12"] };
            self.find(tags, format!("after {} the responder has sessions {:x?}, prescribed are {:x?}", what, got, want));
            self.dead = true;
        }
        let conn = self.mon.m.conn;
        if b.conn.min(3) != conn {
            self.find(&["C12", "C02"], format!("after {} the connection state is {} but the exchanges reached {}", what, b.conn, conn));
            self.dead = true;
        }
        if (b.conn == 6) != self.mon.m.authenticated {
            self.find(&["C12", "C03"], format!("after {} the connection is authenticated: {}, prescribed: {}", what, b.conn == 6, self.mon.m.authenticated));
            self.dead = true;
        }
        let n = self.mon.m.neg.clone();
        if conn >= 2 {
            let i = &self.s.rs().common.negotiate_info;
            let mut bad = vec![];
            if i.spdm_version_sel.get_u8() != n.ver {
                bad.push(format!("version {:02x} not {:02x}", i.spdm_version_sel.get_u8(), n.ver));
            }
            if n.ver >= 0x11 && i.req_capabilities_sel.bits() != n.req_caps {
                bad.push(format!("requester flags {:x} not {:x}", i.req_capabilities_sel.bits(), n.req_caps));
            }
            if n.ver >= 0x11 && i.req_ct_exponent_sel != n.req_ct {
                bad.push(format!("requester exponent {} not {}", i.req_ct_exponent_sel, n.req_ct));
            }
            if n.ver >= 0x12 && (i.req_data_transfer_size_sel, i.req_max_spdm_msg_size_sel) != (n.req_dts, n.req_max) {
                bad.push(format!(
                    "requester sizes {}/{} not {}/{}",
                    i.req_data_transfer_size_sel, i.req_max_spdm_msg_size_sel, n.req_dts, n.req_max
                ));
            }
            if !bad.is_empty() {
                self.find(&["C02", "C12"], format!("after {} the responder holds {}", what, bad.join(", ")));
                self.dead = true;
            }
        }
        if conn == 3 {
            let want = [
                n.req_caps, n.rsp_caps, n.mspec as u32, n.mhash, n.hash, n.asym, n.dhe as u32, n.aead as u32,
                n.req_asym as u32, n.ks as u32, n.opaque as u32,
            ];
            for i in 0..11 {
                if (i == 0 && n.ver == 0x10) || (i == 10 && n.ver < 0x12) || (i >= 6 && n.ver == 0x10) {
                    continue;
                }
                if b.nego[i] != want[i] {
                    self.find(&["C02", "C12"], format!("after {} the responder holds {} {:x}, the messages say {:x}", what, NEGO[i], b.nego[i], want[i]));
                    self.dead = true;
                }
            }
        }
    }
    /// the transport frame of `msg` in `sess` with the keys in force; nothing is sent
    pub fn wrap(&mut self, sess: Option<u32>, msg: &[u8], app: bool) -> Option<Vec<u8>> {
        let t = self.t();
        match sess {
            None => Some(frame(t, Kind::Clear, msg)),
            Some(i) => {
                let s = self.mon.m.s(i)?;
                let d = s.dir(REQ).clone();
                let r = seal_with(t, i, &d, &app_wrap(t, msg, app));
                Some(frame(t, Kind::Secured, &r))
            }
        }
    }
    /// send a request and let the monitor watch; the opened response
    pub fn ask(&mut self, sess: Option<u32>, msg: &[u8], app: bool, v: V, what: &str) -> Option<Vec<u8>> {
        if self.dead {
            return None;
        }
        let f = self.wrap(sess, msg, app)?;
        let before: Vec<Sess> = self.mon.m.sess.clone();
        if let Some(i) = sess {
            self.sent.push((i, f.clone()));
        }
        let (na, nv) = (self.app_log.borrow().len(), self.vendor_log.borrow().len());
        self.log.push(format!("{}{}", what, match sess { Some(i) => format!("@{:x}", i), None => String::new() }));
        log(Ev::Tx { role: Role::Req, frame: f.clone() });
        self.mon.last = None;
        self.mon.quiet = v != V::Any && !matches!(v, V::Serve(_)) || v == V::Any;
        let rec = self.s.feed(&f);
        self.mon.step();
        self.mon.settle();
        if let Some(p) = rec.panic {
            self.find(&["C14", "C23"], format!("{} on {}: {}", p.show(), what, hexs(msg)));
            self.dead = true;
            return None;
        }
        for x in &rec.sent {
            self.got.push(x.clone());
        }
        let last = self.mon.last.take().map(|x| x.1);
        let c = msg.get(1).copied().unwrap_or(0);
        if sess.is_none() && c == GET_VERSION && last.as_ref().map_or(false, |m| m.get(1) == Some(&VERSION)) {
            // nobody is known on a new connection
            self.mutual_ok = false;
            self.encap_open = false;
            self.mutual_done.clear();
        }
        let code = last.as_ref().and_then(|m| m.get(1).copied());
        let ok = if app {
            last.is_some()
        } else {
            match code {
                Some(x) => x != ERROR,
                None => false,
            }
        };
        if code.is_none() && !app {
            self.silent += 1;
        }
        if let Some(l) = self.log.last_mut() {
            *l = format!("{}={}", l, match (&last, code) {
                (_, _) if app => if ok { "app".to_string() } else { "none".to_string() },
                (Some(m), Some(ERROR)) => format!("err{:02x}", m.get(2).copied().unwrap_or(0)),
                (_, Some(x)) => format!("{:02x}", x),
                _ => "none".into(),
            });
        }
        let (ma, mv) = (self.app_log.borrow().len(), self.vendor_log.borrow().len());
        let too_large = !app && last.as_ref().map_or(false, |m| m.len() > 2 && m[1] == ERROR && m[2] == 13) && self.may_be_too_large(msg);
        match &v {
            V::Serve(t) => {
                self.served += 1;
                let vendor_failed = c == VENDOR && !app && mv == nv + 1 && self.vendor_log.borrow().last().map_or(false, |x| x.1 == b"no answer from the handler");
                if vendor_failed {
                    if ok || code.is_none() {
                        self.find(&["C26"], "the vendor handler failed but no error was answered".into());
                    }
                } else if too_large {
                    self.limited += 1;
                } else if !ok {
                    let mut t = t.clone();
                    t.push("C01");
                    self.find(&t, format!("legal request {} ({}) answered with {}", what, hexs(msg), last.as_ref().map_or("nothing".into(), |m| hexs(m))));
                    self.dead = true;
                } else if app {
                    let l = self.app_log.borrow().last().cloned();
                    match l {
                        Some((s, d, rep)) if ma == na + 1 && Some(s) == sess && d == msg => {
                            if last.as_ref() != Some(&rep) {
                                self.find(&["C09", "C01"], "application reply altered".into());
                            }
                        }
                        _ => self.find(&["C09", "C11", "C01"], format!("application data reached the handler {} times or altered", ma - na)),
                    }
                } else if c == VENDOR {
                    let i = 7 + msg[6] as usize;
                    let n = u16le(msg, i).unwrap();
                    let pay = &msg[i + 2..i + 2 + n];
                    let l = self.vendor_log.borrow().last().cloned();
                    match l {
                        Some((d, rep)) if mv == nv + 1 && d == pay => {
                            let m = last.clone().unwrap();
                            let mut want = vec![m[0], VENDOR_RSP, m[2], m[3]];
                            want.extend_from_slice(&msg[4..i]);
                            p16(&mut want, rep.len());
                            want.extend_from_slice(&rep);
                            if m.len() < want.len() || m[..want.len()] != want[..] {
                                self.find(&["C26"], format!("vendor answer {} is not {}", hexs(&m), hexs(&want)));
                            }
                        }
                        _ => self.find(&["C26"], format!("vendor request reached the handler {} times or altered: {}", mv - nv, hexs(msg))),
                    }
                }
            }
            V::Refuse(t) => {
                self.refused += 1;
                if ok {
                    self.find(t, format!("{} ({}) was answered with {}", what, hexs(msg), last.as_ref().map_or("".into(), |m| hexs(m))));
                    self.dead = true;
                }
                if ma != na {
                    let mut t = t.clone();
                    t.push("C06");
                    self.find(&t, format!("{} delivered application data", what));
                }
                if mv != nv {
                    let mut t = t.clone();
                    t.push("C26");
                    self.find(&t, format!("{} called the vendor handler", what));
                }
            }
            V::Any => {}
        }
        for s in before {
            if self.mon.m.s(s.id).is_none() && self.grave.len() < 8 {
                self.grave.push(s);
            } else if let Some(x) = self.mon.m.s(s.id) {
                if s.estab && x.estab && x.app[REQ].key != s.app[REQ].key && self.old_keys.len() < 8 {
                    let d = s.app[REQ].clone();
                    self.old_keys.push((s.id, d));
                }
                if !s.estab && x.estab && self.old_keys.len() < 8 {
                    let d = s.hs[REQ].clone();
                    self.old_keys.push((s.id, d));
                }
            }
        }
        self.agree(what);
        last
    }
    /// the response may be longer than the requester takes
    fn may_be_too_large(&self, m: &[u8]) -> bool {
        let n = &self.mon.m.neg;
        let (h, g) = (n.h(), n.sig());
        if n.ver < 0x12 || n.req_dts == 0 {
            return false;
        }
        let max = match m[1] {
            NEGOTIATE_ALGORITHMS => 52,
            GET_DIGESTS => 4 + h * self.sp.chains.iter().filter(|c| c.is_some()).count(),
            GET_CERTIFICATE => 8 + (u16le(m, 6).unwrap_or(0) as usize).min(512),
            CHALLENGE => 4 + 2 * h + 34 + g,
            GET_MEASUREMENTS => {
                let blocks: usize = self.sp.meas.iter().map(|x| 16 + 64 + x.value.len()).sum();
                8 + if m[2] == 0 && m[3] == 0 { 0 } else { blocks } + 34 + g
            }
            KEY_EXCHANGE => 8 + 32 + dhe_size(n.dhe) + 2 * h + 2 + 40 + g,
            PSK_EXCHANGE => 12 + 2 * h + 64 + 40,
            FINISH | PSK_FINISH => 4 + h,
            VENDOR => 9 + 255 + 300,
            _ => 24,
        };
        max + 3 > n.req_dts as usize
    }
    /// a frame that must have no effect at all
    pub fn reject(&mut self, f: &[u8], tags: &[&'static str], what: &str) {
        if self.dead {
            return;
        }
        self.raw += 1;
        self.log.push(format!("!{}", what));
        let a = self.s.snap_rsp();
        let (na, nv) = (self.app_log.borrow().len(), self.vendor_log.borrow().len());
        let rec = self.s.feed(f);
        with(|w| w.ev.clear());
        if let Some(p) = rec.panic {
            self.find(&["C14"], format!("{} on {}: {}", p.show(), what, hexs(f)));
            self.dead = true;
            return;
        }
        if !rec.sent.is_empty() {
            self.find(tags, format!("{} was answered: {}", what, hexs(f)));
            self.dead = true;
        }
        if self.app_log.borrow().len() != na || self.vendor_log.borrow().len() != nv {
            self.find(tags, format!("{} was delivered to a handler", what));
            self.dead = true;
        }
        let b = self.s.snap_rsp();
        if a != b {
            self.find(tags, format!("{} changed the responder's state", what));
            self.dead = true;
        }
    }

    // ---------------------------------------------------------------- messages
    pub fn m_version(&self) -> Vec<u8> {
        vec![0x10, GET_VERSION, 0, 0]
    }
    pub fn m_caps(&self, v: u8) -> Vec<u8> {
        let mut m = vec![v, GET_CAPABILITIES, 0, 0];
        if v >= 0x11 {
            m.extend_from_slice(&[0, self.q.ct, 0, 0]);
            p32(&mut m, self.q.caps);
        }
        if v >= 0x12 {
            p32(&mut m, self.q.dts);
            p32(&mut m, self.q.max);
        }
        m
    }
    pub fn m_algo(&self, v: u8) -> Vec<u8> {
        let mut m = vec![v, NEGOTIATE_ALGORITHMS, 0, 0, 0, 0, self.q.mspec, if v >= 0x12 { self.q.opaque } else { 0 }];
        p32(&mut m, self.q.asym);
        p32(&mut m, self.q.hash);
        m.resize(32, 0);
        if v >= 0x11 {
            for (t, a) in [(2u8, self.q.dhe), (3, self.q.aead), (4, self.q.req_asym), (5, self.q.ks)] {
                m.extend_from_slice(&[t, 0x20]);
                p16(&mut m, a as usize);
                m[2] += 1;
            }
        }
        let l = m.len();
        m[4] = l as u8;
        m
    }
    pub fn m_kex(&mut self, r: &mut Rng, slot: u8, ty: u8, sid: u16) -> Vec<u8> {
        let n = self.neg();
        let x = r.next() >> 2 | 1;
        let public = dhe_public(n.dhe, x);
        self.mon.m.xs.insert(public.clone(), x);
        let mut m = vec![n.ver, KEY_EXCHANGE, ty, slot];
        p16(&mut m, sid as usize);
        m.extend_from_slice(&[if n.ver >= 0x12 { r.u8() & 1 } else { 0 }, 0]);
        m.extend_from_slice(&r.bytes(32));
        m.extend_from_slice(&public);
        let o = self.kex_opaque(&n);
        p16(&mut m, o.len());
        m.extend_from_slice(&o);
        m
    }
    fn kex_opaque(&self, n: &Neg) -> Vec<u8> {
        let el = [0u8, 0, 5, 0, 1, 1, 1, 0, 0x11, 0, 0, 0];
        if n.ver >= 0x12 {
            let mut o = vec![1, 0, 0, 0];
            o.extend_from_slice(&el);
            o
        } else {
            let mut o = vec![0x46, 0x54, 0x4d, 0x44, 1, 1, 0, 0];
            o.extend_from_slice(&el);
            o
        }
    }
    pub fn m_psk(&mut self, r: &mut Rng, ty: u8, sid: u16) -> Vec<u8> {
        let n = self.neg();
        let hint = r.range(0, 32);
        let ctx = r.range(32, 64);
        let o = self.kex_opaque(&n);
        let mut m = vec![n.ver, PSK_EXCHANGE, ty, 0];
        p16(&mut m, sid as usize);
        p16(&mut m, hint);
        p16(&mut m, ctx);
        p16(&mut m, o.len());
        m.extend_from_slice(&r.bytes(hint));
        m.extend_from_slice(&r.bytes(ctx));
        m.extend_from_slice(&o);
        m
    }
    pub fn m_finish(&mut self, id: u32, signed: bool, pk: &[u8]) -> Option<Vec<u8>> {
        self.m_finish_v(id, signed, pk, None)
    }
    /// the same with another version in its header, proofs over what is sent
    pub fn m_finish_v(&mut self, id: u32, signed: bool, pk: &[u8], ver: Option<u8>) -> Option<Vec<u8>> {
        let chain = self.q.chains[0].clone();
        let s = self.mon.m.s(id)?;
        let mut s = s.clone();
        if s.psk {
            let mut m = vec![ver.unwrap_or(s.neg.ver), PSK_FINISH, 0, 0];
            s.th.extend_from_slice(&m);
            m.extend_from_slice(&s.mac(REQ));
            return Some(m);
        }
        if s.mut_req != 0 {
            if let Some(c) = chain {
                let d = s.neg.digest(&fmt_chain(s.neg.h(), &c));
                s.th.extend_from_slice(&d);
            }
        }
        let mut m = vec![ver.unwrap_or(s.neg.ver), FINISH, signed as u8, 0];
        s.th.extend_from_slice(&m);
        if signed {
            let g = sign_as(&s.neg, pk, s.neg.req_asym as u32, CTX_FIN, &s.th);
            s.th.extend_from_slice(&g);
            m.extend_from_slice(&g);
        }
        m.extend_from_slice(&s.mac(REQ));
        Some(m)
    }
    pub fn m_vendor(&self, r: &mut Rng, v: u8) -> Vec<u8> {
        let mut m = vec![v, VENDOR, 0, 0];
        p16(&mut m, r.below(12));
        let i = *r.pick(&[0usize, 1, 2, 4, 16, 255]);
        m.push(i as u8);
        m.extend_from_slice(&r.bytes(i));
        let n = *r.pick(&[0usize, 1, 5, 40, 300, 1000]);
        p16(&mut m, n);
        m.extend_from_slice(&r.bytes(n));
        m
    }
    /// a well-formed request with this code; also says whether its own fields are
    /// legal (None: they are)
    pub fn wellformed(&mut self, r: &mut Rng, c: u8) -> (Vec<u8>, V) {
        let n = self.neg();
        let v = n.ver;
        let slots: Vec<u8> = (0..8u8).filter(|i| self.sp.chains[*i as usize].is_some()).collect();
        let slot = if r.chance(1, 8) { r.below(8) as u8 } else { *r.pick(&slots) };
        let has = slots.contains(&slot);
        match c {
            GET_VERSION => (self.m_version(), serve(&["C12", "C14"])),
            GET_CAPABILITIES => {
                let v = if r.chance(1, 6) { *r.pick(&[0x10u8, 0x11, 0x12, 0x13]) } else { *r.pick(&self.sp.vers) };
                (self.m_caps(v), if self.sp.vers.contains(&v) { serve(&["C02", "C12"]) } else { refuse(&["C02", "C12"]) })
            }
            NEGOTIATE_ALGORITHMS => (self.m_algo(v), serve(&["C02", "C12"])),
            GET_DIGESTS => (vec![v, c, 0, 0], serve(&["C16"])),
            GET_CERTIFICATE => {
                let len = self.sp.chains[slot as usize].as_ref().map_or(0, |d| 4 + n.h() + d.len());
                let off = match r.below(6) {
                    0 => 0,
                    1 => len.saturating_sub(r.below(4)),
                    2 => len + r.below(3),
                    3 => *r.pick(&[0xffffusize, 0x8000, 4096, 0xfe00]),
                    _ => r.below(len + 1),
                };
                let want = match r.below(5) {
                    0 => 1 + r.below(16),
                    1 => 512,
                    2 => *r.pick(&[513usize, 1024, 0xffff, 0x8000]),
                    _ => 1 + r.below(600),
                };
                let mut m = vec![v, c, slot, 0];
                p16(&mut m, off);
                p16(&mut m, want);
                (m, if has && off < len { serve(&["C16"]) } else { refuse(&["C16"]) })
            }
            CHALLENGE => {
                let ty = *r.pick(&[0u8, 0, 1, 0xff]);
                let mut m = vec![v, c, slot, ty];
                m.extend_from_slice(&r.bytes(32));
                let e = if has { serve(&["C04", "C12"]) } else { refuse(&["C16", "C12"]) };
                (m, if ty != 0 && !self.meas_cap() { V::Any } else { e })
            }
            GET_MEASUREMENTS => {
                let k = self.sp.meas.len();
                let op = match r.below(5) {
                    0 => 0,
                    1 => 0xff,
                    2 => (k + 1 + r.below(100)).min(0xfe) as u8,
                    _ => (1 + r.below(k.max(1))) as u8,
                };
                let signed = r.bool() && self.mon.m.neg.asym != 0;
                let mut m = vec![v, c, signed as u8 | if r.chance(1, 3) { 2 } else { 0 }, op];
                let mut e = if op == 0 || op == 0xff || (op as usize) <= k { serve(&["C17"]) } else { refuse(&["C17"]) };
                if signed {
                    m.extend_from_slice(&r.bytes(32));
                    if v >= 0x11 {
                        m.push(slot);
                        if !has {
                            e = refuse(&["C17", "C16"]);
                        }
                    } else if !slots.contains(&0) {
                        e = refuse(&["C17"]);
                    }
                    if self.mon.m.conn == 3 && n.rsp_caps & S_MEAS_SIG == 0 {
                        e = refuse(&["C17", "C12"]);
                    }
                }
                (m, e)
            }
            KEY_EXCHANGE => {
                let ty = *r.pick(&[0u8, 0, 1, 0xff]);
                let sid = 1 + r.below(0xfffe) as u16;
                let m = self.m_kex(r, slot, ty, sid);
                let mut e = if has { serve(&["C06", "C11"]) } else { refuse(&["C06", "C16"]) };
                if ty != 0 && !self.meas_cap() {
                    e = V::Any;
                }
                if v >= 0x12 && n.opaque != 2 {
                    e = V::Any;
                }
                (m, e)
            }
            PSK_EXCHANGE => {
                let ty = *r.pick(&[0u8, 0, 1, 0xff]);
                let sid = 1 + r.below(0xfffe) as u16;
                let m = self.m_psk(r, ty, sid);
                let mut e = serve(&["C06", "C11"]);
                if ty != 0 && !self.meas_cap() {
                    e = V::Any;
                }
                (m, e)
            }
            HEARTBEAT => (vec![v, c, 0, 0], serve(&["C09"])),
            KEY_UPDATE => {
                let op = if r.chance(1, 5) { *r.pick(&[0u8, 4, 5, 0x80, 0xff]) } else { 1 + r.below(3) as u8 };
                (vec![v, c, op, r.u8()], if (1..=2).contains(&op) { serve(&["C10"]) } else if op == 3 { V::Any } else { refuse(&["C10"]) })
            }
            END_SESSION => (vec![v, c, r.u8() & 1, 0], serve(&["C11"])),
            VENDOR => (self.m_vendor(r, v), serve(&["C26"])),
            FINISH | PSK_FINISH => {
                // with made-up proofs; the real ones are built elsewhere
                let mut m = vec![v, c, 0, 0];
                m.extend_from_slice(&r.bytes(n.h()));
                (m, refuse(&["C06", "C12"]))
            }
            GET_ENCAP => (vec![v, c, 0, 0], V::Any),
            DELIVER_ENCAP => {
                let mut m = vec![v, c, 0, 0, v, 1, 0, 1];
                m.extend_from_slice(&r.bytes(n.h()));
                (m, V::Any)
            }
            RESPOND_IF_READY => (vec![v, c, 0x83, 1], refuse(&["C12"])),
            _ => {
                let mut m = vec![v, c, r.u8(), r.u8()];
                let k = r.below(40);
                m.extend_from_slice(&r.bytes(k));
                (m, refuse(&["C12"]))
            }
        }
    }
    fn meas_cap(&self) -> bool {
        self.mon.m.neg.rsp_caps & (S_MEAS_NOSIG | S_MEAS_SIG) != 0
    }
    /// is a request with this code legal here, whatever its fields
    pub fn allowed(&mut self, sess: Option<u32>, c: u8) -> V {
        let n = self.mon.m.neg.clone();
        let conn = self.mon.m.conn;
        let full = self.mon.m.sess.len() >= 4;
        let ok = serve(&[]);
        let no = refuse(&["C12"]);
        let b = |x: bool| if x { serve(&[]) } else { refuse(&["C12"]) };
        let hash = n.hash != 0;
        let signs = can_sign(n.ver);
        match sess {
            None => match c {
                GET_VERSION => ok,
                GET_CAPABILITIES => b(conn == 1),
                NEGOTIATE_ALGORITHMS => b(conn == 2),
                GET_DIGESTS | GET_CERTIFICATE => b(conn == 3 && n.rsp_caps & R_CERT != 0 && hash),
                CHALLENGE => {
                    if conn == 3 && n.rsp_caps & R_CHAL != 0 && hash && n.asym != 0 {
                        if signs { ok } else { V::Any }
                    } else {
                        no
                    }
                }
                GET_MEASUREMENTS => b(conn == 3 && self.meas_cap() && hash),
                KEY_EXCHANGE => {
                    if conn == 3 && n.ver >= 0x11 && n.cap(C_KEX) && hash && n.asym != 0 && n.dhe != 0 && n.aead != 0 {
                        if full {
                            refuse(&["C11"])
                        } else if signs {
                            ok
                        } else {
                            V::Any
                        }
                    } else {
                        refuse(&["C12", "C06"])
                    }
                }
                PSK_EXCHANGE => {
                    let p = n.req_caps & C_PSK != 0 && n.rsp_caps & (C_PSK | C_PSK_CTX) != 0;
                    if conn == 3 && n.ver >= 0x11 && p && hash && n.aead != 0 {
                        if full { refuse(&["C11"]) } else { ok }
                    } else {
                        refuse(&["C12", "C06"])
                    }
                }
                VENDOR => {
                    if conn == 3 { ok } else { V::Any }
                }
                FINISH => {
                    let last = self.mon.m.last;
                    match last.and_then(|i| self.mon.m.s(i)) {
                        Some(s) if s.hitc && !s.estab && !s.psk => V::Any,
                        _ => refuse(&["C12", "C06"]),
                    }
                }
                _ => no,
            },
            Some(i) => {
                let s = match self.mon.m.s(i) {
                    Some(s) => s.clone(),
                    None => return refuse(&["C09", "C11"]),
                };
                if !s.estab {
                    if s.hitc {
                        return refuse(&["C06", "C12"]);
                    }
                    match c {
                        VENDOR => ok,
                        FINISH | PSK_FINISH => refuse(&["C06"]),
                        GET_ENCAP | DELIVER_ENCAP => V::Any,
                        _ => refuse(&["C12", "C06"]),
                    }
                } else {
                    match c {
                        GET_DIGESTS | GET_CERTIFICATE => b(n.rsp_caps & R_CERT != 0 && hash),
                        GET_MEASUREMENTS => b(self.meas_cap() && hash),
                        HEARTBEAT => b(n.cap(C_HBEAT)),
                        KEY_UPDATE => {
                            if n.cap(C_KEYUPD) { ok } else { refuse(&["C12", "C10"]) }
                        }
                        END_SESSION | VENDOR => ok,
                        FINISH | PSK_FINISH => refuse(&["C12", "C06"]),
                        _ => no,
                    }
                }
            }
        }
    }
    fn both(a: V, b: V) -> V {
        match (a, b) {
            (V::Refuse(mut x), V::Refuse(y)) => {
                x.extend(y);
                V::Refuse(x)
            }
            (V::Refuse(x), _) | (_, V::Refuse(x)) => V::Refuse(x),
            (V::Any, _) | (_, V::Any) => V::Any,
            (V::Serve(mut x), V::Serve(y)) => {
                x.extend(y);
                V::Serve(x)
            }
        }
    }
    fn signs_needed(&self, m: &[u8]) -> bool {
        m.len() > 2 && m[1] == GET_MEASUREMENTS && m[2] & 1 == 1
    }
    fn sid(&self, r: &mut Rng) -> Option<u32> {
        if self.mon.m.sess.is_empty() {
            None
        } else {
            Some(r.pick(&self.mon.m.sess).id)
        }
    }
    /// room in the transcript buffers of this build
    fn roomy(&mut self, sess: Option<u32>, c: u8) -> bool {
        if HASHED {
            return true;
        }
        match c {
            GET_CERTIFICATE | CHALLENGE if sess.is_none() => self.mon.m.b.len() < 3500 && self.mon.alts_b() < 3500,
            GET_MEASUREMENTS => match sess {
                None => self.mon.m.m_hi < 1200,
                Some(i) => self.mon.m.s(i).map_or(true, |s| s.m_hi < 1200),
            },
            _ => true,
        }
    }

    // ---------------------------------------------------------------- steps
    /// any well-formed request anywhere
    pub fn random_request(&mut self, r: &mut Rng) {
        let sess = if r.chance(3, 5) { self.sid(r) } else { None };
        let est = sess.and_then(|i| self.mon.m.s(i)).map_or(false, |s| s.estab);
        let likely: &[u8] = match (sess.is_some(), est) {
            (false, _) => &[GET_DIGESTS, GET_CERTIFICATE, GET_CERTIFICATE, CHALLENGE, GET_MEASUREMENTS, GET_MEASUREMENTS, KEY_EXCHANGE, PSK_EXCHANGE, VENDOR],
            (true, false) => &[VENDOR, HEARTBEAT, KEY_UPDATE, END_SESSION, GET_MEASUREMENTS],
            (true, true) => &[GET_DIGESTS, GET_CERTIFICATE, GET_MEASUREMENTS, HEARTBEAT, KEY_UPDATE, KEY_UPDATE, END_SESSION, VENDOR, VENDOR],
        };
        let all = [
            GET_DIGESTS, GET_CERTIFICATE, CHALLENGE, GET_CAPABILITIES, NEGOTIATE_ALGORITHMS, GET_MEASUREMENTS, KEY_EXCHANGE,
            FINISH, PSK_EXCHANGE, PSK_FINISH, HEARTBEAT, KEY_UPDATE, GET_ENCAP, DELIVER_ENCAP, END_SESSION, VENDOR,
            RESPOND_IF_READY, 0x85, 0xED, 0xE5, 0x00, DIGESTS, VERSION, FINISH_RSP, PSK_FINISH_RSP, KEY_EXCHANGE_RSP, ERROR, 0x7E, END_SESSION_ACK, CAPABILITIES, ALGORITHMS,
        ];
        let c = if r.chance(2, 3) {
            *r.pick(likely)
        } else if r.chance(1, 12) && sess.is_none() {
            GET_VERSION
        } else {
            *r.pick(&all)
        };
        self.request(r, sess, c);
    }
    pub fn request(&mut self, r: &mut Rng, sess: Option<u32>, c: u8) -> Option<Vec<u8>> {
        if !self.roomy(sess, c) {
            return self.request(r, sess, GET_DIGESTS);
        }
        if (c == GET_ENCAP || c == DELIVER_ENCAP) && sess.is_some() && self.mon.m.s(sess.unwrap()).map_or(false, |s| !s.estab) {
            // the encapsulated flow is run as a whole
            return None;
        }
        if c == GET_VERSION && sess.is_none() && r.bool() {
            // somebody else connects
            self.q = successor(r, &self.q, &self.sp, false);
            let q = self.q.clone();
            q.install(Role::Req);
            self.mon.m.endpoints(Some(&q), None);
            *self.dev.entry("connections by another requester").or_insert(0) += 1;
        }
        let (m, own) = self.wellformed(r, c);
        let place = self.allowed(sess, c);
        let mut v = Pup::both(place, own);
        if self.signs_needed(&m) && !can_sign(self.mon.m.neg.ver) && matches!(v, V::Serve(_)) {
            v = V::Any;
        }
        if c == FINISH && v == V::Any {
            v = refuse(&["C06"]);
        }
        if !matches!(v, V::Serve(_)) {
            *self.dev.entry("request illegal here").or_insert(0) += 1;
        }
        let what = format!("{:02x}", c);
        self.ask(sess, &m, false, v, &what)
    }
    /// next step of the connection
    pub fn connect(&mut self, r: &mut Rng) {
        match self.mon.m.conn {
            0 => {
                let m = self.m_version();
                self.ask(None, &m, false, serve(&["C12", "C02"]), "GET_VERSION");
            }
            1 => {
                let v = if r.chance(2, 3) { *self.sp.vers.iter().max().unwrap() } else { *r.pick(&self.sp.vers) };
                let m = self.m_caps(v);
                self.ask(None, &m, false, serve(&["C12", "C02"]), "GET_CAPABILITIES");
            }
            2 => {
                let m = self.m_algo(self.mon.m.neg.ver);
                self.ask(None, &m, false, serve(&["C12", "C02"]), "NEGOTIATE_ALGORITHMS");
            }
            _ => {}
        }
    }
    /// a genuine handshake completion
    pub fn finish(&mut self, r: &mut Rng, id: u32) {
        let s = match self.mon.m.s(id) {
            Some(s) if !s.estab => s.clone(),
            _ => return,
        };
        if s.psk {
            let m = self.m_finish(id, false, &[]).unwrap();
            self.ask(Some(id), &m, false, serve(&["C06", "C12"]), "PSK_FINISH");
            return;
        }
        if s.mut_req != 0 {
            if !self.mutual_done.contains(&id) {
                return;
            }
            let pk = seed_pk(&self.q.leaf);
            let m = self.m_finish(id, true, &pk).unwrap();
            let v = if s.neg.req_asym == 0 {
                refuse(&["C22", "C06"])
            } else if can_sign(s.neg.ver) {
                serve(&["C22", "C06"])
            } else {
                V::Any
            };
            self.ask(Some(id), &m, false, v, "FINISH signed");
            return;
        }
        let m = self.m_finish(id, false, &[]).unwrap();
        if s.hitc {
            if self.mon.m.last == Some(id) {
                self.ask(None, &m, false, serve(&["C06", "C12"]), "FINISH clear");
            } else {
                self.ask(None, &m, false, refuse(&["C06"]), "FINISH clear of an earlier session");
            }
        } else {
            self.ask(Some(id), &m, false, serve(&["C06", "C12"]), "FINISH");
        }
        let _ = r;
    }
    /// a finish whose proofs are wrong in some way
    pub fn bad_finish(&mut self, r: &mut Rng, id: u32) {
        let s = match self.mon.m.s(id) {
            Some(s) if !s.estab => s.clone(),
            _ => return,
        };
        if s.hitc && self.mon.m.last != Some(id) {
            return;
        }
        let n = s.neg.clone();
        let h = n.h();
        let pk = seed_pk(&self.q.leaf);
        let signed = s.mut_req != 0 && r.chance(3, 4);
        let mut m = match self.m_finish(id, signed, &pk) {
            Some(m) => m,
            None => return,
        };
        let mut place = if s.hitc { None } else { Some(id) };
        let l = m.len();
        let mut what = "finish with a wrong HMAC";
        let k = r.below(13);
        match k {
            12 => {
                let other = *r.pick(&[0x10u8, 0x11, 0x12, 0x13, 0x00]);
                if other == n.ver {
                    return;
                }
                m = self.m_finish_v(id, signed, &pk, Some(other)).unwrap();
                what = "finish of another version, its proofs over what was sent";
            }
            0 => {
                let i = l - h + r.below(h);
                m[i] ^= 1 << r.below(8);
            }
            1 => {
                // the last or first byte only
                let i = if r.bool() { l - 1 } else { l - h };
                m[i] ^= 0x80;
            }
            2 => {
                for x in m[l - h..].iter_mut() {
                    *x = 0;
                }
            }
            3 => {
                // the responder's own MAC
                let mac = s.mac(RSP);
                m[l - h..].copy_from_slice(&mac);
                what = "finish with the responder's HMAC";
            }
            4 => {
                // proof of another transcript
                let mut o = s.clone();
                o.th.truncate(o.th.len().saturating_sub(1 + r.below(40)));
                let mac = o.mac(REQ);
                m[l - h..].copy_from_slice(&mac);
                what = "finish over a shortened transcript";
            }
            5 => {
                // of another session
                let o = self.mon.m.sess.iter().find(|x| x.id != id && !x.estab && x.neg.h() == h).cloned();
                match o {
                    Some(o) => {
                        let x = self.m_finish(o.id, signed, &pk).unwrap_or_default();
                        if x.len() != m.len() {
                            return;
                        }
                        m = x;
                        what = "finish of another session";
                    }
                    None => {
                        m[l - 1] ^= 1;
                    }
                }
            }
            6 if self.t() == Trans::Mctp => {
                m.truncate(l - 1 - r.below(h));
                what = "truncated finish";
            }
            7 if !s.psk => {
                // signature flag or bytes that do not belong
                if s.mut_req == 0 {
                    m = self.m_finish(id, true, &pk).unwrap();
                    what = "signed finish without mutual authentication";
                } else {
                    m = self.m_finish(id, false, &pk).unwrap();
                    what = "unsigned finish although mutual authentication was requested";
                }
            }
            8 if s.mut_req != 0 => {
                let other = seed_pk(b"somebody else");
                m = self.m_finish(id, true, &other).unwrap();
                what = "finish signed by another key";
            }
            9 if s.mut_req != 0 && signed => {
                let i = 4 + r.below(n.req_sig());
                m[i] ^= 1 << r.below(8);
                // keep the HMAC right for these bytes
                let mut o = s.clone();
                if let Some(c) = self.q.chains[0].as_ref() {
                    let d = n.digest(&fmt_chain(h, c));
                    o.th.extend_from_slice(&d);
                }
                o.th.extend_from_slice(&m[..4 + n.req_sig()]);
                let mac = o.mac(REQ);
                let e = m.len() - h;
                m[e..].copy_from_slice(&mac);
                what = "finish with a damaged signature and a right HMAC";
            }
            10 => {
                // the other kind of finish
                m[1] = if s.psk { FINISH } else { PSK_FINISH };
                what = "finish of the other kind";
            }
            11 => {
                // right proof, wrong channel
                if place.is_some() {
                    place = None;
                    what = "finish in the clear";
                } else {
                    place = Some(id);
                    what = "finish in a record although the handshake is in the clear";
                }
            }
            _ => {
                m[l - 1] ^= 1;
            }
        }
        if k == 11 && place.is_none() && s.psk {
            // PSK_FINISH in the clear
        }
        *self.dev.entry("wrong finish").or_insert(0) += 1;
        let mut tags: Vec<&'static str> = vec!["C06", "C12"];
        if s.mut_req != 0 {
            tags.push("C22");
        }
        self.ask(place, &m, false, V::Refuse(tags), what);
    }
    /// a request that is well-formed and legal but for one thing
    pub fn damaged(&mut self, r: &mut Rng) {
        let sess = if r.bool() { self.sid(r) } else { None };
        let est = sess.and_then(|i| self.mon.m.s(i)).map_or(false, |s| s.estab);
        if sess.is_some() && !est {
            return;
        }
        let codes: &[u8] = if self.mon.m.conn < 3 {
            &[GET_VERSION, GET_CAPABILITIES, NEGOTIATE_ALGORITHMS]
        } else if sess.is_some() {
            &[GET_DIGESTS, GET_CERTIFICATE, GET_MEASUREMENTS, HEARTBEAT, KEY_UPDATE, END_SESSION, VENDOR]
        } else {
            &[GET_DIGESTS, GET_CERTIFICATE, CHALLENGE, GET_MEASUREMENTS, KEY_EXCHANGE, PSK_EXCHANGE, VENDOR]
        };
        let c = *r.pick(codes);
        if !self.roomy(sess, c) {
            return;
        }
        let (mut m, own) = self.wellformed(r, c);
        let l = m.len();
        let what;
        let mut v = refuse(&["C12"]);
        match r.below(4) {
            0 if self.mon.m.conn == 3 => {
                let other = *r.pick(&[0x10u8, 0x11, 0x12, 0x13, 0x20, 0x00, 0xff]);
                if other == m[0] {
                    return;
                }
                m[0] = other;
                what = "request of another version";
                v = refuse(&["C12", "C02"]);
            }
            1 if self.t() == Trans::Mctp && l > 2 => {
                m.truncate(if r.bool() { l - 1 } else { 1 + r.below(l - 1) });
                what = "truncated request";
                if m.len() < l && c == GET_VERSION || [GET_DIGESTS, HEARTBEAT, END_SESSION].contains(&c) && m.len() >= 2 {
                    // only reserved bytes may be missing
                    return;
                }
                if c == VENDOR || c == GET_MEASUREMENTS {
                    let n = self.neg();
                    if req_len(&n, &m).is_some() {
                        return;
                    }
                }
                v = refuse(&["C12", "C13", "C18"]);
                if c == VENDOR {
                    v = refuse(&["C26", "C18"]);
                }
            }
            2 => match c {
                CHALLENGE | KEY_EXCHANGE | GET_CERTIFICATE => {
                    let i = if c == KEY_EXCHANGE { 3 } else { 2 };
                    m[i] = *r.pick(&[8u8, 9, 0x0f, 0x80, 0x7f]);
                    if m[i] & 0xf < 8 {
                        return;
                    }
                    what = "slot that does not exist";
                    v = refuse(&["C16", "C12"]);
                }
                KEY_UPDATE => {
                    m[2] = *r.pick(&[0u8, 4, 7, 0xff]);
                    what = "unknown key update";
                    v = refuse(&["C10"]);
                }
                VENDOR => {
                    let i = 7 + m[6] as usize;
                    let n = u16le(&m, i).unwrap();
                    let bad = *r.pick(&[n + 4, 0xffff, 5000, 4097]);
                    m[i] = bad as u8;
                    m[i + 1] = (bad >> 8) as u8;
                    what = "vendor payload length beyond the message";
                    v = refuse(&["C26", "C18"]);
                }
                PSK_EXCHANGE => {
                    let (i, x) = *r.pick(&[(6usize, 33usize), (6, 0xffff), (8, 65), (8, 0x8000), (10, 1025), (10, 0xfff0)]);
                    m[i] = x as u8;
                    m[i + 1] = (x >> 8) as u8;
                    m.resize(l + 64, 0);
                    what = "PSK_EXCHANGE with an over-long field";
                    v = refuse(&["C12", "C06", "C18"]);
                }
                _ => return,
            },
            3 => match c {
                CHALLENGE => {
                    m[3] = *r.pick(&[2u8, 0x7f, 0xfe, 0x80]);
                    what = "unknown summary type";
                    v = refuse(&["C17", "C12"]);
                }
                KEY_EXCHANGE | PSK_EXCHANGE => {
                    m[2] = *r.pick(&[2u8, 0x7f, 0xfe, 0x80]);
                    what = "unknown summary type";
                    v = refuse(&["C17", "C12", "C06"]);
                }
                GET_CAPABILITIES => {
                    if m[0] < 0x11 {
                        return;
                    }
                    let f = u32le(&m, 8).unwrap();
                    let k = r.below(9);
                    let g = match k {
                        0 => f | 0xC00,
                        1 => (f | C_KEX) & !C_MAC,
                        2 => (f & !(C_KEX | C_PSK)) | C_ENCRYPT,
                        3 => (f & !(C_KEX | C_PSK | C_MAC | C_ENCRYPT | C_HITC | C_HBEAT)) | C_KEYUPD,
                        4 => (f & !(C_KEX)) | C_PSK | C_MAC | C_HITC,
                        5 => f | R_CERT | 0x10000,
                        6 => (f & !(R_CERT | 0x10000)) | C_MUT,
                        7 if m[0] == 0x11 => (f | C_MUT | R_CERT | R_CHAL) & !C_ENCAP,
                        _ => f,
                    };
                    m[8..12].copy_from_slice(&g.to_le_bytes());
                    if g == f || k >= 7 {
                        if m[0] < 0x12 {
                            if g == f {
                                return;
                            }
                        } else {
                            let (d, x) = *r.pick(&[(41u32, 4096u32), (0, 0), (4096, 4095), (42, 41), (100, 0)]);
                            m[12..16].copy_from_slice(&d.to_le_bytes());
                            m[16..20].copy_from_slice(&x.to_le_bytes());
                        }
                    }
                    what = "illegal capabilities";
                    v = refuse(&["C02"]);
                }
                NEGOTIATE_ALGORITHMS => {
                    let x = *r.pick(&[l + 4, l - 1, 0, 0xffff, 200]);
                    m[4] = x as u8;
                    m[5] = (x >> 8) as u8;
                    if self.t() == Trans::Doe && r.bool() {
                        return;
                    }
                    what = "NEGOTIATE_ALGORITHMS with a wrong length";
                    v = refuse(&["C02", "C12"]);
                }
                GET_VERSION => {
                    m[0] = *r.pick(&[0x11u8, 0x12, 0x00, 0x20]);
                    what = "GET_VERSION of another version";
                    v = refuse(&["C12", "C02"]);
                }
                KEY_UPDATE => {
                    m[2] = 0;
                    what = "unknown key update";
                    v = refuse(&["C10"]);
                }
                _ => return,
            },
            _ => return,
        }
        let place = self.allowed(sess, c);
        let _ = own;
        *self.dev.entry("damaged request").or_insert(0) += 1;
        let v = match (v, place) {
            (V::Refuse(mut a), V::Refuse(b)) => {
                a.extend(b);
                V::Refuse(a)
            }
            (x, _) => x,
        };
        let what = format!("{} {:02x}", what, c);
        self.ask(sess, &m, false, v, &what);
    }
    /// algorithms offered as something else
    pub fn odd_offer(&mut self, r: &mut Rng) {
        if self.mon.m.conn != 2 {
            return;
        }
        let keep = self.q.clone();
        for _ in 0..r.range(1, 3) {
            match r.below(8) {
                0 => self.q.hash = r.below(8) as u32,
                1 => self.q.asym = r.below(256) as u32,
                2 => self.q.dhe = (r.below(4) << 3) as u16,
                3 => self.q.aead = r.below(8) as u16,
                4 => self.q.req_asym = r.below(256) as u16,
                5 => self.q.ks = r.below(2) as u16,
                6 => self.q.opaque = r.below(4) as u8,
                _ => self.q.mspec = r.below(2) as u8,
            }
        }
        let m = self.m_algo(self.mon.m.neg.ver);
        self.q = keep;
        *self.dev.entry("unusual algorithm offer").or_insert(0) += 1;
        self.ask(None, &m, false, V::Any, "odd algorithms");
    }
    /// application data
    pub fn app(&mut self, r: &mut Rng) {
        if self.t() != Trans::Mctp {
            return;
        }
        let id = match self.sid(r) {
            Some(i) => i,
            None => return,
        };
        let est = self.mon.m.s(id).unwrap().estab;
        let n = *r.pick(&[0usize, 1, 2, 40, 900]);
        let mut d = r.bytes(n);
        if n >= 2 && r.bool() {
            d[0] = 0x12;
            d[1] = *r.pick(&[END_SESSION, FINISH, KEY_UPDATE, GET_VERSION, HEARTBEAT]);
        }
        if !est {
            *self.dev.entry("application data before the session is established").or_insert(0) += 1;
        }
        let v = if est { serve(&["C09"]) } else { refuse(&["C06", "C12"]) };
        self.ask(Some(id), &d, true, v, "app data");
    }
    /// records that must be ignored
    pub fn bad_record(&mut self, r: &mut Rng) {
        let id = match self.sid(r) {
            Some(i) => i,
            None => return,
        };
        let t = self.t();
        let s = self.mon.m.s(id).unwrap().clone();
        let n = s.neg.clone();
        let app = s.estab && t == Trans::Mctp && r.bool();
        let payload: Vec<u8> = if app {
            let k = r.range(0, 40);
            r.bytes(k)
        } else if !s.estab {
            match self.m_finish(id, s.mut_req != 0, &seed_pk(&self.q.leaf)) {
                Some(m) if r.bool() => m,
                _ => self.m_vendor(r, n.ver),
            }
        } else {
            match r.below(5) {
                0 => vec![n.ver, KEY_UPDATE, 1, 7],
                1 => vec![n.ver, KEY_UPDATE, 2, 7],
                2 => vec![n.ver, END_SESSION, 0, 0],
                3 => vec![n.ver, HEARTBEAT, 0, 0],
                _ => self.m_vendor(r, n.ver),
            }
        };
        let inner = app_wrap(t, &payload, app);
        let mut dir = if s.estab { s.app[REQ].clone() } else { s.hs[REQ].clone() };
        let al = if t == Trans::Mctp { 8 } else { 6 };
        let secured = |b: &[u8]| frame(t, Kind::Secured, b);
        let good = seal_with(t, id, &dir, &inner);
        let k = r.below(18);
        if k >= 16 {
            return self.blank(r, id);
        }
        let (f, what): (Vec<u8>, &'static str) = match k {
            0 | 1 => {
                let mut b = good.clone();
                let i = al + r.below(b.len() - al);
                b[i] ^= 1 << r.below(8);
                (secured(&b), "altered record")
            }
            2 => {
                let mut b = good.clone();
                let i = r.below(al);
                b[i] ^= 1 << r.below(8);
                (secured(&b), "record with an altered header")
            }
            3 => {
                let mut b = good.clone();
                let l = b.len();
                b.truncate(l - 1 - r.below(l - 1));
                (secured(&b), "truncated record")
            }
            4 => {
                let old: Vec<&(u32, Vec<u8>)> = self.sent.iter().collect();
                if old.is_empty() {
                    return;
                }
                let x = if r.bool() { old[old.len() - 1] } else { *r.pick(&old) };
                // a clear one is not a record
                (x.1.clone(), "replayed record")
            }
            5 => {
                dir.seq += 1 + r.below(3) as u64;
                (secured(&seal_with(t, id, &dir, &inner)), "record ahead of its turn")
            }
            6 => {
                if dir.seq == 0 {
                    return;
                }
                dir.seq -= 1;
                (secured(&seal_with(t, id, &dir, &inner)), "record with a used sequence number")
            }
            7 => {
                let x: Vec<Dir> = self.old_keys.iter().filter(|x| x.0 == id).map(|x| x.1.clone()).collect();
                if x.is_empty() {
                    return;
                }
                let mut d = r.pick(&x).clone();
                if r.bool() {
                    d.seq = dir.seq;
                }
                (secured(&seal_with(t, id, &d, &inner)), "record under a superseded key")
            }
            8 => {
                // of another session
                let o = self.mon.m.sess.iter().find(|x| x.id != id).cloned().or_else(|| self.grave.last().cloned());
                match o {
                    Some(mut o) => {
                        let mut d = o.dir(REQ).clone();
                        if r.bool() {
                            d.seq = dir.seq;
                        }
                        (secured(&seal_with(t, id, &d, &inner)), "record under another session's key")
                    }
                    None => return,
                }
            }
            9 => {
                let mut s2 = s.clone();
                let mut d = s2.dir(RSP).clone();
                if r.bool() {
                    d.seq = dir.seq;
                }
                (secured(&seal_with(t, id, &d, &inner)), "record under the response key")
            }
            10 => {
                let x: Vec<Vec<u8>> = self.got.iter().filter(|f| matches!(unframe(t, f), Some((Kind::Secured, _)))).cloned().collect();
                if x.is_empty() {
                    return;
                }
                (r.pick(&x).clone(), "reflected record")
            }
            11 => {
                let other = *r.pick(&[0u32, 1, 0xffff_ffff, id ^ 1, id ^ 0x1_0000, id & 0xffff, id & 0xffff_0000]);
                if other == id || self.mon.m.sess.iter().any(|s| s.id == other) {
                    return;
                }
                if r.bool() {
                    let h = n.h();
                    let z = Dir { secret: vec![0; h], key: vec![0; aead_key_len(n.aead)], iv: vec![0; 12], seq: 0 };
                    (secured(&seal_with(t, other, &z, &inner)), "record for a session that does not exist, zero key")
                } else {
                    (secured(&seal_with(t, other, &dir, &inner)), "record for a session that does not exist")
                }
            }
            12 => {
                let d = if s.estab { s.hs[REQ].clone() } else { return };
                let mut d = d;
                if r.bool() {
                    d.seq = dir.seq;
                }
                (secured(&seal_with(t, id, &d, &inner)), "record under the handshake key after the handshake")
            }
            13 => {
                let g = match self.grave.last() {
                    Some(g) => g.clone(),
                    None => return,
                };
                if self.mon.m.s(g.id).is_some() {
                    return;
                }
                let mut g2 = g.clone();
                let d = g2.dir(REQ).clone();
                (secured(&seal_with(t, g.id, &d, &inner)), "record for a session that ended")
            }
            14 => {
                // the application length does not fit
                let mut aad = id.to_le_bytes().to_vec();
                if t == Trans::Mctp {
                    p16(&mut aad, dir.seq as u16 as usize);
                }
                let mut pt = vec![];
                p16(&mut pt, inner.len());
                pt.extend_from_slice(&inner);
                let l = pt.len() + 16;
                let bad = *r.pick(&[l - 1, l + 1, 0, 1, 15, 16, 17, 0xffff]);
                p16(&mut aad, bad);
                let (ct, tag) = aead_seal(&dir.key, &dir.nonce(), &aad, &pt);
                let mut b = aad;
                b.extend_from_slice(&ct);
                b.extend_from_slice(&tag);
                if t == Trans::Doe && bad == l - 1 {
                    return;
                }
                (secured(&b), "record with a wrong length")
            }
            _ => {
                let mut b = good.clone();
                let l = b.len();
                for x in b[l - 16..].iter_mut() {
                    *x = 0;
                }
                (secured(&b), "record with an empty tag")
            }
        };
        if f == secured(&good) {
            return;
        }
        *self.dev.entry("record to ignore").or_insert(0) += 1;
        let mut tags: Vec<&'static str> = vec!["C09"];
        match k {
            7 => tags.push("C10"),
            8 | 11 | 13 => tags.push("C11"),
            12 => tags.extend(["C10", "C06"]),
            _ => {}
        }
        // a record of a session whose handshake is in the clear is dropped as well
        self.reject(&f, &tags, what);
    }
    /// the peer's next record, with nothing in it: ignored, but its number is used up
    fn blank(&mut self, r: &mut Rng, id: u32) {
        let t = self.t();
        let d = match self.mon.m.s(id) {
            Some(s) => s.clone().dir(REQ).clone(),
            None => return,
        };
        let f = frame(t, Kind::Secured, &seal_with(t, id, &d, &[]));
        *self.dev.entry("authentic record without a message").or_insert(0) += 1;
        self.reject(&f, &["C09"], "record without a message");
        self.sent.push((id, f.clone()));
        if let Some(s) = self.mon.m.s(id) {
            s.dir(REQ).seq += 1;
        }
        if r.bool() {
            self.reject(&f, &["C09"], "record without a message, again");
        }
        let s = self.mon.m.s(id).unwrap().clone();
        if s.estab {
            let m = self.m_vendor(r, s.neg.ver);
            let v = match self.allowed(Some(id), VENDOR) {
                V::Serve(_) => serve(&["C09"]),
                v => v,
            };
            self.ask(Some(id), &m, false, v, "VENDOR after a record without a message");
        }
    }
    /// the encapsulated exchange of mutual authentication
    pub fn mutual(&mut self, r: &mut Rng, id: u32, honest: bool) {
        let s = match self.mon.m.s(id) {
            Some(s) if !s.estab && s.mut_req != 0 && !s.hitc && !s.psk => s.clone(),
            _ => return,
        };
        let n = s.neg.clone();
        let h = n.h();
        let data = self.q.chains[0].clone().unwrap_or_default();
        let mut chain = fmt_chain(h, &data);
        let honest = honest && !self.near_root;
        let bad = if honest {
            0
        } else if self.near_root {
            10
        } else {
            r.range(1, 9)
        };
        if bad == 6 && self.encap_open {
            // continues the unfinished one
            return;
        }
        self.encap_open = true;
        let mut what = "";
        match bad {
            1 => {
                // another identity under another root
                let d = make_chain(&ChainSpec { root: b"stranger".to_vec(), inter: 1, leaf: b"stranger leaf".to_vec(), size: 0, salt: 1 });
                chain = fmt_chain(h, &d);
                what = "chain of another root";
            }
            2 => {
                let i = 4 + r.below(h);
                chain[i] ^= 1;
                what = "chain with a wrong root hash";
            }
            3 => {
                let i = chain.len() - 1 - r.below(30);
                chain[i] ^= 1;
                what = "chain with a broken signature";
            }
            4 => {
                // right root, but the leaf is not issued by it
                let d = make_chain(&ChainSpec { root: b"x".to_vec(), inter: 0, leaf: b"evil".to_vec(), size: 0, salt: 3 });
                let v = split_chain(&data).unwrap();
                let w = split_chain(&d).unwrap();
                let mut x = data[v[0].0..v[0].1].to_vec();
                let l = w.last().unwrap();
                x.extend_from_slice(&d[l.0..l.1]);
                chain = fmt_chain(h, &x);
                what = "leaf not issued by the root";
            }
            5 => {
                chain.truncate(chain.len() - r.range(1, 40));
                what = "incomplete chain";
            }
            6 => what = "certificate without digests",
            7 => what = "certificate of another slot",
            8 => what = "changing remainder",
            9 => what = "wrong message",
            10 => what = "chain of a slightly different root",
            _ => {}
        }
        if !honest {
            *self.dev.entry("wrong encapsulated exchange").or_insert(0) += 1;
        }
        let sid = Some(id);
        let ok_tags = ["C22"];
        let rep = match self.ask(sid, &[n.ver, GET_ENCAP, 0, 0], false, serve(&ok_tags), "GET_ENCAP") {
            Some(m) => m,
            None => return,
        };
        if rep.len() < 8 || rep[1] != ENCAP_REQUEST || rep[4..6] != [n.ver, GET_DIGESTS] {
            self.find(&["C22", "C13"], format!("encapsulated request is {}", hexs(&rep)));
            self.dead = true;
            return;
        }
        let rid = rep[2];
        let mut next: (usize, usize) = (0, 0);
        if bad != 6 {
            let mut m = vec![n.ver, DELIVER_ENCAP, rid, 0, n.ver, DIGESTS, 0, 1];
            m.extend_from_slice(&n.digest(&chain));
            if bad == 9 {
                m[5] = *r.pick(&[CHALLENGE_AUTH, VERSION, FINISH_RSP, 0x81, 0]);
                let rep = self.ask(sid, &m, false, V::Any, "DELIVER odd");
                self.encap_refused(rep, &m);
                return;
            }
            let rep = match self.ask(sid, &m, false, serve(&ok_tags), "DELIVER digests") {
                Some(x) => x,
                None => return,
            };
            next = match self.encap_get_cert(&n, &rep) {
                Some(x) => x,
                None => return,
            };
            if next.0 != 0 {
                self.find(&["C22"], format!("first encapsulated GET_CERTIFICATE starts at {}", next.0));
            }
        }
        let total = chain.len();
        let mut off = 0usize;
        let mut rounds = 0;
        loop {
            rounds += 1;
            if rounds > 5000 || self.dead {
                return;
            }
            let want = if bad == 6 && off == 0 { 200 } else { next.1 };
            let want = if honest && r.chance(1, 4) || bad == 8 { 1 + r.below(want.min(512).min(total / 2 + 1)) } else { want };
            let por = want.min(512).min(total - off);
            let mut rem = total - off - por;
            let mut slot = 0u8;
            if bad == 7 {
                slot = 1 + r.below(7) as u8;
            }
            if bad == 8 && off > 0 {
                rem += 1;
            }
            let mut m = vec![n.ver, DELIVER_ENCAP, rid, 0, n.ver, CERTIFICATE, slot, 0];
            p16(&mut m, por);
            p16(&mut m, rem);
            m.extend_from_slice(&chain[off..off + por]);
            let last = rem == 0;
            if honest {
                let rep = match self.ask(sid, &m, false, serve(&ok_tags), "DELIVER certificate") {
                    Some(x) => x,
                    None => return,
                };
                off += por;
                if last {
                    let want: Vec<u8> = if n.ver >= 0x12 {
                        vec![n.ver, ENCAP_ACK, rid, 2, rid, 0, 0, 0, 0]
                    } else {
                        vec![n.ver, ENCAP_ACK, rid, 2, 0]
                    };
                    if rep.len() < want.len() || rep[..want.len()] != want[..] {
                        self.find(&["C22", "C13"], format!("encapsulated exchange ends with {}, not {}", hexs(&rep), hexs(&want)));
                    }
                    self.mutual_ok = true;
                    self.encap_open = false;
                    self.mutual_done.push(id);
                    let got = self.s.rs().common.peer_info.peer_cert_chain[0].as_ref().map(|c| c.data[..c.data_size as usize].to_vec());
                    if got.as_ref() != Some(&chain) {
                        self.find(&["C22"], "the responder does not hold the chain the requester sent".into());
                    }
                    return;
                }
                next = match self.encap_get_cert(&n, &rep) {
                    Some(x) => x,
                    None => return,
                };
                if next.0 != off {
                    self.find(&["C22", "C16"], format!("encapsulated GET_CERTIFICATE continues at {} after {} bytes", next.0, off));
                    self.dead = true;
                    return;
                }
            } else {
                let must = match bad {
                    6 | 7 => true,
                    8 => off > 0,
                    _ => last,
                };
                let rep = self.ask(sid, &m, false, V::Any, &format!("DELIVER certificate ({})", what));
                let rep = match rep {
                    Some(x) => x,
                    None => return,
                };
                if must {
                    self.encap_refused(Some(rep), &m);
                    break;
                }
                if rep.len() > 1 && rep[1] == ERROR {
                    break;
                }
                off += por;
                match self.encap_get_cert(&n, &rep) {
                    Some(x) => next = x,
                    None => return,
                }
            }
        }
        if self.dead {
            return;
        }
        // nobody was authenticated: no finish can be right
        let pk = match bad {
            1 => seed_pk(b"stranger leaf"),
            4 => seed_pk(b"evil"),
            _ => seed_pk(&self.q.leaf),
        };
        if ![1, 4].contains(&bad) && self.mutual_ok {
            return;
        }
        let keep = self.q.chains[0].clone();
        if (bad == 1 || bad == 4) && chain.len() > 4 + h {
            self.q.chains[0] = Some(chain[4 + h..].to_vec());
        }
        let m = self.m_finish(id, true, &pk);
        self.q.chains[0] = keep;
        if let Some(m) = m {
            self.ask(sid, &m, false, refuse(&["C22", "C06"]), "FINISH after a refused certificate");
        }
    }
    fn encap_refused(&mut self, rep: Option<Vec<u8>>, m: &[u8]) {
        if let Some(rep) = rep {
            if rep.len() < 4 || rep[1] != ERROR {
                self.find(&["C22", "C13"], format!("encapsulated response {} was answered with {}", hexs(m), hexs(&rep)));
                self.dead = true;
            }
        }
    }
    /// acknowledgement with the next GET_CERTIFICATE: (offset, length)
    fn encap_get_cert(&mut self, n: &Neg, rep: &[u8]) -> Option<(usize, usize)> {
        let o = if n.ver >= 0x12 { 8 } else { 4 };
        if rep.len() < o + 8 || rep[1] != ENCAP_ACK || rep[3] != 1 || rep[o..o + 3] != [n.ver, GET_CERTIFICATE, 0] {
            self.find(&["C22", "C13"], format!("encapsulated response answered with {}", hexs(rep)));
            self.dead = true;
            return None;
        }
        let (a, b) = (u16le(rep, o + 4)?, u16le(rep, o + 6)?);
        if b == 0 {
            self.find(&["C22"], "encapsulated GET_CERTIFICATE asks for nothing".into());
            self.dead = true;
            return None;
        }
        Some((a, b))
    }
    /// open a session as far as it goes
    pub fn open_session(&mut self, r: &mut Rng, complete: bool) {
        let n = self.mon.m.neg.clone();
        let kex = matches!(self.allowed(None, KEY_EXCHANGE), V::Serve(_)) && (n.ver < 0x12 || n.opaque == 2);
        let psk = matches!(self.allowed(None, PSK_EXCHANGE), V::Serve(_));
        let c = match (kex, psk) {
            (true, true) => *r.pick(&[KEY_EXCHANGE, PSK_EXCHANGE]),
            (true, false) => KEY_EXCHANGE,
            (false, true) => PSK_EXCHANGE,
            _ => return,
        };
        let ty = if self.meas_cap() { *r.pick(&[0u8, 0, 1, 0xff]) } else { 0 };
        let sid = 1 + r.below(0xfffe) as u16;
        let m = if c == KEY_EXCHANGE { self.m_kex(r, 0, ty, sid) } else { self.m_psk(r, ty, sid) };
        let before = self.mon.m.sess.len();
        self.ask(None, &m, false, serve(&["C06", "C11", "C12"]), if c == KEY_EXCHANGE { "KEY_EXCHANGE" } else { "PSK_EXCHANGE" });
        if self.dead || self.mon.m.sess.len() != before + 1 {
            return;
        }
        let id = self.mon.m.sess.last().unwrap().id;
        let s = self.mon.m.sess.last().unwrap().clone();
        if s.mut_req != 0 {
            if s.hitc {
                return;
            }
            let honest = r.chance(2, 3);
            if complete || r.chance(4, 5) {
                self.mutual(r, id, complete || honest);
            } else if !self.mutual_ok {
                // no encapsulated exchange at all
                let pk = seed_pk(&self.q.leaf);
                let k = r.bool();
                if let Some(m) = self.m_finish(id, k, &pk) {
                    self.ask(Some(id), &m, false, refuse(&["C22", "C06"]), "FINISH without the encapsulated exchange");
                }
                return;
            }
        }
        if complete || r.chance(2, 3) {
            self.finish(r, id);
        }
    }
    /// any bytes at all; the model is lost afterwards
    pub fn fuzz(&mut self, r: &mut Rng, n: usize) {
        let t = self.t();
        with(|w| w.ev.clear());
        for _ in 0..n {
            self.fuzzed += 1;
            let all = [
                GET_VERSION, GET_DIGESTS, GET_CERTIFICATE, CHALLENGE, GET_CAPABILITIES, NEGOTIATE_ALGORITHMS, GET_MEASUREMENTS,
                KEY_EXCHANGE, FINISH, PSK_EXCHANGE, PSK_FINISH, HEARTBEAT, KEY_UPDATE, GET_ENCAP, DELIVER_ENCAP, END_SESSION, VENDOR, RESPOND_IF_READY,
            ];
            let c = *r.pick(&all);
            let mut m = if c == GET_VERSION && r.chance(3, 4) { r.bytes(8) } else { self.wellformed(r, c).0 };
            if (c == FINISH || c == PSK_FINISH) && r.bool() {
                if let Some(i) = self.sid(r) {
                    let k = r.bool();
                    let pk = seed_pk(&self.q.leaf);
                    m = self.m_finish(i, k, &pk).unwrap_or(m);
                }
            }
            for _ in 0..r.below(4) {
                if m.is_empty() {
                    break;
                }
                let l = m.len();
                match r.below(8) {
                    0 => {
                        let i = r.below(l);
                        m[i] = r.u8();
                    }
                    1 => {
                        let i = r.below(l.min(12));
                        m[i] = *r.pick(&[0u8, 1, 0x7f, 0x80, 0xff, 2, 4]);
                    }
                    2 => m.truncate(r.below(l + 1)),
                    3 => {
                        let k = r.below(64);
                        m.extend_from_slice(&r.bytes(k));
                    }
                    4 => {
                        let k = *r.pick(&[1000usize, 4096, 4097, 4160, 4150]);
                        let x = r.u8();
                        m.resize(k.max(l), x);
                    }
                    5 => {
                        let i = r.below(l);
                        m[i] ^= 1 << r.below(8);
                    }
                    6 => {
                        if l >= 2 {
                            let i = r.below(l - 1);
                            m[i] = 0xff;
                            m[i + 1] = 0xff;
                        }
                    }
                    _ => {
                        m[0] = *r.pick(&[0x10u8, 0x11, 0x12]);
                    }
                }
            }
            let sess = if r.chance(1, 2) { self.sid(r) } else { None };
            let f = match r.below(12) {
                0 => m,
                1 => frame(t, Kind::Secured, &m),
                2 => {
                    let mut f = frame(t, Kind::Clear, &m);
                    let l = f.len();
                    let i = r.below(l.min(12));
                    f[i] = r.u8();
                    f
                }
                3 => {
                    let k = r.below(80);
                    r.bytes(k)
                }
                _ => match sess.and_then(|i| self.mon.m.s(i)) {
                    Some(s) => {
                        let id = s.id;
                        let d = s.dir(REQ).clone();
                        s.dir(REQ).seq += 1;
                        let inner = if r.chance(1, 8) { m } else { app_wrap(t, &m, r.chance(1, 4)) };
                        frame(t, Kind::Secured, &seal_with(t, id, &d, &inner))
                    }
                    None => frame(t, Kind::Clear, &m),
                },
            };
            if trace() {
                eprintln!("    fuzz {}", hexs(&f));
            }
            let rec = self.s.feed(&f);
            with(|w| w.ev.clear());
            if let Some(p) = rec.panic {
                self.find(&["C14"], format!("{} on frame {}", p.show(), hexs(&f)));
                self.dead = true;
                return;
            }
            if rec.sent.len() > 1 {
                self.find(&["C13"], format!("{} responses to {}", rec.sent.len(), hexs(&f)));
            }
            for x in &rec.sent {
                match unframe(t, x) {
                    None => self.find(&["C13", "C19"], format!("malformed frame {}", hexs(x))),
                    Some((k, p)) => {
                        // the answer has the kind of the request; reserved bits do not matter
                        let q = kind_of(t, &f);
                        if q != Some(k) {
                            self.find(&["C13"], format!("frame {} answered with {}", hexs(&f), hexs(x)));
                        }
                        if k == Kind::Clear && (p.len() < 4 || p[1] & 0x80 != 0) {
                            self.find(&["C13"], format!("frame {} answered with {}", hexs(&f), hexs(&p)));
                        }
                        if k == Kind::Secured && q == Some(Kind::Secured) && f[if t == Trans::Mctp { 1 } else { 8 }..].get(..4) != p.get(..4) {
                            self.find(&["C13", "C11"], "record answered in another session".into());
                        }
                    }
                }
            }
        }
        self.log.push(format!("fuzz {}", n));
    }
    /// an honest requester connects and uses the responder
    pub fn recover(&mut self, r: &mut Rng) {
        with(|w| {
            w.ev.clear();
            w.nonce_reuse.clear();
        });
        let q = self.q.clone();
        self.s.set_req(&q);
        let f = std::mem::take(&mut self.mon.f);
        self.mon = Mon::new(self.t(), &self.q, &self.sp);
        self.mon.f = f;
        let v = {
            let mut x: Vec<u8> = self.q.vers.iter().copied().filter(|x| self.sp.vers.contains(x)).collect();
            x.sort_unstable();
            match x.last() {
                Some(v) => *v,
                None => return,
            }
        };
        let signs = can_sign(v);
        let cert = self.sp.caps & R_CERT != 0 && self.sp.chains[0].is_some();
        let mut ops = vec![Op::Init];
        if cert {
            ops.push(Op::Digest(None));
            if signs {
                ops.push(Op::Cert(None, 0));
            }
            if signs && self.sp.caps & R_CHAL != 0 {
                ops.push(Op::Challenge(0, 0));
            }
        }
        if self.sp.caps & (S_MEAS_NOSIG | S_MEAS_SIG) != 0 {
            ops.push(Op::Meas(None, 0, (signs && cert && self.sp.caps & S_MEAS_SIG != 0) as u8, 0));
        }
        let both = self.q.caps & self.sp.caps;
        if v >= 0x11 && signs && cert && both & C_KEX != 0 && self.q.opaque == 2 && !(MUTAUTH && self.near_root) {
            for _ in 0..r.range(1, 4) {
                ops.push(Op::Start(false, 0, 0));
            }
        }
        if v >= 0x11 && self.q.caps & C_PSK != 0 && self.sp.caps & (C_PSK | C_PSK_CTX) != 0 && !ops.iter().any(|o| matches!(o, Op::Start(..))) {
            ops.push(Op::Start(true, 0, 0));
        }
        let mut live = vec![];
        for op in ops {
            let out = run(&mut self.s, &op);
            self.mon.step();
            self.log.push(format!("honest {}={}", op.name(), out.show()));
            if let Out::Panic(p) = &out {
                self.find(&["C14", "C15"], format!("{} in honest {} afterwards", p.show(), op.name()));
                return;
            }
            if let Some(p) = self.s.rsp_panic() {
                self.find(&["C14"], format!("{} in honest {} afterwards", p.show(), op.name()));
                return;
            }
            match out {
                Out::Ok(x) => {
                    if let Some(i) = x.session {
                        live.push(i);
                    }
                }
                _ => {
                    self.find(&["C14", "C12"], format!("afterwards an honest {} fails with {}", op.name(), out.show()));
                    return;
                }
            }
        }
        for i in live {
            let out = run(&mut self.s, &Op::End(i));
            self.mon.step();
            if !out.is_ok() {
                self.find(&["C14", "C11"], format!("afterwards an honest end_session fails with {}", out.show()));
                return;
            }
        }
    }
}

fn kind_of(t: Trans, f: &[u8]) -> Option<Kind> {
    match t {
        Trans::Mctp => match f.first() {
            Some(5) => Some(Kind::Clear),
            Some(6) => Some(Kind::Secured),
            _ => None,
        },
        Trans::Doe => match (u16le(f, 0), f.get(2)) {
            (Some(1), Some(1)) => Some(Kind::Clear),
            (Some(1), Some(2)) => Some(Kind::Secured),
            _ => None,
        },
    }
}

/// weights per property
#[derive(Clone, Copy)]
struct Mix {
    conn: usize,
    req: usize,
    open: usize,
    badfin: usize,
    damaged: usize,
    odd: usize,
    app: usize,
    rec: usize,
    ku: usize,
    steps: usize,
    fuzz: usize,
}
fn mix(prop: &str) -> Mix {
    let d = Mix { conn: 10, req: 6, open: 3, badfin: 2, damaged: 3, odd: 1, app: 1, rec: 2, ku: 0, steps: 22, fuzz: 0 };
    match prop {
        "C02" => Mix { conn: 6, damaged: 8, odd: 6, steps: 10, req: 3, open: 1, ..d },
        "C06" => Mix { open: 8, badfin: 8, app: 3, rec: 3, ..d },
        "C07" => Mix { open: 9, ku: 4, badfin: 3, ..d },
        "C08" => Mix { open: 5, ku: 6, rec: 6, app: 5, steps: 34, ..d },
        "C21" => Mix { open: 6, req: 12, ..d },
        "C09" => Mix { open: 4, rec: 12, app: 4, steps: 34, ..d },
        "C10" => Mix { open: 4, ku: 10, rec: 6, app: 3, steps: 34, ..d },
        "C11" => Mix { open: 9, badfin: 3, rec: 4, steps: 34, ..d },
        "C12" => Mix { req: 10, conn: 6, steps: 26, ..d },
        "C13" => Mix { req: 8, damaged: 6, fuzz: 6, ..d },
        "C14" => Mix { fuzz: 24, steps: 14, ..d },
        "C16" => Mix { req: 10, open: 1, ..d },
        "C17" => Mix { req: 10, open: 2, ..d },
        "C22" => Mix { open: 10, badfin: 5, steps: 14, ..d },
        "C26" => Mix { req: 10, damaged: 5, ..d },
        "C04" => Mix { req: 12, damaged: 5, open: 2, steps: 34, ..d },
        _ => d,
    }
}

pub fn case(p: &Plan, prop: &'static str, c: u64, r: &mut Rng, rep: &mut Report) {
    let mx = mix(prop);
    let full = r.chance(2, 3);
    let w = Want {
        full,
        multi_slot: r.chance(1, 3),
        one_algo: r.chance(1, 3),
        hitc: if prop == "C22" { Some(false) } else { None },
        small_dts: false,
        ..Default::default()
    };
    let (mut q, mut sp) = gen_pair(r, w);
    if prop != "C22" || r.chance(1, 4) {
        vary_caps(r, &mut q, &mut sp);
    }
    if HASHED && full && !sp.vers.contains(&0x12) {
        sp.vers[0] = 0x12;
    }
    if r.chance(1, if prop == "C13" { 2 } else { 10 }) {
        q.dts = r.range(42, 700) as u32;
    }
    let t = if r.chance(1, 3) { Trans::Doe } else { Trans::Mctp };
    let near = prop == "C22" && r.chance(1, 8);
    if near {
        if let Some(v) = sp.root.as_mut() {
            near_root(r, v);
        }
    }
    let mut u = Pup::new(r, prop, q, sp, t);
    u.near_root = near;
    with(|w| w.psk_replays = u.sp.caps & C_PSK != 0);
    let steps = r.range(mx.steps / 2, mx.steps);
    let total = mx.conn + mx.req + mx.open + mx.badfin + mx.damaged + mx.odd + mx.app + mx.rec + mx.ku;
    for _ in 0..steps {
        if u.dead || !u.mon.f.0.is_empty() {
            break;
        }
        let mut k = r.below(total);
        if k < mx.conn && u.mon.m.conn < 3 {
            u.connect(r);
            continue;
        }
        if k < mx.conn {
            k = mx.conn + r.below(total - mx.conn);
        }
        k -= mx.conn;
        if k < mx.req {
            if r.chance(1, 3) {
                // towards what the property is about
                let focus: &[u8] = match prop {
                    "C16" => &[GET_CERTIFICATE, GET_CERTIFICATE, GET_DIGESTS, CHALLENGE],
                    "C17" => &[GET_MEASUREMENTS],
                    "C26" => &[VENDOR],
                    "C04" => &[GET_MEASUREMENTS, CHALLENGE, GET_DIGESTS, GET_CERTIFICATE],
                    _ => &[],
                };
                if !focus.is_empty() {
                    let s = if r.bool() { u.sid(r) } else { None };
                    let s = s.filter(|i| u.mon.m.sess.iter().any(|x| x.id == *i && x.estab));
                    let c = *r.pick(focus);
                    u.request(r, s, c);
                    continue;
                }
            }
            u.random_request(r);
            continue;
        }
        k -= mx.req;
        if k < mx.open {
            if u.mon.m.conn < 3 {
                continue;
            }
            let hs: Vec<u32> = u.mon.m.sess.iter().filter(|s| !s.estab).map(|s| s.id).collect();
            if !hs.is_empty() && r.bool() {
                let id = *r.pick(&hs);
                u.finish(r, id);
            } else if u.mon.m.sess.len() >= 4 {
                if r.bool() {
                    // no slot is left
                    let c = *r.pick(&[KEY_EXCHANGE, PSK_EXCHANGE]);
                    u.request(r, None, c);
                } else {
                    let id = u.sid(r).unwrap();
                    u.request(r, Some(id), END_SESSION);
                }
            } else {
                let k = r.chance(3, 4);
                u.open_session(r, k);
            }
            continue;
        }
        k -= mx.open;
        if k < mx.badfin {
            let hs: Vec<u32> = u.mon.m.sess.iter().filter(|s| !s.estab).map(|s| s.id).collect();
            if hs.is_empty() {
                if u.mon.m.conn == 3 && u.mon.m.sess.len() < 4 {
                    u.open_session(r, false);
                }
                continue;
            }
            let id = *r.pick(&hs);
            u.bad_finish(r, id);
            continue;
        }
        k -= mx.badfin;
        if k < mx.damaged {
            u.damaged(r);
            continue;
        }
        k -= mx.damaged;
        if k < mx.odd {
            u.odd_offer(r);
            continue;
        }
        k -= mx.odd;
        if k < mx.app {
            u.app(r);
            continue;
        }
        k -= mx.app;
        if k < mx.rec {
            u.bad_record(r);
            continue;
        }
        if let Some(i) = u.sid(r) {
            u.request(r, Some(i), KEY_UPDATE);
        }
    }
    let clean = u.mon.f.0.is_empty();
    let substituted = u.dead && clean;
    let mut lost = false;
    if clean && !u.s.rsp_dead() {
        u.dead = false;
        if mx.fuzz > 0 {
            let n = r.range(0, mx.fuzz);
            u.fuzz(r, n);
            lost = n > 0;
        }
        if u.mon.f.0.is_empty() && u.q.dts >= 3000 && (prop == "C14" || lost || r.chance(1, 4)) {
            u.recover(r);
            rep.count("recoveries by an honest requester", 1);
        }
    }
    let _ = substituted;
    rep.count("legal requests served", u.served);
    rep.count("illegal requests refused", u.refused);
    rep.count("records that must be ignored", u.raw);
    rep.count("responses too large for the requester", u.limited);
    rep.count("unanswered requests", u.silent);
    rep.count("fuzzed frames", u.fuzzed);
    rep.count("exchanges checked", u.mon.exchanges);
    rep.count("signatures produced", u.mon.sigs);
    for (k, v) in &u.dev {
        rep.count(k, *v);
    }
    for (k, v) in u.mon.m.seen.clone() {
        rep.count(&format!("msg {}", k), v);
    }
    let d = u.log.iter().fold(7u64, |a, x| a.rotate_left(7) ^ fnv(x.as_bytes()));
    rep.seen(d);
    let ctx = || {
        format!(
            "config {} transport {:?} version {:02x} req caps {:x} rsp caps {:x} steps {}",
            CONFIG, u.s.trans, u.mon.m.neg.ver, u.q.caps, u.sp.caps, u.log.join("; ")
        )
    };
    if p.verbose {
        println!("{}", ctx());
        for x in &u.mon.f.0 {
            println!("  FIND {:?} {}", x.props, x.msg);
        }
    }
    rep.sample(|| ctx());
    let f = u.mon.f.0.iter().map(|x| x.clone()).collect::<Vec<_>>();
    rep.finds(prop, c, &ctx, &f);
}
