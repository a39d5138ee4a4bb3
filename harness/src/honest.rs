//! Engine A: two real endpoints, honest link, random flows; the monitor watches.
use crate::gen::*;
use crate::model::code::*;
use crate::model::*;
use crate::mon::*;
use crate::ops::*;
use crate::report::*;
use crate::sim::*;
use crate::util::*;
use crate::world::*;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, Default)]
pub struct Flavor {
    pub sessions: usize, // weight of session operations
    pub keyupd: usize,
    pub app: usize,
    pub meas: usize,
    pub cert: usize,
    pub chal: usize,
    pub vendor: usize,
    pub steps: usize,
    pub multi_slot: bool,
    pub full: bool,
    pub hitc: Option<bool>,
    pub small_dts: bool,
    pub bad_ops: usize,
    /// jump ahead in the sequence numbers of a session
    pub jumps: usize,
}
pub fn flavor(prop: &str) -> Flavor {
    let d = Flavor { sessions: 3, keyupd: 2, app: 2, meas: 3, cert: 2, chal: 2, vendor: 1, steps: 14, full: true, ..Default::default() };
    match prop {
        "C02" => Flavor { steps: 2, full: false, ..d },
        "C04" => Flavor { meas: 6, chal: 4, sessions: 6, steps: 24, ..d },
        "C07" | "C06" | "C24" => Flavor { sessions: 6, keyupd: 4, ..d },
        "C08" | "C09" => Flavor { sessions: 4, app: 8, keyupd: 3, steps: 24, jumps: 2, ..d },
        "C10" => Flavor { sessions: 3, keyupd: 12, app: 4, steps: 30, jumps: 1, ..d },
        "C11" => Flavor { sessions: 10, keyupd: 1, steps: 30, ..d },
        "C16" => Flavor { cert: 10, sessions: 2, steps: 10, full: false, ..d },
        "C17" => Flavor { meas: 14, steps: 16, bad_ops: 3, ..d },
        "C22" => Flavor { sessions: 6, steps: 8, ..d },
        "C26" => Flavor { vendor: 10, ..d },
        _ => d,
    }
}

/// the outcome an honest pair must reach for `op`
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Expect {
    Ok,
    Fail,
    Any,
}

pub struct Run {
    pub s: Sim,
    pub mon: Mon,
    pub q: Ep,
    pub sp: Ep,
    pub live: Vec<u32>,
    pub inited: bool,
    pub certs: bool,
    pub log: Vec<String>,
    pub app_log: Rc<RefCell<Vec<(u32, Vec<u8>, Vec<u8>)>>>,
    pub vendor_log: Rc<RefCell<Vec<(Vec<u8>, Vec<u8>)>>>,
    pub dead: bool,
    pub reconnects: u64,
    pub replaced: u64,
    pub fails: u64,
    pub ending: bool,
}

pub fn reply_for(data: &[u8], salt: u64, max: usize) -> Vec<u8> {
    let mut k = salt.to_le_bytes().to_vec();
    k.extend_from_slice(data);
    let h = sha(32, &k);
    let sel = h[0] as usize;
    let n = match sel % 8 {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 3,
        4 => max,
        _ => (h[1] as usize | (h[2] as usize) << 8) % (max + 1),
    };
    let mut v = expand(b"reply", &k, n);
    // make replies that look like SPDM messages common
    if n >= 2 && h[3] & 1 == 1 {
        v[0] = 0x12;
        v[1] = [0x6C, 0x65, 0x67, 0x7F, 0x04, 0x61, 0x63, 0x03][h[4] as usize & 7];
    }
    v
}

impl Run {
    pub fn new(r: &mut Rng, fl: &Flavor) -> Run {
        let w = Want {
            full: fl.full,
            multi_slot: fl.multi_slot,
            hitc: fl.hitc,
            small_dts: fl.small_dts,
            one_algo: r.chance(1, 3),
            ..Default::default()
        };
        let (q, sp) = gen_pair(r, w);
        let t = if r.chance(1, 3) { Trans::Doe } else { Trans::Mctp };
        Run::with(r, q, sp, t)
    }
    pub fn with(r: &mut Rng, q: Ep, sp: Ep, t: Trans) -> Run {
        reset_world(r.next());
        let app_log: Rc<RefCell<Vec<(u32, Vec<u8>, Vec<u8>)>>> = Default::default();
        let vendor_log: Rc<RefCell<Vec<(Vec<u8>, Vec<u8>)>>> = Default::default();
        let (a, v) = (app_log.clone(), vendor_log.clone());
        let salt = r.next();
        with(|w| {
            w.app = Some(Box::new(move |s, d, _| {
                let x = reply_for(d, salt, 900);
                a.borrow_mut().push((s, d.to_vec(), x.clone()));
                Some(x)
            }));
            w.vendor = Some(Box::new(move |d| {
                let x = reply_for(d, salt ^ 1, 700);
                v.borrow_mut().push((d.to_vec(), x.clone()));
                Some(x)
            }));
        });
        let s = Sim::new(t, Some(&q), Some(&sp));
        let mon = Mon::new(t, &q, &sp);
        Run {
            s,
            mon,
            q,
            sp,
            live: vec![],
            inited: false,
            certs: false,
            log: vec![],
            app_log,
            vendor_log,
            dead: false,
            reconnects: 0,
            replaced: 0,
            fails: 0,
            ending: false,
        }
    }
    pub fn ver(&self) -> u8 {
        let mut v: Vec<u8> = self.q.vers.iter().copied().filter(|x| self.sp.vers.contains(x)).collect();
        v.sort_unstable();
        v.last().copied().unwrap_or(0)
    }
    pub fn cap(&self, bit: u32) -> bool {
        self.q.caps & self.sp.caps & bit != 0
    }
    pub fn kex_ok(&self) -> bool {
        let v = self.ver();
        v >= 0x11 && can_sign(v)
    }
    /// the next random operation and what must come of it
    pub fn choose(&mut self, r: &mut Rng, fl: &Flavor) -> (Op, Expect) {
        if !self.inited {
            return (Op::Init, Expect::Ok);
        }
        let v = self.ver();
        let signs = can_sign(v);
        if !HASHED && self.mon.m.b.len() > 4632 - 3700 {
            // the transcript buffer of this build holds one chain: start it anew
            return (Op::Digest(None), Expect::Ok);
        }
        loop {
            let total = fl.sessions + fl.keyupd + fl.app + fl.meas + fl.cert + fl.chal + fl.vendor + 2;
            let mut k = r.below(total);
            let sess = if self.live.is_empty() { None } else { Some(*r.pick(&self.live)) };
            if k < fl.sessions {
                match r.below(4) {
                    0 if sess.is_some() => return (Op::End(sess.unwrap()), Expect::Ok),
                    1 if sess.is_some() && self.cap(C_HBEAT) => return (Op::Heartbeat(sess.unwrap()), Expect::Ok),
                    _ => {
                        let psk = v >= 0x11 && self.q.caps & C_PSK != 0 && r.bool();
                        if !psk && (!self.certs || !self.kex_ok()) {
                            continue;
                        }
                        if v < 0x11 {
                            continue;
                        }
                        let e = if self.live.len() >= 4 { Expect::Fail } else { Expect::Ok };
                        return (Op::Start(psk, 0, *r.pick(&[0u8, 1, 0xff])), e);
                    }
                }
            }
            k -= fl.sessions;
            if k < fl.keyupd {
                if let (Some(s), true) = (sess, self.cap(C_KEYUPD)) {
                    return (Op::KeyUpdate(s, r.range(1, 2) as u8), Expect::Ok);
                }
                continue;
            }
            k -= fl.keyupd;
            if k < fl.app {
                if let (Some(s), Trans::Mctp) = (sess, self.s.trans) {
                    let n = match r.below(6) {
                        0 => 0,
                        1 => 1,
                        2 => 3000,
                        _ => r.range(2, 300),
                    };
                    return (Op::App(s, r.bytes(n)), Expect::Ok);
                }
                continue;
            }
            k -= fl.app;
            if k < fl.meas {
                let n = self.sp.meas.len() as u8;
                let tgt = if r.bool() { sess } else { None };
                if !HASHED {
                    // the transcript buffer of this build has room for one more full report
                    let full = match tgt {
                        None => self.mon.m.m_hi,
                        Some(i) => self.mon.m.s(i).map_or(0, |s| s.m_hi),
                    };
                    if full > 1200 {
                        return match tgt {
                            Some(s) if self.cap(C_HBEAT) => (Op::Heartbeat(s), Expect::Ok),
                            Some(s) => (Op::Digest(Some(s)), Expect::Ok),
                            None => (Op::Digest(None), Expect::Ok),
                        };
                    }
                }
                let mut op = *r.pick(&[0u8, 0xff, 1, 2, 3]);
                if op > 0 && op < 0xff {
                    if n == 0 {
                        op = 0
                    } else {
                        op = 1 + (r.below(n as usize) as u8)
                    }
                }
                let mut attr = r.below(2) as u8;
                if !signs || !self.certs {
                    attr = 0;
                }
                if op != 0 && op != 0xff && fl.bad_ops > 0 && r.chance(fl.bad_ops, 20) {
                    return (Op::Meas(tgt, 0, attr, n + 1 + r.below(100) as u8), Expect::Fail);
                }
                if attr == 0 && r.chance(1, 3) {
                    attr |= 2; // raw bit stream
                }
                return (Op::Meas(tgt, 0, attr, op), Expect::Ok);
            }
            k -= fl.meas;
            if k < fl.cert {
                let i = if r.chance(1, 3) { sess } else { None };
                if r.bool() {
                    return (Op::Digest(i), Expect::Ok);
                }
                return (Op::Cert(i, 0), Expect::Ok);
            }
            k -= fl.cert;
            if k < fl.chal {
                if !self.certs || !signs {
                    continue;
                }
                return (Op::Challenge(0, *r.pick(&[0u8, 0, 1, 0xff])), Expect::Ok);
            }
            k -= fl.chal;
            if k < fl.vendor {
                let i = if r.bool() { sess } else { None };
                let nid = *r.pick(&[0usize, 1, 2, 4, 16, 255]);
                let np = match r.below(6) {
                    0 => 0,
                    1 => 1,
                    2 => 1000,
                    _ => r.range(2, 300),
                };
                return (Op::Vendor(i, r.below(12) as u16, r.bytes(nid), r.bytes(np)), Expect::Ok);
            }
            if r.chance(1, 4) {
                return (Op::Init, Expect::Ok);
            }
            if !self.certs {
                return (Op::Digest(None), Expect::Ok);
            }
        }
    }
    /// before a new connection: somebody else may be on one end of it
    pub fn replace(&mut self, r: &mut Rng, fl: &Flavor) {
        if r.bool() {
            self.q = successor(r, &self.q, &self.sp, fl.full);
            let q = self.q.clone();
            self.s.set_req(&q);
            q.install(Role::Req);
            self.mon.m.endpoints(Some(&q), None);
            self.log.push("(another requester)".into());
            self.replaced += 1;
        }
        if r.chance(1, 4) {
            self.sp = successor(r, &self.sp, &self.q, fl.full);
            let sp = self.sp.clone();
            self.s.set_rsp(&sp);
            sp.install(Role::Rsp);
            self.mon.m.endpoints(None, Some(&sp));
            self.log.push("(another responder)".into());
            self.replaced += 1;
        }
    }
    pub fn step(&mut self, r: &mut Rng, op: &Op, ex: Expect) -> Out<Res> {
        let _ = r;
        let before = op.session().map(|i| self.keys(i));
        let out = run(&mut self.s, op);
        self.mon.step();
        self.log.push(format!("{}={}", op_str(op), out.show()));
        if let Out::Panic(p) = &out {
            self.dead = true;
            self.mon.f.add(&["C01", "C15", "C14", "C23"], format!("{} in {}", p.show(), op.name()));
            return out;
        }
        if let Some(p) = self.s.rsp_panic() {
            self.dead = true;
            self.mon.f.add(&["C01", "C14", "C23"], format!("{} while serving {}", p.show(), op.name()));
            return out;
        }
        let ok = out.is_ok();
        let v = self.ver();
        if ex == Expect::Ok && !ok {
            self.fails += 1;
            let mut tags: Vec<&'static str> = vec!["C01"];
            match op {
                Op::Init => tags.push("C02"),
                Op::Cert(..) | Op::Digest(_) => tags.push("C16"),
                Op::Meas(_, _, a, _) => {
                    tags.push("C17");
                    if a & 1 == 1 {
                        tags.push("C04")
                    }
                }
                Op::Challenge(..) => tags.push("C04"),
                Op::Start(psk, ..) => {
                    tags.extend(["C06", "C07", "C11", "C04"]);
                    if !psk && MUTAUTH {
                        tags.push("C22")
                    }
                }
                Op::KeyUpdate(..) => tags.extend(["C10", "C09"]),
                Op::Heartbeat(_) | Op::App(..) => tags.extend(["C08", "C09", "C10"]),
                Op::End(_) => tags.extend(["C11", "C09"]),
                Op::Vendor(..) => tags.push("C26"),
                _ => {}
            }
            self.mon.f.add(&tags, format!("honest {} (version {:02x}) failed with {}", op.name(), v, out.show()));
        }
        if ex == Expect::Fail && ok {
            let tags: &[&'static str] = match op {
                Op::Start(..) => &["C11"],
                Op::Meas(..) => &["C17"],
                _ => &["C01"],
            };
            self.mon.f.add(tags, format!("{} succeeded although it cannot", op.name()));
        }
        if ok {
            self.performed(op, before, &out);
            match op {
                Op::Init => {
                    if self.inited {
                        self.reconnects += 1;
                    }
                    self.inited = true;
                    self.certs = false;
                    self.live.clear();
                    if self.mon.m.neg.ver != v {
                        self.mon.f.add(&["C02"], format!("negotiated version {:02x}, the best common one is {:02x}", self.mon.m.neg.ver, v));
                    }
                }
                Op::Cert(_, slot) => {
                    self.certs = true;
                    let h = self.mon.m.neg.h();
                    let want = self.sp.chains[*slot as usize].as_ref().map(|d| fmt_chain(h, d)).unwrap_or_default();
                    let got = self.s.rq().common.peer_info.peer_cert_chain[*slot as usize]
                        .as_ref()
                        .map(|c| c.data[..c.data_size as usize].to_vec())
                        .unwrap_or_default();
                    if got != want {
                        self.mon.f.add(
                            &["C16", "C05"],
                            format!("requester holds a chain of {} bytes for slot {}, provisioned are {} bytes", got.len(), slot, want.len()),
                        );
                    }
                }
                Op::Meas(_, _, _, o) => {
                    let x = out.clone().ok().unwrap();
                    let want: Vec<u8> = match o {
                        0 => vec![],
                        0xff => self.sp.meas.iter().flat_map(|b| b.encode()).collect(),
                        i => self.sp.meas.iter().filter(|b| b.index == *i).flat_map(|b| b.encode()).collect(),
                    };
                    let cnt = match o {
                        0 | 0xff => self.sp.meas.len() as u8,
                        _ => 1,
                    };
                    if x.record != want || x.total != cnt || (*o != 0 && x.blocks != cnt) {
                        self.mon.f.add(
                            &["C17"],
                            format!(
                                "caller of get_measurements {:02x} got total {} blocks {} record {} but the device has {} / {}",
                                o, x.total, x.blocks, hexs(&x.record), cnt, hexs(&want)
                            ),
                        );
                    }
                }
                Op::Start(..) => {
                    let id = out.clone().ok().unwrap().session.unwrap();
                    if self.live.contains(&id) {
                        self.mon.f.add(&["C11"], format!("session id {:08x} handed out twice", id));
                    }
                    self.live.push(id);
                    self.compare_exports(id);
                }
                Op::End(i) => self.live.retain(|x| x != i),
                Op::App(i, d) => {
                    let got = out.clone().ok().unwrap().data;
                    let l = self.app_log.borrow();
                    match l.last() {
                        Some((s, data, reply)) if s == i && data == d => {
                            if &got != reply {
                                self.mon.f.add(&["C09", "C01"], format!("application reply {} arrived as {}", hexs(reply), hexs(&got)));
                            }
                        }
                        _ => self.mon.f.add(&["C09", "C01", "C11"], format!("application data of session {:08x} did not reach the handler unchanged", i)),
                    }
                }
                Op::Vendor(_, _, _, p) => {
                    let got = out.clone().ok().unwrap().data;
                    let l = self.vendor_log.borrow();
                    match l.last() {
                        Some((data, reply)) if data == p => {
                            if &got != reply {
                                self.mon.f.add(&["C26"], format!("vendor reply {} arrived as {}", hexs(reply), hexs(&got)));
                            }
                        }
                        x => self.mon.f.add(
                            &["C26"],
                            format!("vendor payload {} reached the handler as {:?}", hexs(p), x.map(|x| hexs(&x.0))),
                        ),
                    }
                }
                _ => {}
            }
        }
        if matches!(op, Op::Vendor(..)) {
            let n = self.vendor_log.borrow().len();
            if ok && n != 1 {
                self.mon.f.add(&["C26"], format!("one vendor request reached the handler {} times", n));
            }
            self.vendor_log.borrow_mut().clear();
        }
        if matches!(op, Op::App(..)) {
            let n = self.app_log.borrow().len();
            if ok && n != 1 {
                self.mon.f.add(&["C09"], format!("one application record reached the handler {} times", n));
            }
            self.app_log.borrow_mut().clear();
        }
        self.agree(op, ok);
        out
    }
    /// (encryption key, salt) of both directions, at both ends
    pub fn keys(&mut self, id: u32) -> Vec<Vec<u8>> {
        let mut v = vec![];
        for who in [0, 1] {
            let c = if who == 0 { &mut self.s.rq().common } else { &mut self.s.rs().common };
            if let Some(s) = c.get_session_via_id(id) {
                let (a, b) = s.export_keys();
                for x in [a, b] {
                    let mut y = x.encryption_key.as_ref().to_vec();
                    y.extend_from_slice(x.salt.as_ref());
                    v.push(y);
                }
            }
        }
        v
    }
    /// an operation that reports success has really been carried out with the peer
    fn performed(&mut self, op: &Op, before: Option<Vec<Vec<u8>>>, out: &Out<Res>) {
        let did = self.mon.did.clone();
        let tgt = op.session();
        let codes: Vec<u8> = did.iter().map(|x| x.1).filter(|c| !matches!(*c, GET_ENCAP | DELIVER_ENCAP)).collect();
        let all = |c: u8| !codes.is_empty() && codes.iter().all(|x| *x == c);
        let (good, tags): (bool, &[&'static str]) = match op {
            Op::Init => (codes == [GET_VERSION, GET_CAPABILITIES, NEGOTIATE_ALGORITHMS], &["C02", "C01"]),
            Op::Digest(_) => (codes == [GET_DIGESTS], &["C16"]),
            Op::Cert(..) => (all(GET_CERTIFICATE), &["C16"]),
            Op::Challenge(..) => (codes == [CHALLENGE], &["C04"]),
            Op::Meas(..) => (all(GET_MEASUREMENTS), &["C17"]),
            Op::Start(true, ..) => (codes == [PSK_EXCHANGE] || codes == [PSK_EXCHANGE, PSK_FINISH], &["C11", "C06"]),
            Op::Start(..) => (codes == [KEY_EXCHANGE, FINISH], &["C11", "C06"]),
            Op::Heartbeat(_) => (codes == [HEARTBEAT], &["C12", "C01"]),
            Op::KeyUpdate(..) => (codes == [KEY_UPDATE, KEY_UPDATE], &["C10"]),
            Op::End(_) => (codes == [END_SESSION], &["C11"]),
            Op::Vendor(..) => (codes == [VENDOR], &["C26"]),
            Op::App(..) => (codes.is_empty(), &["C09"]),
            #[allow(unreachable_patterns)]
            _ => (true, &[]),
        };
        if !good {
            self.mon.f.add(tags, format!("{} succeeded; the exchanges with the peer were {:02x?}", op.name(), codes));
        }
        let start = match (op, out) {
            (Op::Start(..), Out::Ok(r)) => r.session,
            _ => None,
        };
        for (s, c) in did {
            if matches!(op, Op::Start(..)) {
                if s.is_some() && s != start {
                    self.mon.f.add(&["C11"], format!("{} sent {:02x} in session {:x?}", op.name(), c, s));
                }
            } else if s != tgt {
                self.mon.f.add(&["C11", "C13"], format!("{} for {:x?} sent {:02x} in session {:x?}", op.name(), tgt, c, s));
            }
        }
        if let (Some(id), Some(b)) = (tgt, before) {
            let a = self.keys(id);
            if a.len() == 4 && b.len() == 4 && !matches!(op, Op::Start(..) | Op::End(_)) {
                for k in 0..4 {
                    let want = match op {
                        Op::KeyUpdate(_, 1) => k % 2 == 0,
                        Op::KeyUpdate(..) => true,
                        _ => false,
                    };
                    if (a[k] != b[k]) != want {
                        self.mon.f.add(
                            &["C10"],
                            format!(
                                "after {} the {} key of the {} is {}",
                                op.name(),
                                ["request", "response"][k % 2],
                                ["requester", "responder"][k / 2],
                                if want { "still the old one" } else { "another one" }
                            ),
                        );
                    }
                }
            }
        }
    }
    /// Both ends (and the model) continue a session at another sequence number, as if
    /// the records before had been exchanged.
    pub fn jump(&mut self, r: &mut Rng, id: u32) {
        let at = |r: &mut Rng| -> u64 {
            match r.below(7) {
                0 => (1u64 << (8 * r.range(1, 7))) - r.below(3) as u64,
                1 => (1u64 << (8 * r.range(1, 7))) - 2,
                2 => 0xffff_fffe,
                3 => u64::MAX - r.range(1, 12) as u64,
                4 => r.next() >> r.below(63),
                5 => 1 << r.below(64),
                _ => 0xfffe,
            }
            .min(u64::MAX - 1)
        };
        let (a, b) = (at(r), at(r));
        let m = match self.mon.m.s(id) {
            Some(m) if m.estab => m,
            _ => return,
        };
        // never backwards
        let (a, b) = (a.max(m.app[REQ].seq), b.max(m.app[RSP].seq));
        m.app[REQ].seq = a;
        m.app[RSP].seq = b;
        let set = |c: &mut spdmlib::common::SpdmContext| {
            if let Some(s) = c.get_session_via_id(id) {
                s.set_request_direction_sequence_number(a);
                s.set_response_direction_sequence_number(b);
            }
        };
        set(&mut self.s.rq().common);
        set(&mut self.s.rs().common);
        self.log.push(format!("jump({:x}, {:x}, {:x})", id, a, b));
    }
    /// send on until the session refuses
    pub fn spent(&mut self, r: &mut Rng) {
        let ids = self.live.clone();
        for id in ids {
            if !self.exhausted(id, 12) {
                continue;
            }
            for i in 0..16 {
                let n = r.below(40);
                let d = r.bytes(n);
                let h = |c: &mut spdmlib::common::SpdmContext| c.get_session_via_id(id).is_some();
                if !(h(&mut self.s.rq().common) && h(&mut self.s.rs().common)) {
                    break;
                }
                let _ = i;
                let op = if self.s.trans == Trans::Mctp { Op::App(id, d) } else { Op::Vendor(Some(id), 0, vec![], d) };
                let out = run(&mut self.s, &op);
                self.mon.step();
                if let Out::Panic(p) = out {
                    self.mon.f.add(&["C08", "C15"], p.show());
                    return;
                }
                if let Some(p) = self.s.rsp_panic() {
                    self.mon.f.add(&["C08", "C14"], p.show());
                    return;
                }
            }
        }
    }
    /// the session has no sequence numbers left for `n` more records each way
    pub fn exhausted(&mut self, id: u32, n: u64) -> bool {
        match self.mon.m.s(id) {
            Some(s) => s.estab && s.app.iter().any(|d| d.seq > u64::MAX - 1 - n),
            None => false,
        }
    }
    fn compare_exports(&mut self, id: u32) {
        let want: Vec<(Vec<u8>, Vec<u8>, u64)> = match self.mon.m.s(id) {
            Some(s) => (0..2).map(|d| (s.app[d].key.clone(), s.app[d].iv.clone(), s.app[d].seq)).collect(),
            None => {
                self.mon.f.add(&["C07", "C06", "C11"], format!("session {:08x} established that no exchange created", id));
                return;
            }
        };
        let best = *self.sp.secver.iter().max().unwrap();
        for who in [0, 1] {
            let c = if who == 0 { &mut self.s.rq().common } else { &mut self.s.rs().common };
            if let Some(s) = c.get_session_via_id(id) {
                if s.secure_spdm_version_sel != best {
                    let v = s.secure_spdm_version_sel;
                    let n = if who == 0 { "requester" } else { "responder" };
                    self.mon.f.add(&["C02"], format!("{} uses secured message version {:02x}, the best common one is {:02x}", n, v, best));
                }
            }
            let x = c.get_session_via_id(id).map(|s| s.export_keys());
            let x: Option<Vec<(Vec<u8>, Vec<u8>, u64)>> = x.map(|(a, b)| {
                [a, b]
                    .iter()
                    .map(|k| (k.encryption_key.as_ref().to_vec(), k.salt.as_ref().to_vec(), k.sequence_number))
                    .collect()
            });
            if x.as_ref() != Some(&want) {
                let n = if who == 0 { "requester" } else { "responder" };
                self.mon.f.add(&["C07"], format!("keys exported by the {} are not the prescribed ones", n));
            }
        }
    }
    /// both ends agree with the model and each other
    fn agree(&mut self, op: &Op, ok: bool) {
        let a = self.s.snap_req();
        let b = self.s.snap_rsp();
        if !self.inited {
            return;
        }
        if matches!(op, Op::Init) && ok {
            let n = &self.mon.m.neg;
            let want = vec![
                n.req_caps, n.rsp_caps, n.mspec as u32, n.mhash, n.hash, n.asym, n.dhe as u32, n.aead as u32,
                n.req_asym as u32, n.ks as u32, n.opaque as u32,
            ];
            for (who, x) in [("requester", &a), ("responder", &b)] {
                if x.ver != n.ver {
                    self.mon.f.add(&["C02", "C01"], format!("{} selected version {:02x}, the messages say {:02x}", who, x.ver, n.ver));
                }
                for i in 0..11 {
                    // before 1.1 the requester sends no capabilities
                    if i == 0 && n.ver == 0x10 {
                        continue;
                    }
                    if i == 10 && n.ver < 0x12 {
                        continue;
                    }
                    if x.nego[i] != want[i] {
                        self.mon.f.add(
                            &["C02", "C01"],
                            format!("{} holds {} {:x}, the messages say {:x}", who, NEGO[i], x.nego[i], want[i]),
                        );
                    }
                }
            }
        }
        // live sessions
        let list = |s: &Snap| {
            let mut v: Vec<(u32, u8)> = s.sessions.iter().copied().filter(|x| x.0 != 0).collect();
            v.sort_unstable();
            v
        };
        let mut want: Vec<(u32, u8)> = self.live.iter().map(|x| (*x, 2)).collect();
        want.sort_unstable();
        let (la, lb) = (list(&a), list(&b));
        if la != want {
            self.mon.f.add(&["C11", "C01"], format!("after {} the requester holds sessions {:x?} but {:x?} are live", op.name(), la, want));
        }
        if lb != want {
            self.mon.f.add(&["C11", "C01"], format!("after {} the responder holds sessions {:x?} but {:x?} are live", op.name(), lb, want));
        }
        if la != want || lb != want {
            self.dead = true;
        }
    }
}

pub fn case(p: &Plan, prop: &'static str, c: u64, r: &mut Rng, rep: &mut Report) {
    let mut fl = flavor(prop);
    if prop == "C02" && r.chance(1, 3) {
        fl.full = true;
    }
    let mut run = Run::new(r, &fl);
    let steps = r.range(fl.steps / 2, fl.steps);
    for _ in 0..steps {
        if run.dead {
            break;
        }
        if fl.jumps > 0 && !run.live.is_empty() && r.chance(fl.jumps, 10) {
            let id = *r.pick(&run.live);
            run.jump(r, id);
            rep.count("sequence number jumps", 1);
        }
        let (op, mut ex) = run.choose(r, &fl);
        if let Some(i) = op.session() {
            let need = if matches!(op, Op::Cert(..)) { 12 } else { 4 };
            if run.exhausted(i, need) {
                // the records of this operation may not fit: it may fail, but no record
                // may be sent beyond the end
                ex = Expect::Any;
                run.ending = true;
            }
        }
        if matches!(op, Op::Init) && run.inited {
            run.replace(r, &fl);
        }
        run.step(r, &op, ex);
        if matches!(op, Op::Init) && !run.inited {
            break;
        }
        if run.ending {
            rep.count("sessions driven to the end of the sequence space", 1);
            if run.mon.f.0.is_empty() {
                run.spent(r);
            }
            break;
        }
        rep.count(&format!("op {}", op.name()), 1);
        if !run.mon.f.0.is_empty() {
            break;
        }
    }
    if !run.dead {
        run.mon.end();
    }
    rep.count("exchanges checked", run.mon.exchanges);
    rep.count("records opened", run.mon.records);
    rep.count("fresh fields checked", run.mon.fresh);
    rep.count("signatures produced", run.mon.sigs);
    rep.count("reconnects", run.reconnects);
    rep.count("endpoints replaced", run.replaced);
    rep.count("error responses", run.mon.errors);
    for (k, v) in run.mon.m.seen.clone() {
        rep.count(&format!("msg {}", k), v);
    }
    rep.seen(run.mon.digest);
    let ctx = || {
        format!("config {} transport {:?} version {:02x} hitc {} steps {}", CONFIG, run.s.trans, run.ver(), run.mon.m.neg.hitc(), run.log.join("; "))
    };
    if p.verbose {
        println!("{}", ctx());
        for x in &run.mon.f.0 {
            println!("  FIND {:?} {}", x.props, x.msg);
        }
    }
    rep.sample(|| ctx());
    let f = std::mem::take(&mut run.mon.f.0);
    let ctx = || {
        format!("config {} transport {:?} version {:02x} hitc {} steps {}", CONFIG, run.s.trans, run.ver(), run.mon.m.neg.hitc(), run.log.join("; "))
    };
    rep.finds(prop, c, &ctx, &f);
}
