//! Online monitor of an honest run: replays the recorded events into the reference
//! model and reports every deviation.
use crate::model::code::*;
use crate::model::*;
use crate::sim::*;
use crate::util::*;
use crate::world::*;

pub struct Mon {
    pub m: Model,
    pub t: Trans,
    pub f: Finds,
    pos: usize,
    cur: Option<(Option<u32>, Vec<u8>, bool)>,
    answered: usize,
    pub pool: [Vec<(Vec<u8>, bool)>; 3],
    pub dhe: [Vec<Vec<u8>>; 3],
    pub exchanges: u64,
    /// answered exchanges of the last operation: session, request code
    pub did: Vec<(Option<u32>, u8)>,
    pub records: u64,
    pub fresh: u64,
    pub errors: u64,
    pub unanswered: u64,
    pub digest: u64,
    pub sigs: u64,
    pub seen_random: std::collections::HashSet<Vec<u8>>,
    pub app_frames: u64,
    /// the requester is the harness itself
    pub puppet: bool,
    /// last response, opened
    pub last: Option<(Option<u32>, Vec<u8>, bool)>,
    /// the pending request may stay unanswered
    pub quiet: bool,
    ku: Option<(u32, [Dir; 2], [u64; 2])>,
    /// a handshake the last refusal may have ended
    pub maybe_gone: Option<u32>,
    /// other transcripts a refused request may have left
    alts: Vec<Tr>,
}
/// the parts of the model a refused request may or may not have reset
#[derive(Clone, PartialEq, Default, Debug)]
struct Tr {
    b: Vec<u8>,
    c: Vec<u8>,
    m: Vec<u8>,
    sm: Vec<(u32, Vec<u8>)>,
}
fn tr_of(m: &Model) -> Tr {
    Tr { b: m.b.clone(), c: m.c.clone(), m: m.m.clone(), sm: m.sess.iter().map(|s| (s.id, s.m.clone())).collect() }
}
fn set_tr(m: &mut Model, t: &Tr) {
    m.b = t.b.clone();
    m.c = t.c.clone();
    m.m = t.m.clone();
    for (i, v) in &t.sm {
        if let Some(s) = m.s(*i) {
            s.m = v.clone();
        }
    }
}

/// `field` consists of whole draws of the random source (the last one may be longer) that
/// nothing used yet
pub fn drawn(p: &mut [(Vec<u8>, bool)], seen: &mut std::collections::HashSet<Vec<u8>>, field: &[u8]) -> Result<(), String> {
    let n = p.len();
    'o: for i in 0..n {
        let mut j = i;
        let mut o = 0;
        while o < field.len() {
            if j >= n || p[j].1 || p[j].0.is_empty() {
                continue 'o;
            }
            if p[j].0.starts_with(&field[o..]) {
                // the beginning of a longer draw
                j += 1;
                break;
            }
            if !field[o..].starts_with(&p[j].0) {
                continue 'o;
            }
            o += p[j].0.len();
            j += 1;
        }
        for k in p[i..j].iter_mut() {
            k.1 = true;
        }
        if !seen.insert(field.to_vec()) {
            return Err(format!("carries a value already used: {}", hexs(field)));
        }
        return Ok(());
    }
    Err(format!("is not fresh output of the random source: {}", hexs(field)))
}
pub fn trace() -> bool {
    use std::sync::atomic::{AtomicU8, Ordering};
    static T: AtomicU8 = AtomicU8::new(0);
    if T.load(Ordering::Relaxed) == 0 {
        T.store(if std::env::var("SPDMMON_TRACE").is_ok() { 2 } else { 1 }, Ordering::Relaxed);
    }
    T.load(Ordering::Relaxed) == 2
}
fn hexl(b: &[u8], n: usize) -> String {
    let h: String = b.iter().take(n).map(|x| format!("{:02x}", x)).collect();
    format!("[{}] {}", b.len(), h)
}

impl Mon {
    pub fn new(t: Trans, q: &Ep, s: &Ep) -> Mon {
        Mon {
            m: Model::new(Some(q), Some(s), true),
            t,
            f: Finds::default(),
            pos: 0,
            cur: None,
            answered: 0,
            pool: Default::default(),
            dhe: Default::default(),
            exchanges: 0,
            did: vec![],
            records: 0,
            fresh: 0,
            errors: 0,
            unanswered: 0,
            digest: 0,
            sigs: 0,
            seen_random: Default::default(),
            app_frames: 0,
            puppet: false,
            last: None,
            quiet: false,
            ku: None,
            maybe_gone: None,
            alts: vec![],
        }
    }
    /// consume the events recorded since the last call
    pub fn step(&mut self) {
        self.did.clear();
        let evs = with(|w| {
            let v = std::mem::take(&mut w.ev);
            v
        });
        for e in evs.iter() {
            self.event(e);
        }
        self.pos += evs.len();
        for x in with(|w| std::mem::take(&mut w.nonce_reuse)) {
            self.f.add(&["C08"], x);
        }
        for x in with(|w| std::mem::take(&mut w.ctx_misuse)) {
            self.f.add(&["C04"], x);
        }
    }
    fn event(&mut self, e: &Ev) {
        if trace() {
            match e {
                Ev::Tx { role, frame } => eprintln!("    {:?} > {}", role, hexl(frame, 200)),
                Ev::Sign { role, hash, asym, data, .. } => eprintln!("    {:?} sign {} {:x} {}", role, hash, asym, hexl(data, 170)),
                Ev::Verify { role, hash, asym, chain, data, ok, .. } => {
                    eprintln!("    {:?} verify {} {:x} {} chain {:x} {}", role, hash, asym, ok, fnv(chain), hexl(data, 170))
                }
                Ev::Enc { role, key, iv, aad, pt, .. } => {
                    eprintln!("    {:?} enc key {} iv {} aad {} pt {}", role, hex(key), hex(iv), hex(aad), hexs(pt));
                    for s in self.m.sess.iter() {
                        for d in 0..2 {
                            eprintln!("      model {} hs {} {} app {} {}", d, hex(&s.hs[d].key), hex(&s.hs[d].iv), hex(&s.app[d].key), hex(&s.app[d].iv));
                        }
                    }
                }
                Ev::HmacVer { role, key, data, ok, .. } => {
                    eprintln!("    {:?} hmac_verify {} key {:x} data {:x} len {}", role, ok, fnv(key), fnv(data), data.len())
                }
                _ => {}
            }
        }
        match e {
            Ev::Rand { role, data } => self.pool[*role as usize].push((data.clone(), false)),
            Ev::DheGen { role, x, public } => {
                self.m.xs.insert(public.clone(), *x);
                self.dhe[*role as usize].push(public.clone());
            }
            Ev::Sign { .. } => self.sigs += 1,
            Ev::Tx { role: Role::Req, frame } => self.tx_req(frame),
            Ev::Tx { role: Role::Rsp, frame } => self.tx_rsp(frame),
            _ => {}
        }
    }
    /// `field` must be exactly bytes drawn from the random source for this message
    pub fn fresh(&mut self, role: Role, what: &str, field: &[u8]) {
        self.fresh += 1;
        if let Err(e) = drawn(&mut self.pool[role as usize], &mut self.seen_random, field) {
            self.f.add(&["C21"], format!("{:?} {} {}", role, what, e));
        }
    }
    fn fresh_dhe(&mut self, role: Role, what: &str, field: &[u8]) {
        self.fresh += 1;
        match self.dhe[role as usize].iter().position(|x| x == field) {
            Some(i) => {
                self.dhe[role as usize].remove(i);
            }
            None => self.f.add(&["C21"], format!("{:?} {} was not generated for this exchange", role, what)),
        }
    }
    fn tx_req(&mut self, frame: &[u8]) {
        self.digest = self.digest.rotate_left(5) ^ fnv(&frame[..frame.len().min(12)]);
        if self.cur.is_some() && self.answered == 0 {
            self.unanswered += 1;
            let c = self.cur.take().unwrap();
            if !c.2 && !self.quiet {
                self.f.add(&["C13"], format!("request {} (session {:?}) got no response", hexs(&c.1), c.0));
            }
        }
        self.answered = 0;
        let (k, p) = match unframe(self.t, frame) {
            Some(x) => x,
            None => {
                self.f.add(&["C19"], format!("requester sent a malformed frame {}", hexs(frame)));
                return;
            }
        };
        let (sess, msg, app) = match k {
            Kind::Clear => (None, p, false),
            Kind::Secured => match self.open(REQ, &p) {
                Some(x) => x,
                None => {
                    self.cur = None;
                    return;
                }
            },
        };
        self.ku = None;
        if app {
            self.app_frames += 1;
            self.cur = Some((sess, msg, true));
            return;
        }
        if msg.len() >= 4 {
            match msg[1] {
                _ if self.puppet => {}
                CHALLENGE => self.fresh(Role::Req, "CHALLENGE nonce", &msg[4..36]),
                GET_MEASUREMENTS if msg[2] & 1 == 1 => self.fresh(Role::Req, "GET_MEASUREMENTS nonce", &msg[4..36]),
                KEY_EXCHANGE => {
                    self.fresh(Role::Req, "KEY_EXCHANGE random", &msg[8..40]);
                    let d = dhe_size(self.m.neg.dhe);
                    let x = msg[40..40 + d].to_vec();
                    self.fresh_dhe(Role::Req, "KEY_EXCHANGE public key", &x);
                }
                PSK_EXCHANGE => {
                    let p = u16le(&msg, 6).unwrap();
                    let l = u16le(&msg, 8).unwrap();
                    if l < 32 {
                        self.f.add(&["C21"], format!("PSK_EXCHANGE context of {} bytes", l));
                    }
                    if msg.len() >= 12 + p + l {
                        let c = msg[12 + p..12 + p + l].to_vec();
                        self.fresh(Role::Req, "PSK_EXCHANGE context", &c);
                    }
                }
                _ => {}
            }
            if msg[1] == KEY_UPDATE {
                if let Some(s) = sess.and_then(|i| self.m.s(i)) {
                    let n = s.neg.clone();
                    let old = (s.id, s.app.clone(), s.gens);
                    match msg[2] {
                        _ if !s.estab => {}
                        1 => {
                            s.app[REQ] = s.app[REQ].updated(&n);
                            s.gens[REQ] += 1;
                        }
                        2 => {
                            s.app[REQ] = s.app[REQ].updated(&n);
                            s.app[RSP] = s.app[RSP].updated(&n);
                            s.gens[REQ] += 1;
                            s.gens[RSP] += 1;
                        }
                        _ => {}
                    }
                    self.ku = Some(old);
                }
            }
        }
        self.pool[Role::Req as usize].clear();
        self.cur = Some((sess, msg, false));
    }
    fn open(&mut self, d: usize, p: &[u8]) -> Option<(Option<u32>, Vec<u8>, bool)> {
        let t = self.t;
        let id = match u32le(p, 0) {
            Some(i) => i,
            None => {
                self.f.add(&["C08"], "secured frame without a session id".into());
                return None;
            }
        };
        let who = if d == REQ { "requester" } else { "responder" };
        let s = match self.m.s(id) {
            Some(s) => s,
            None => {
                self.f.add(&["C08", "C07", "C11"], format!("{} sent a record for unknown session {:08x}", who, id));
                return None;
            }
        };
        let gen = s.gens[d];
        let (seq, estab) = (s.dir(d).seq, s.estab);
        let mut got = s.open(t, d, p);
        if got.is_err() && d == RSP {
            // a refused update answers under the keys before it
            if let Some((i, app, _)) = &self.ku {
                if *i == id && s.estab {
                    let new = s.app[RSP].clone();
                    s.app[RSP] = app[RSP].clone();
                    match s.open(t, d, p) {
                        Ok((m, a)) if !a && m.get(1) == Some(&ERROR) => got = Ok((m, a)),
                        _ => s.app[RSP] = new,
                    }
                }
            }
        }
        match got {
            Ok((m, app)) => {
                self.records += 1;
                Some((Some(id), m, app))
            }
            Err(x) => {
                let tags: &[&'static str] =
                    if gen > 0 { &["C07", "C08", "C10", "C09"] } else { &["C07", "C08", "C09"] };
                self.f.add(
                    tags,
                    format!(
                        "{} record in session {:08x} (established {}, key generation {}, sequence {}): {}",
                        who, id, estab, gen, seq, x
                    ),
                );
                None
            }
        }
    }
    fn tx_rsp(&mut self, frame: &[u8]) {
        self.digest = self.digest.rotate_left(5) ^ fnv(&frame[..frame.len().min(4)]);
        let (k, p) = match unframe(self.t, frame) {
            Some(x) => x,
            None => {
                self.f.add(&["C19"], format!("responder sent a malformed frame {}", hexs(frame)));
                return;
            }
        };
        self.answered += 1;
        if self.answered > 1 {
            self.f.add(&["C13"], format!("{} responses to one request; the extra one is {}", self.answered, hexs(frame)));
        }
        let (sess, msg, app) = match k {
            Kind::Clear => (None, p, false),
            Kind::Secured => match self.open(RSP, &p) {
                Some(x) => x,
                None => {
                    self.cur = None;
                    return;
                }
            },
        };
        self.last = Some((sess, msg.clone(), app));
        if let Some((i, app, gens)) = self.ku.take() {
            if msg.get(1) == Some(&ERROR) {
                if let Some(s) = self.m.s(i) {
                    s.app[REQ] = app[REQ].clone();
                    if gens[RSP] != s.gens[RSP] && s.app[RSP].key != app[RSP].key {
                        self.f.add(&["C10"], "a refused key update changed the response key".into());
                    }
                    s.gens = gens;
                }
            }
        }
        let (qs, q, qapp) = match self.cur.take() {
            Some(x) => x,
            None => return,
        };
        if qs != sess || qapp != app {
            self.f.add(
                &["C13", "C11"],
                format!("request in {:?} (app {}) answered in {:?} (app {}): {}", qs, qapp, sess, app, hexs(&msg)),
            );
            return;
        }
        if app {
            return;
        }
        self.exchanges += 1;
        if msg.get(1) != Some(&ERROR) {
            self.did.push((qs, q.get(1).copied().unwrap_or(0)));
        }
        if msg.get(1) == Some(&ERROR) {
            self.errors += 1;
            self.error_shape(&q, &msg);
        } else {
            self.rsp_fresh(&q, &msg);
        }
        self.pool[Role::Rsp as usize].clear();
        self.exchange(sess, &q, &msg);
        self.maybe_gone = None;
        if self.puppet && msg.len() > 2 && msg[1] == ERROR && q.len() > 1 && (q[1] == FINISH || q[1] == PSK_FINISH) {
            let id = sess.or(self.m.last);
            if msg[2] != 6 {
                // any other refusal may end the handshake as well
                self.maybe_gone = id.filter(|i| self.m.sess.iter().any(|s| s.id == *i && !s.estab));
            } else if let Some(i) = id {
                // the handshake failed for good
                self.m.sess.retain(|s| s.id != i || s.estab);
                if self.m.last == Some(i) {
                    self.m.last = None;
                }
            }
        }
        let n = &self.m.neg;
        if self.m.conn >= 2 && n.ver >= 0x12 && n.req_dts != 0 && msg.len() > n.req_dts as usize + if self.t == Trans::Doe { 3 } else { 0 } {
            self.f.add(&["C13"], format!("response of {} bytes, the requester takes {}", msg.len(), n.req_dts));
        }
    }
    /// an ERROR is a whole message of the negotiated version
    fn error_shape(&mut self, q: &[u8], e: &[u8]) {
        let what = || format!("request {} answered with {}", hexs(q), hexs(e));
        let rc = q.get(1).copied().unwrap_or(0);
        if e.len() < 4 {
            self.f.add(&["C13", "C18"], format!("{}: not a whole ERROR", what()));
            return;
        }
        let pad = if self.t == Trans::Doe { 3 } else { 0 };
        let ext = match e[2] {
            0x0d | 0x42 => 4,
            0xff => 64,
            _ => 0,
        };
        if e.len() > 4 + ext + pad || (ext == 0 && e[4..].iter().any(|x| *x != 0)) {
            self.f.add(&["C13", "C18"], format!("{}: stray bytes", what()));
        }
        let early = self.m.conn < 2 || rc == GET_VERSION || rc == GET_CAPABILITIES;
        if !early && e[0] != self.m.neg.ver {
            self.f.add(&["C13", "C02"], format!("{}: the version is {:02x}", what(), self.m.neg.ver));
        }
        if early && ![0x10, 0x11, 0x12].contains(&e[0]) {
            self.f.add(&["C13"], format!("{}: no version of the protocol", what()));
        }
        if e[2] == 7 && q.len() > 1 && e[3] != rc {
            self.f.add(&["C13"], format!("{}: another request is named unsupported", what()));
        }
    }
    fn exchange(&mut self, sess: Option<u32>, q: &[u8], msg: &[u8]) {
        let err = msg.get(1) == Some(&ERROR);
        if !self.puppet || (self.alts.is_empty() && !err) {
            let mut f = std::mem::take(&mut self.f);
            self.m.exchange(sess, q, msg, &mut f);
            self.f = f;
            return;
        }
        let mut trs = std::mem::take(&mut self.alts);
        trs.insert(0, tr_of(&self.m));
        let mut good: Vec<Tr> = vec![];
        let mut first: Option<(Model, Finds)> = None;
        let mut best: Option<Model> = None;
        for t in &trs {
            let mut m = self.m.clone();
            set_tr(&mut m, t);
            let mut f = Finds::default();
            m.exchange(sess, q, msg, &mut f);
            if f.0.is_empty() {
                for x in [tr_of(&m), t.clone()].iter().take(1 + err as usize) {
                    if !good.contains(x) && good.len() < 8 {
                        good.push(x.clone());
                    }
                }
                if best.is_none() {
                    best = Some(m);
                }
            } else if first.is_none() {
                first = Some((m, f));
            }
        }
        match best {
            Some(m) => {
                self.m = m;
                set_tr(&mut self.m, &good[0].clone());
                self.alts = good.split_off(1);
            }
            None => {
                let (m, f) = first.unwrap();
                self.m = m;
                self.f.0.extend(f.0);
            }
        }
    }
    fn rsp_fresh(&mut self, q: &[u8], msg: &[u8]) {
        let n = self.m.neg.clone();
        let l = match rsp_lay(&n, q, msg) {
            Some(l) => l,
            None => return,
        };
        match msg[1] {
            CHALLENGE_AUTH | MEASUREMENTS => {
                let x = msg[l.nonce..l.nonce + 32].to_vec();
                self.fresh(Role::Rsp, if msg[1] == MEASUREMENTS { "MEASUREMENTS nonce" } else { "CHALLENGE_AUTH nonce" }, &x)
            }
            KEY_EXCHANGE_RSP => {
                self.fresh(Role::Rsp, "KEY_EXCHANGE_RSP random", &msg[8..40]);
                let d = dhe_size(n.dhe);
                self.fresh_dhe(Role::Rsp, "KEY_EXCHANGE_RSP public key", &msg[40..40 + d]);
            }
            PSK_EXCHANGE_RSP => {
                let (o, c) = l.ctx;
                if c > 0 {
                    let x = msg[o..o + c].to_vec();
                    self.fresh(Role::Rsp, "PSK_EXCHANGE_RSP context", &x)
                }
            }
            _ => {}
        }
    }
    /// the last request was settled: nothing more may be said about it
    pub fn settle(&mut self) {
        if self.quiet && self.answered == 0 {
            self.cur = None;
        }
    }
    pub fn alts_b(&self) -> usize {
        self.alts.iter().map(|t| t.b.len()).max().unwrap_or(0)
    }
    /// no request may be left unanswered
    pub fn end(&mut self) {
        self.step();
        if self.cur.is_some() && self.answered == 0 {
            let c = self.cur.take().unwrap();
            if !c.2 && !self.quiet {
                self.f.add(&["C13"], format!("request {} (session {:?}) got no response", hexs(&c.1), c.0));
            }
        }
    }
}
