//! Engine D: an adversary on the wire between two real endpoints. It changes, drops,
//! duplicates, reorders, replays, injects and coherently rewrites frames. The oracle only
//! compares bytes: an operation that authenticates may report success only if every
//! exchange it covers was sent and received alike by both endpoints.
use crate::gen::*;
use crate::model::code::*;
use crate::model::*;
use crate::ops::*;
use crate::report::*;
use crate::sim::*;
use crate::util::*;
use crate::world::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

/// stands for any secured record
const SECURED: u8 = 0xF0;

/// what the adversary does in this round
#[derive(Clone, Debug)]
enum Mode {
    Off,
    /// any frame, with probability n/d
    Random(usize, usize),
    /// the n-th frame of this message code
    Code(u8, usize),
    /// a coherent rewriting of the negotiation
    Rewrite(u8, u8),
}
struct Adv {
    r: Rng,
    t: Trans,
    mode: Mode,
    seen: HashMap<u8, usize>,
    /// frames of earlier, by direction
    old: [Vec<Vec<u8>>; 2],
    by_code: HashMap<u8, Vec<Vec<u8>>>,
    held: [Option<Vec<u8>>; 2],
    swallow: usize,
    hits: Vec<String>,
    /// what the requester originally asked for, to undo a rewriting in the answer
    orig: Vec<u8>,
}
impl Adv {
    fn hit(&mut self, s: String) {
        if self.hits.len() < 40 {
            self.hits.push(s);
        }
    }
    fn act(&mut self, to_rsp: bool, f: &[u8]) -> Vec<Vec<u8>> {
        let d = to_rsp as usize;
        if !to_rsp && self.swallow > 0 {
            self.swallow -= 1;
            return vec![];
        }
        let (k, p) = match unframe(self.t, f) {
            Some(x) => x,
            None => return vec![f.to_vec()],
        };
        let code = if k == Kind::Clear { p.get(1).copied().unwrap_or(0) } else { SECURED };
        let n = {
            let e = self.seen.entry(code).or_insert(0);
            *e += 1;
            *e - 1
        };
        if self.old[d].len() < 60 {
            self.old[d].push(f.to_vec());
        }
        let v = self.by_code.entry(code).or_default();
        if v.len() < 12 {
            v.push(f.to_vec());
        }
        let out = match self.mode.clone() {
            Mode::Off => vec![f.to_vec()],
            Mode::Random(a, b) => {
                if self.r.chance(a, b) {
                    self.any(to_rsp, f, k, &p, code)
                } else {
                    vec![f.to_vec()]
                }
            }
            Mode::Code(c, i) => {
                if c == code && i == n {
                    self.any(to_rsp, f, k, &p, code)
                } else {
                    vec![f.to_vec()]
                }
            }
            Mode::Rewrite(kind, bit) => {
                if k == Kind::Clear {
                    vec![frame(self.t, k, &self.rewrite(kind, bit, code, p))]
                } else {
                    vec![f.to_vec()]
                }
            }
        };
        // a frame held back comes after this one
        let mut out = out;
        if let Some(h) = self.held[d].take() {
            if self.r.bool() {
                out.push(h)
            } else {
                self.held[d] = Some(h)
            }
        }
        out
    }
    fn any(&mut self, to_rsp: bool, f: &[u8], k: Kind, p: &[u8], code: u8) -> Vec<Vec<u8>> {
        let d = to_rsp as usize;
        let dir = if to_rsp { "request" } else { "response" };
        let mut p = p.to_vec();
        let t = self.t;
        match self.r.below(16) {
            0 => {
                self.hit(format!("{} {:02x} dropped", dir, code));
                vec![]
            }
            1 => {
                self.hit(format!("{} {:02x} twice", dir, code));
                if to_rsp && self.r.bool() {
                    self.swallow += 1;
                }
                vec![f.to_vec(), f.to_vec()]
            }
            2 | 3 | 4 | 5 => {
                // one byte, early ones more often
                let n = p.len();
                if n == 0 {
                    return vec![f.to_vec()];
                }
                let lim = if self.r.chance(2, 3) { n.min(48) } else { n };
                let i = self.r.below(lim);
                let old = p[i];
                p[i] = match self.r.below(4) {
                    0 => self.r.u8(),
                    1 => old.wrapping_add(1),
                    _ => old ^ (1 << self.r.below(8)),
                };
                self.hit(format!("{} {:02x} byte {} {:02x}->{:02x}", dir, code, i, old, p[i]));
                vec![frame(t, k, &p)]
            }
            6 => {
                let n = self.r.below(p.len() + 1);
                self.hit(format!("{} {:02x} cut to {} of {}", dir, code, n, p.len()));
                p.truncate(n);
                vec![frame(t, k, &p)]
            }
            7 => {
                let n = self.r.range(1, 40);
                self.hit(format!("{} {:02x} longer by {}", dir, code, n));
                let x = self.r.bytes(n);
                p.extend_from_slice(&x);
                vec![frame(t, k, &p)]
            }
            8 | 9 => {
                // an earlier message of this kind
                let v = self.by_code.get(&code).cloned().unwrap_or_default();
                if v.len() < 2 {
                    return vec![f.to_vec()];
                }
                let i = self.r.below(v.len() - 1);
                self.hit(format!("{} {:02x} replaced by an earlier one", dir, code));
                vec![v[i].clone()]
            }
            10 => {
                let v = &self.old[d];
                let x = self.r.pick(v).clone();
                self.hit(format!("{} {:02x} replaced by another message", dir, code));
                vec![x]
            }
            11 => {
                self.hit(format!("{} {:02x} held back", dir, code));
                self.held[d] = Some(f.to_vec());
                vec![]
            }
            12 | 13 => {
                // something in front of it
                let x = if to_rsp && self.r.bool() {
                    let v = p.first().copied().unwrap_or(0x10);
                    let m = match self.r.below(5) {
                        0 => vec![0x10, GET_VERSION, 0, 0],
                        1 => vec![v, GET_DIGESTS, 0, 0],
                        2 => vec![v, GET_CERTIFICATE, 0, 0, 0, 0, 0xff, 0],
                        3 => {
                            let mut x = vec![v, CHALLENGE, 0, 0];
                            x.extend_from_slice(&self.r.bytes(32));
                            x
                        }
                        _ => vec![v, GET_MEASUREMENTS, 0, 0],
                    };
                    frame(t, Kind::Clear, &m)
                } else {
                    let v = &self.old[d];
                    self.r.pick(v).clone()
                };
                let c = unframe(t, &x).and_then(|x| x.1.get(1).copied()).unwrap_or(0);
                self.hit(format!("{:02x} injected before {} {:02x}", c, dir, code));
                if to_rsp && self.r.chance(2, 3) {
                    self.swallow += 1;
                }
                vec![x, f.to_vec()]
            }
            14 => {
                self.hit(format!("{} {:02x} replaced by an error", dir, code));
                let v = p.first().copied().unwrap_or(0x10);
                let e = *self.r.pick(&[1u8, 3, 4, 5, 6, 7, 0x41, 0x42, 0x43]);
                vec![frame(t, k, &[v, ERROR, e, 0])]
            }
            _ => {
                // several bytes at once
                let n = p.len();
                if n < 4 {
                    return vec![f.to_vec()];
                }
                let i = self.r.below(n);
                let l = self.r.range(1, (n - i).min(32));
                let x = self.r.bytes(l);
                p[i..i + l].copy_from_slice(&x);
                self.hit(format!("{} {:02x} bytes {}..{} replaced", dir, code, i, i + l));
                vec![frame(t, k, &p)]
            }
        }
    }
    /// changes that keep the negotiation consistent for whoever sees only one side
    fn rewrite(&mut self, kind: u8, bit: u8, code: u8, mut p: Vec<u8>) -> Vec<u8> {
        let was = p.clone();
        match (kind, code) {
            // a lower version
            (0, VERSION) if p.len() > 8 => {
                let n = p[5] as usize;
                let es: Vec<Vec<u8>> = p[6..].chunks(2).take(n).map(|c| c.to_vec()).collect();
                let top = es.iter().map(|e| e[1]).max().unwrap_or(0);
                let es: Vec<Vec<u8>> = es.into_iter().filter(|e| e[1] != top).collect();
                p.truncate(6);
                p[5] = es.len() as u8;
                for e in es {
                    p.extend_from_slice(&e);
                }
            }
            (1, GET_CAPABILITIES) if p.len() >= 12 => p[8 + (bit as usize / 8) % 3] ^= 1 << (bit % 8),
            (2, CAPABILITIES) if p.len() >= 12 => p[8 + (bit as usize / 8) % 3] ^= 1 << (bit % 8),
            (3, GET_CAPABILITIES) | (3, CAPABILITIES) if p.len() >= 12 => {
                p[8 + (bit as usize / 8) % 3] &= !(1 << (bit % 8))
            }
            (4, CAPABILITIES) | (4, GET_CAPABILITIES) if p.len() >= 12 => {
                let i = if p.len() >= 20 { 12 + bit as usize % 8 } else { 5 };
                p[i] = p[i].wrapping_add(1 + bit % 7);
                if p.len() < 20 {
                    p[5] %= 32;
                }
            }
            // fewer algorithms
            (5, NEGOTIATE_ALGORITHMS) if p.len() >= 32 => {
                self.orig = p.clone();
                self.weaken(&mut p, bit);
            }
            (6, ALGORITHMS) if p.len() >= 36 => {
                // another selection
                let n = p[2] as usize;
                match bit % 6 {
                    0 => p[6] ^= 1,
                    1 => p[8 + 0] ^= 3 << (bit % 4),
                    2 => p[12] = p[12].rotate_left(1 + bit as u32 % 7),
                    3 => p[16] = (p[16] << 1 | p[16] >> 2) & 7,
                    4 => p[7] ^= 3,
                    _ => {
                        if n > 0 {
                            let o = 36 + 4 * (bit as usize % n);
                            if o + 3 < p.len() {
                                p[o + 2] = p[o + 2].rotate_left(1 + bit as u32 % 3);
                            }
                        }
                    }
                }
            }
            // what protects later messages
            (7, CHALLENGE) if p.len() >= 36 => {
                if bit % 3 == 0 {
                    p[2] ^= 1
                } else if bit % 3 == 1 {
                    p[3] ^= 0xff
                } else {
                    p[4 + bit as usize % 32] ^= 1 << (bit % 8)
                }
            }
            (7, GET_MEASUREMENTS) if p.len() >= 4 => {
                if bit % 3 == 0 {
                    p[3] ^= if bit & 8 == 0 { 0xff } else { 3 }
                } else if bit % 3 == 1 {
                    p[2] ^= 2
                } else if p.len() >= 36 {
                    p[4 + bit as usize % 32] ^= 1 << (bit % 8)
                }
            }
            (7, KEY_EXCHANGE) | (7, PSK_EXCHANGE) if p.len() >= 12 => {
                let n = p.len().min(40);
                let i = 2 + bit as usize % (n - 2);
                p[i] ^= 1 << (bit % 8);
            }
            (8, DIGESTS) if p.len() >= 8 => {
                let n = p.len();
                if bit % 3 == 0 {
                    p[3] ^= 1 << (bit % 8)
                } else {
                    p[4 + bit as usize % (n - 4)] ^= 1 << (bit % 8)
                }
            }
            (9, CHALLENGE_AUTH) | (9, MEASUREMENTS) | (9, KEY_EXCHANGE_RSP) | (9, PSK_EXCHANGE_RSP) if p.len() >= 8 => {
                let n = p.len();
                let i = 2 + self.r.below(n - 2);
                p[i] ^= 1 << (bit % 8);
            }
            // an algorithm removed from the offer and the answer made to look untouched
            (10, NEGOTIATE_ALGORITHMS) if p.len() >= 32 => {
                self.orig = p.clone();
                self.weaken(&mut p, bit);
            }
            (10, ALGORITHMS) if p.len() >= 36 && self.orig.len() >= 32 => {
                let i = 1 + bit as usize % 2;
                if i == 1 {
                    p[5] = p[5]; // length as the responder gave it
                }
                p[3] ^= bit & 1;
            }
            _ => {}
        }
        if p != was {
            self.hit(format!("message {:02x} rewritten (kind {} bit {})", code, kind, bit));
        }
        p
    }
    fn weaken(&mut self, p: &mut Vec<u8>, bit: u8) {
        // clear the strongest offer of one category
        let clear_top = |b: &mut u8| {
            if *b != 0 {
                *b &= !(1 << (7 - b.leading_zeros()));
            }
        };
        let n = p[2] as usize;
        match bit % 5 {
            0 => clear_top(&mut p[8]),
            1 => clear_top(&mut p[12]),
            2 => {
                p[6] = 0;
            }
            3 => {
                if p[7] != 0 {
                    p[7] &= p[7] - 1
                }
            }
            _ => {
                if n > 0 {
                    let o = 32 + 4 * (bit as usize / 5 % n);
                    if o + 3 < p.len() {
                        clear_top(&mut p[o + 2]);
                    }
                }
            }
        }
    }
}

type Ex = (Vec<u8>, Vec<u8>);
/// sent and received alike: nothing the receiver uses differs (bytes behind the message and
/// missing zero padding are not used)
fn alike(sent: &[u8], got: &[u8]) -> bool {
    // variable-length messages may end in transport padding
    let end = match sent.get(1) {
        Some(&VERSION) if sent.len() >= 6 => (6 + 2 * sent[5] as usize).min(sent.len()),
        Some(&CERTIFICATE) if sent.len() >= 8 => (8 + u16::from_le_bytes([sent[4], sent[5]]) as usize).min(sent.len()),
        Some(&GET_MEASUREMENTS) if sent.len() >= 36 => (if sent[0] == 0x10 { 36 } else { 37 }).min(sent.len()),
        Some(&CHALLENGE_AUTH) | Some(&MEASUREMENTS) | Some(&KEY_EXCHANGE_RSP) | Some(&PSK_EXCHANGE_RSP) | Some(&KEY_EXCHANGE)
        | Some(&PSK_EXCHANGE) => {
            sent.len() - sent.iter().rev().take(3).take_while(|b| **b == 0).count()
        }
        _ => sent.len(),
    };
    let sent = &sent[..end];
    got.starts_with(sent) || (sent.starts_with(got) && sent.len() - got.len() <= 3 && sent[got.len()..].iter().all(|b| *b == 0))
}
fn show(e: &Ex) -> String {
    format!("{} -> {}", hexs(&e.0), hexs(&e.1))
}

#[derive(Default)]
struct Seen {
    /// exchanges as the requester saw them, and as the responder saw them
    req: Vec<Ex>,
    rsp: Vec<Ex>,
    auth: u64,
    rsp_auth: u64,
}
impl Seen {
    /// exchanges of the operation that just ended, from the requester's side
    fn take(&mut self, sim: &mut Sim, t: Trans) -> Vec<Ex> {
        let mut op = vec![];
        let mut last: Option<Vec<u8>> = None;
        for e in with(|w| std::mem::take(&mut w.ev)) {
            match e {
                Ev::Tx { role: Role::Req, frame } => {
                    last = unframe(t, &frame).filter(|x| x.0 == Kind::Clear).map(|x| x.1);
                }
                Ev::Rx { role: Role::Req, frame } => {
                    if let (Some(q), Some((Kind::Clear, p))) = (last.take(), unframe(t, &frame)) {
                        op.push((q, p));
                    }
                }
                _ => {}
            }
        }
        self.req.extend(op.iter().cloned());
        let pm = std::mem::take(&mut sim.link.borrow_mut().pm);
        for x in pm {
            if let (Some((Kind::Clear, q)), Some(a)) = (unframe(t, &x.frame), x.sent.first()) {
                if let Some((Kind::Clear, p)) = unframe(t, a) {
                    self.rsp.push((q, p));
                }
            }
        }
        op
    }
    /// the exchanges `need` of the requester, the last one the authenticating one, must be
    /// among those of the responder's current connection, in order
    fn covered(mine: &[Ex], other: &[Ex], mine_is_req: bool) -> Result<(), String> {
        let same = |m: &Ex, o: &Ex| {
            let (r, s) = if mine_is_req { (m, o) } else { (o, m) };
            alike(&r.0, &s.0) && alike(&s.1, &r.1)
        };
        let last = match mine.last() {
            Some(l) => l,
            None => return Err("nothing was exchanged".into()),
        };
        let mut why = format!("the other side never had the exchange {}", show(last));
        for j in (0..other.len()).rev() {
            if !same(last, &other[j]) {
                continue;
            }
            let from = (0..=j).rev().find(|i| other[*i].0.get(1) == Some(&GET_VERSION) && other[*i].1.get(1) == Some(&VERSION)).unwrap_or(0);
            let mut at = from;
            let mut ok = true;
            for m in mine {
                match (at..=j).find(|i| same(m, &other[*i])) {
                    Some(i) => at = i + 1,
                    None => {
                        // GET_VERSION itself may repeat
                        if m.0.get(1) == Some(&GET_VERSION) && same(m, &other[from]) {
                            continue;
                        }
                        why = format!("the other side did not have the exchange {}", show(m));
                        ok = false;
                        break;
                    }
                }
            }
            if ok {
                return Ok(());
            }
        }
        Err(why)
    }
}

pub fn case(p: &Plan, prop: &'static str, c: u64, r: &mut Rng, rep: &mut Report) {
    reset_world(r.next());
    let w = Want { full: true, one_algo: r.chance(1, 4), multi_slot: r.chance(1, 3), ..Default::default() };
    let (q, sp) = gen_pair(r, w);
    let t = if r.chance(1, 3) { Trans::Doe } else { Trans::Mctp };
    let mut sim = Sim::new(t, Some(&q), Some(&sp));
    let adv = Rc::new(RefCell::new(Adv {
        r: r.fork(77),
        t,
        mode: Mode::Off,
        seen: Default::default(),
        old: Default::default(),
        by_code: Default::default(),
        held: Default::default(),
        swallow: 0,
        hits: vec![],
        orig: vec![],
    }));
    {
        let a = adv.clone();
        let mut l = sim.link.borrow_mut();
        l.adv = Some(Box::new(move |to_rsp, _n, f| a.borrow_mut().act(to_rsp, f)));
        l.keep_pm = true;
        l.budget = 3000;
    }
    with(|w| w.psk_replays = sp.caps & C_PSK != 0);
    let mut fs = Finds::default();
    let mut log: Vec<String> = vec![];
    let mut v = Seen::default();
    let rounds = r.range(2, 4);
    let slots: Vec<u8> = (0..8).filter(|i| sp.chains[*i as usize].is_some()).collect();
    let mut hits = 0u64;
    'rounds: for round in 0..rounds + 1 {
        let honest = round == 0 && r.chance(1, 3) || round == rounds;
        {
            let mut a = adv.borrow_mut();
            a.seen.clear();
            a.swallow = 0;
            a.held = Default::default();
            a.hits.clear();
            a.mode = if honest {
                Mode::Off
            } else {
                match r.below(8) {
                    0 => Mode::Random(1, 3),
                    1 => Mode::Random(1, 8),
                    2 | 3 => {
                        let c = *r.pick(&[
                            GET_VERSION, VERSION, GET_CAPABILITIES, CAPABILITIES, NEGOTIATE_ALGORITHMS, ALGORITHMS, GET_DIGESTS,
                            DIGESTS, GET_CERTIFICATE, CERTIFICATE, CHALLENGE, CHALLENGE_AUTH, GET_MEASUREMENTS, MEASUREMENTS,
                            KEY_EXCHANGE, KEY_EXCHANGE_RSP, FINISH, FINISH_RSP, PSK_EXCHANGE, PSK_EXCHANGE_RSP, SECURED,
                        ]);
                        Mode::Code(c, r.below(3))
                    }
                    _ => Mode::Rewrite(r.below(11) as u8, r.u8()),
                }
            };
        }
        log.push(format!("round {} {:?}", round, adv.borrow().mode));
        let mut base: Vec<Ex> = vec![];
        let mut b: Vec<Ex> = vec![];
        let mut m: Vec<Ex> = vec![];
        let (mut b_ok, mut m_ok) = (true, true);
        let mut plan = vec![Op::Init];
        let mut i = 0;
        while i < plan.len() {
            let op = plan[i].clone();
            i += 1;
            with(|w| w.record = true);
            let before = v.rsp.len();
            let _ = before;
            let out = run(&mut sim, &op);
            let exs = v.take(&mut sim, t);
            log.push(format!("{}={}", op_str(&op), out.show()));
            rep.count(&format!("op {}", op.name()), 1);
            if let Out::Panic(x) = &out {
                if x.in_harness() && !x.is_budget() {
                    eprintln!("HARNESS-FAILURE: {}", x.show());
                } else {
                    fs.add(&["C15", "C03"], format!("{} in {}", x.show(), op.name()));
                }
                break 'rounds;
            }
            if let Some(x) = sim.rsp_panic() {
                fs.add(&["C14", "C03"], format!("{} of the responder in {}", x.show(), op.name()));
                break 'rounds;
            }
            let ok = out.is_ok();
            // transcripts the operation resets
            match &op {
                Op::Meas(..) | Op::Start(..) => b.clear(),
                Op::Digest(_) => b.clear(),
                _ => {}
            }
            if !matches!(op, Op::Meas(..)) {
                m.clear();
                m_ok = true;
            }
            let mut need: Option<Vec<Ex>> = None;
            match &op {
                Op::Init if ok => base = exs.clone(),
                Op::Digest(_) => {
                    b_ok = ok;
                    if ok {
                        b.extend(exs.clone())
                    }
                }
                Op::Cert(..) => {
                    if ok {
                        b.extend(exs.clone())
                    } else {
                        b_ok = false
                    }
                }
                Op::Challenge(..) if ok => {
                    let mut n = base.clone();
                    if b_ok {
                        n.extend(b.clone());
                    }
                    n.extend(exs.clone());
                    need = Some(n);
                    // this one is completed; it is not followed by another in this connection
                }
                Op::Meas(_, _, a, _) => {
                    if !ok {
                        m_ok = false;
                    } else if a & 1 == 0 {
                        m.extend(exs.clone())
                    } else {
                        let ver = sim.snap_req().ver;
                        let mut n = if ver >= 0x12 { base.clone() } else { vec![] };
                        if m_ok {
                            n.extend(m.clone());
                        }
                        n.extend(exs.clone());
                        need = Some(n);
                        m.clear();
                    }
                }
                Op::Start(..) if ok => {
                    let mut n = base.clone();
                    n.extend(exs.clone());
                    need = Some(n);
                }
                _ => {}
            }
            let attacked = adv.borrow().hits.len();
            if let Some(n) = need {
                v.auth += 1;
                rep.count(if attacked > 0 { "authentications under attack" } else { "authentications" }, 1);
                if let Err(e) = Seen::covered(&n, &v.rsp, true) {
                    fs.add(&["C03"], format!("{} succeeded although {}", op.name(), e));
                }
                let (x, y) = (sim.snap_req(), sim.snap_rsp());
                let old_meas = matches!(op, Op::Meas(..)) && x.ver < 0x12;
                if !old_meas {
                    if x.ver != y.ver {
                        fs.add(&["C03", "C02"], format!("{} succeeded with version {:02x} against {:02x}", op.name(), x.ver, y.ver));
                    }
                    for k in 0..11 {
                        if x.nego[k] != y.nego[k] && !(k == 0 && x.ver == 0x10) {
                            fs.add(&["C03", "C02"], format!("{} succeeded with {} {:x} against {:x}", op.name(), NEGO[k], x.nego[k], y.nego[k]));
                        }
                    }
                }
                if let (Op::Start(..), Out::Ok(res)) = (&op, &out) {
                    let id = res.session.unwrap_or(0);
                    let a = sim.rq().common.get_session_via_id(id).map(|s| (sess_state(s.get_session_state()), s.export_keys()));
                    let c = sim.rs().common.get_session_via_id(id).map(|s| (sess_state(s.get_session_state()), s.export_keys()));
                    match (a, c) {
                        (Some((2, a)), Some((2, c))) => {
                            let f = |x: &spdmlib::common::session::SpdmSessionSecretParam| {
                                format!("{:02x?}{:02x?}", x.encryption_key.as_ref(), x.salt.as_ref())
                            };
                            if f(&a.0) != f(&c.0) || f(&a.1) != f(&c.1) {
                                fs.add(&["C03"], "the two ends of an established session hold different keys".into());
                            }
                        }
                        (a, c) => fs.add(
                            &["C03"],
                            format!("{} succeeded; session state {:?} against {:?}", op.name(), a.map(|x| x.0), c.map(|x| x.0)),
                        ),
                    }
                }
            }
            // what the responder considers established
            {
                let est: Vec<u32> = sim.snap_rsp().sessions.iter().filter(|x| x.1 == 2).map(|x| x.0).collect();
                for id in est {
                    let half = [(id >> 16) as u8, (id >> 24) as u8];
                    let j = v.rsp.iter().rposition(|e| {
                        e.1.len() >= 8 && matches!(e.1[1], KEY_EXCHANGE_RSP | PSK_EXCHANGE_RSP) && {
                            e.1[4] == half[0] && e.1[5] == half[1]
                        }
                    });
                    if let Some(j) = j {
                        let psk = v.rsp[j].1[1] == PSK_EXCHANGE_RSP;
                        if psk && sim.snap_rsp().nego[1] & C_PSK_CTX == 0 {
                            // established by the exchange itself, nobody is authenticated
                            continue;
                        }
                        let from = (0..=j).rev().find(|i| v.rsp[*i].0.get(1) == Some(&GET_VERSION)).unwrap_or(0);
                        // the negotiation and the exchange
                        let mine: Vec<Ex> = v.rsp[from..=j]
                            .iter()
                            .filter(|e| {
                                matches!(e.1.get(1), Some(&VERSION) | Some(&CAPABILITIES) | Some(&ALGORITHMS))
                                    || std::ptr::eq(*e, &v.rsp[j])
                            })
                            .cloned()
                            .collect();
                        v.rsp_auth += 1;
                        if let Err(e) = Seen::covered(&mine, &v.req, false) {
                            fs.add(&["C03"], format!("the responder established session {:08x} although {}", id, e));
                        }
                    }
                }
            }
            for x in with(|w| std::mem::take(&mut w.nonce_reuse)) {
                fs.add(&["C08"], x);
            }
            if !fs.0.is_empty() {
                break 'rounds;
            }
            if honest && !ok && !(!HASHED && matches!(out, Out::Err(e) if e == spdmlib::error::SPDM_STATUS_BUFFER_FULL)) {
                fs.add(&["C01", "C15"], format!("{} failed with {} on an undisturbed link", op.name(), out.show()));
                break 'rounds;
            }
            if matches!(op, Op::Init) {
                if !ok {
                    break;
                }
                let ver = sim.snap_req().ver;
                let n = sim.snap_req().nego.clone();
                let signs = can_sign(ver);
                if slots.is_empty() {
                    break;
                }
                let slot = *r.pick(&slots);
                let mut xs: Vec<Op> = vec![];
                if n[1] & R_CERT != 0 {
                    if r.chance(2, 3) {
                        xs.push(Op::Digest(None));
                    }
                    xs.push(Op::Cert(None, slot));
                    if r.chance(1, 8) {
                        xs.push(Op::Digest(None));
                    }
                }
                let small = HASHED || sp.chains[slot as usize].as_ref().map_or(0, |c| c.len()) < 900;
                if r.bool() && signs && n[1] & R_CHAL != 0 && small {
                    xs.push(Op::Challenge(slot, *r.pick(&[0u8, 1, 0xff])));
                }
                if r.bool() && n[1] & (S_MEAS_SIG | S_MEAS_NOSIG) != 0 {
                    let ms = if ver >= 0x11 { slot } else { 0 };
                    if r.chance(1, 3) {
                        xs.push(Op::Meas(None, 0, 0, 0));
                    }
                    if signs && n[1] & S_MEAS_SIG != 0 && (ver >= 0x11 || slot == 0) {
                        xs.push(Op::Meas(None, ms, 1, *r.pick(&[0u8, 0xff])));
                    }
                }
                if r.chance(2, 3) && ver >= 0x11 {
                    let psk = n[0] & C_PSK != 0 && n[1] & (C_PSK | C_PSK_CTX) != 0;
                    if psk && r.bool() {
                        xs.push(Op::Start(true, 0, *r.pick(&[0u8, 1, 0xff])));
                    } else if n[0] & n[1] & C_KEX != 0 && signs {
                        xs.push(Op::Start(false, slot, *r.pick(&[0u8, 1, 0xff])));
                    }
                }
                plan.extend(xs);
            } else if !ok && !matches!(op, Op::Digest(_)) && r.chance(2, 3) {
                // mostly start over after a failure
                break;
            }
        }
        let a = adv.borrow();
        hits += a.hits.len() as u64;
        for h in a.hits.iter() {
            log.push(format!("<{}>", h));
        }
        if honest {
            rep.count("undisturbed rounds", 1);
        } else if a.hits.is_empty() {
            rep.count("rounds the adversary left alone", 1);
        } else {
            rep.count("rounds attacked", 1);
        }
    }
    rep.count("frames attacked", hits);
    rep.count("sessions established at the responder, checked", v.rsp_auth);
    rep.seen(log.iter().fold(7u64, |a, x| a.rotate_left(7) ^ fnv(x.as_bytes())));
    if let Ok(a) = adv.try_borrow() {
        for h in a.hits.iter() {
            log.push(format!("<{}>", h));
        }
    }
    let ctx = || format!("config {} transport {:?} steps {}", CONFIG, t, log.join("; "));
    if p.verbose {
        println!("{}", ctx());
        for x in &fs.0 {
            println!("  FIND {:?} {}", x.props, x.msg);
        }
    }
    rep.sample(|| ctx());
    rep.finds(prop, c, &ctx, &fs.0);
}
