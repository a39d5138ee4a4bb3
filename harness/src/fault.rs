//! Engine E: honest flows in which services of an endpoint fail: a first run counts the
//! calls, a second identical run lets one (or several) of them fail. The operation hit must
//! fail cleanly, and with the services back a new connection must work in full.
use crate::gen::*;
use crate::honest::*;
use crate::model::code::*;
use crate::model::*;
use crate::mon::*;
use crate::ops::*;
use crate::report::*;
use crate::sim::*;
use crate::util::*;
use crate::world::*;

const ALL: u32 = (1 << NSVC as u32) - 1;

fn names(mask: u32) -> String {
    (0..NSVC).filter(|i| mask >> i & 1 == 1).map(|i| SVC_NAMES[i]).collect::<Vec<_>>().join("+")
}
fn flavor_of(prop: &str, r: &mut Rng) -> Flavor {
    let d = Flavor { sessions: 5, keyupd: 2, app: 2, meas: 3, cert: 3, chal: 3, vendor: 1, steps: 10, full: true, ..Default::default() };
    match prop {
        "C10" => Flavor { keyupd: 8, sessions: 5, ..d },
        "C08" => Flavor { keyupd: 5, app: 5, sessions: 6, ..d },
        _ => Flavor { full: r.chance(9, 10), ..d },
    }
}
/// messages carrying fields that must be random, by who sends them
fn random_msg(who: Role, m: &[u8]) -> bool {
    match (who, m.get(1).copied().unwrap_or(0)) {
        (Role::Req, CHALLENGE) | (Role::Req, KEY_EXCHANGE) | (Role::Req, PSK_EXCHANGE) => true,
        (Role::Req, GET_MEASUREMENTS) => m.len() >= 36,
        (Role::Rsp, CHALLENGE_AUTH) | (Role::Rsp, MEASUREMENTS) | (Role::Rsp, KEY_EXCHANGE_RSP) => true,
        (Role::Rsp, PSK_EXCHANGE_RSP) => m.len() >= 12 && u16::from_le_bytes([m[8], m[9]]) > 0,
        _ => false,
    }
}
fn established(s: &Snap) -> Vec<u32> {
    s.sessions.iter().filter(|x| x.1 == 2).map(|x| x.0).collect()
}

pub fn case(p: &Plan, prop: &'static str, c: u64, r: &mut Rng, rep: &mut Report) {
    let fl = flavor_of(prop, r);
    let seed = r.next();
    let role = match r.below(5) {
        0 | 1 => Some(Role::Req),
        2 | 3 => Some(Role::Rsp),
        _ => None,
    };
    let rnd = 1u32 << Svc::Rand as u32 | 1 << Svc::DheGen as u32;
    let mask = if prop == "C21" {
        if r.chance(2, 3) { 1 << Svc::Rand as u32 } else { rnd }
    } else {
        match r.below(5) {
            0 | 1 => ALL,
            2 => 1u32 << r.below(NSVC),
            3 => 1u32 << r.below(NSVC) | 1u32 << r.below(NSVC),
            _ => ALL & !(1 << Svc::Hash as u32) & !(1 << Svc::HashUpdate as u32),
        }
    };
    let steps = r.range(2, fl.steps);
    // a first run without failures tells how many calls there are
    let mut bounds = vec![];
    let mut ops = vec![];
    {
        let mut q = Rng::new(seed);
        let mut run = Run::new(&mut q, &fl);
        with(|w| w.fault = Some(FaultPlan { role, mask, from: usize::MAX, len: 0 }));
        for _ in 0..steps {
            if run.dead || !run.mon.f.0.is_empty() {
                break;
            }
            let (op, ex) = run.choose(&mut q, &fl);
            run.step(&mut q, &op, ex);
            bounds.push(with(|w| w.fault_seen));
            ops.push(op.name());
            if matches!(op, Op::Init) && !run.inited {
                break;
            }
        }
        if run.dead || !run.mon.f.0.is_empty() {
            let f = std::mem::take(&mut run.mon.f.0);
            let ctx = || format!("config {} steps {}", CONFIG, run.log.join("; "));
            rep.finds(prop, c, &ctx, &f);
            return;
        }
    }
    let total = bounds.last().copied().unwrap_or(0);
    if total == 0 {
        rep.count("flows without a call to fail", 1);
        return;
    }
    let from = if r.bool() {
        // each kind of call of each kind of operation is as likely as another, so that rare ones fail too
        let plain = with(|w| std::mem::take(&mut w.fault_calls));
        let mut calls: Vec<(Role, Svc, &'static str, usize)> = vec![];
        let mut at = 0;
        for (op, end) in bounds.iter().enumerate() {
            let mut n: Vec<(Role, Svc)> = vec![];
            while at < *end {
                let (role, svc) = plain[at];
                let nth = n.iter().filter(|x| **x == (role, svc)).count().min(12);
                calls.push((role, svc, ops[op], nth));
                n.push((role, svc));
                at += 1;
            }
        }
        let mut kinds: Vec<(Role, Svc, &'static str, usize)> = vec![];
        for k in &calls {
            if !kinds.contains(k) {
                kinds.push(*k);
            }
        }
        let k = *r.pick(&kinds);
        let at: Vec<usize> = (0..calls.len()).filter(|i| calls[*i] == k).collect();
        *r.pick(&at)
    } else if r.chance(1, 3) {
        // in the last operation
        let lo = if bounds.len() > 1 { bounds[bounds.len() - 2] } else { 0 };
        if lo < total { r.range(lo, total - 1) } else { r.below(total) }
    } else {
        r.below(total)
    };
    let len = match r.below(4) {
        0 => r.range(2, 6),
        1 => 1000,
        _ => 1,
    };
    let hit_op = bounds.iter().position(|b| *b > from).unwrap();

    let mut q = Rng::new(seed);
    let mut run = Run::new(&mut q, &fl);
    with(|w| {
        w.fault = Some(FaultPlan { role, mask, from, len });
        w.record = true;
    });
    let mut f = Finds::default();
    let mut what: Vec<String> = vec![];
    for i in 0..hit_op {
        let (op, ex) = run.choose(&mut q, &fl);
        run.step(&mut q, &op, ex);
        if run.dead || !run.mon.f.0.is_empty() {
            // cannot happen: the same run was clean
            f.add(&["C23"], format!("a repeated run took another course at step {}", i));
        }
    }
    let more = if r.bool() { r.below(6) } else { 0 };
    let mut hits = 0;
    for i in 0..=more {
        if !f.0.is_empty() {
            break;
        }
        let (op, _) = run.choose(&mut q, &fl);
        // sessions the ends no longer share cannot be used meaningfully, but must not hurt
        let (qa, sa) = (run.s.snap_req(), run.s.snap_rsp());
        let others: Vec<u32> = established(&qa).into_iter().filter(|x| Some(*x) != op.session()).collect();
        let keys: Vec<_> = others.iter().map(|x| run.keys(*x)).collect();
        let before = with(|w| w.faults_fired);
        with(|w| w.ev.clear());
        let out = crate::ops::run(&mut run.s, &op);
        let fired = with(|w| w.faults_fired) - before;
        hits += fired;
        let ev = with(|w| std::mem::take(&mut w.ev));
        run.log.push(format!("{}={}", op_str(&op), out.show()));
        let mut first: Option<(Role, Svc)> = None;
        let mut at_req = false;
        let mut no_rand: [bool; 3] = [false; 3];
        let mut needed = 0;
        let t = run.s.trans;
        for e in ev.iter() {
            match e {
                Ev::Fault { role, svc, nth } => {
                    if first.is_none() {
                        first = Some((*role, *svc));
                    }
                    at_req |= *role == Role::Req;
                    // an abandoned hash context is finalised too, with nothing done with the result
                    needed += (*svc != Svc::HashFinal) as usize;
                    if what.len() < 12 {
                        what.push(format!("{:?} {} fails (call {}, in {})", role, SVC_NAMES[*svc as usize], nth, op.name()));
                    }
                    rep.count(&format!("failed {:?} {}", role, SVC_NAMES[*svc as usize]), 1);
                    if matches!(svc, Svc::Rand) {
                        no_rand[*role as usize] = true;
                        rep.count("failures of the random source", 1);
                    }
                }
                Ev::Tx { role, frame } if no_rand[*role as usize] => {
                    if let Some((Kind::Clear, m)) = unframe(t, frame) {
                        if random_msg(*role, &m) {
                            f.add(&["C21", "C23"], format!("{:?} sent {} although its random source failed", role, hexs(&m)));
                        }
                    }
                }
                Ev::Enc { role, pt, .. } if no_rand[*role as usize] => {
                    // the plaintext holds the message behind its two length bytes and a header
                    for o in [2usize, 3] {
                        if pt.len() > o + 2 && random_msg(*role, &pt[o..]) && pt[o] >= 0x10 && pt[o] <= 0x12 {
                            f.add(&["C21", "C23"], format!("{:?} sent {} although its random source failed", role, hexs(&pt[o..])));
                            break;
                        }
                    }
                }
                _ => {}
            }
        }
        let whole = || match first {
            Some((r, s)) => format!("{:?} {} failed", r, SVC_NAMES[s as usize]),
            None => "an earlier failure".to_string(),
        };
        if let Out::Panic(p) = &out {
            f.add(&["C23", "C15"], format!("{} in {} after {}", p.show(), op.name(), whole()));
            break;
        }
        if let Some(p) = run.s.rsp_panic() {
            f.add(&["C23", "C14"], format!("{} serving {} after {}", p.show(), op.name(), whole()));
            break;
        }
        for x in with(|w| std::mem::take(&mut w.nonce_reuse)) {
            f.add(&["C08", "C23"], x);
        }
        let (qb, sb) = (run.s.snap_req(), run.s.snap_rsp());
        if fired > 0 {
            rep.count(&format!("hit {}", op.name()), 1);
            if out.is_ok() && needed > 0 {
                f.add(&["C23"], format!("{} succeeded although {}", op.name(), whole()));
            }
        }
        let fresh = |a: &Snap, b: &Snap| -> Vec<u32> {
            let x = established(a);
            established(b).into_iter().filter(|i| !x.contains(i)).collect()
        };
        if !out.is_ok() {
            let n = fresh(&qa, &qb);
            if !n.is_empty() {
                f.add(&["C23", "C11"], format!("{} failed ({}), yet the requester holds new established sessions {:x?}", op.name(), whole(), n));
            }
            if qb.conn == 6 && qa.conn != 6 {
                f.add(&["C23"], format!("{} failed ({}), yet the requester's connection is authenticated", op.name(), whole()));
            }
            if fired > 0 && !at_req {
                let n = fresh(&sa, &sb);
                if !n.is_empty() {
                    f.add(&["C23"], format!("{} failed ({}), yet the responder holds new established sessions {:x?}", op.name(), whole(), n));
                }
                if sb.conn == 6 && sa.conn != 6 {
                    f.add(&["C23"], format!("{} failed ({}), yet the responder's connection is authenticated", op.name(), whole()));
                }
            }
            if matches!(op, Op::Start(..)) {
                let l = |s: &Snap| {
                    let mut v: Vec<u32> = s.sessions.iter().map(|x| x.0).filter(|x| *x != 0).collect();
                    v.sort_unstable();
                    v
                };
                // a responder that answers with an error, or cannot answer, knows of the failure
                let knows = |s: Svc| !matches!(s, Svc::Recv | Svc::Decrypt | Svc::HashFinal);
                // (in an encapsulated exchange the refusal leaves it to the requester to go on)
                let plain = !MUTAUTH || matches!(op, Op::Start(true, ..));
                if plain && matches!(first, Some((Role::Rsp, s)) if knows(s)) && !at_req && l(&sa) != l(&sb) {
                    f.add(&["C11", "C23"], format!("{} failed ({}); the responder's sessions went from {:x?} to {:x?}", op.name(), whole(), l(&sa), l(&sb)));
                }
                if l(&qa) != l(&qb) {
                    f.add(&["C11", "C23"], format!("{} failed ({}); the requester's sessions went from {:x?} to {:x?}", op.name(), whole(), l(&qa), l(&qb)));
                }
            }
        }
        if !matches!(op, Op::Init) {
            for (id, k) in others.iter().zip(keys) {
                let now = run.keys(*id);
                // sessions only one end still has are compared where they are
                if now.len() == k.len() && now != k {
                    f.add(&["C11", "C23"], format!("{} ({}) changed the keys of session {:08x}", op.name(), whole(), id));
                }
            }
        }
        match &out {
            Out::Ok(res) => match &op {
                Op::Init => {
                    run.inited = true;
                    run.certs = false;
                    run.live.clear();
                }
                Op::Cert(..) => run.certs = true,
                Op::Start(..) => run.live.extend(res.session),
                Op::End(i) => {
                    let i = *i;
                    run.live.retain(|x| *x != i)
                }
                _ => {}
            },
            _ => {
                if matches!(op, Op::Init) {
                    run.inited = false;
                    run.live.clear();
                }
                let l: Vec<u32> = qb.sessions.iter().map(|x| x.0).collect();
                run.live.retain(|x| l.contains(x));
            }
        }
        let _ = i;
    }
    rep.count("calls that failed", hits as u64);
    rep.count("operations hit", what.is_empty() as u64 ^ 1);
    // with the services back, a new connection works
    if f.0.is_empty() {
        with(|w| {
            w.fault = None;
            w.ev.clear();
        });
        run.log.push("services back".into());
        run.mon = Mon::new(run.s.trans, &run.q, &run.sp);
        run.app_log.borrow_mut().clear();
        run.vendor_log.borrow_mut().clear();
        run.inited = false;
        run.certs = false;
        run.live.clear();
        run.s.link.borrow_mut().to_req.clear();
        for _ in 0..r.range(4, 12) {
            let (op, ex) = run.choose(&mut q, &fl);
            run.step(&mut q, &op, ex);
            if run.dead || !run.mon.f.0.is_empty() || (matches!(op, Op::Init) && !run.inited) {
                break;
            }
            rep.count(&format!("recovered {}", op.name()), 1);
        }
        for mut x in std::mem::take(&mut run.mon.f.0) {
            if !x.props.contains(&"C23") {
                x.props.push("C23");
            }
            x.msg = format!("after the services were back: {}", x.msg);
            f.0.push(x);
        }
        rep.count("recoveries", 1);
    }
    let ctx = || {
        format!(
            "config {} transport {:?} version {:02x} failing {} from {} x{} of {:?}; {} steps {}",
            CONFIG,
            run.s.trans,
            run.ver(),
            names(mask),
            from,
            len,
            role,
            what.join("; "),
            run.log.join("; ")
        )
    };
    if p.verbose {
        println!("{}", ctx());
        for x in &f.0 {
            println!("  FIND {:?} {}", x.props, x.msg);
        }
    }
    rep.seen(run.log.iter().chain(what.iter()).fold(11u64, |a, x| a.rotate_left(7) ^ fnv(x.as_bytes())));
    rep.sample(|| ctx());
    rep.finds(prop, c, &ctx, &f.0);
}
