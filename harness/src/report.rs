//! Collects what a check saw, in parallel threads, and prints it for the wrapper.
use crate::model::Find;
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Viol {
    pub sig: String,
    pub msg: String,
    pub case: u64,
    pub engine: &'static str,
}
#[derive(Default)]
pub struct Report {
    pub evals: u64,
    pub distinct: BTreeSet<u64>,
    pub counts: BTreeMap<String, u64>,
    pub viols: Vec<Viol>,
    pub samples: Vec<String>,
    pub other: BTreeMap<String, (u64, String)>,
}
impl Report {
    pub fn count(&mut self, k: &str, n: u64) {
        *self.counts.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let e = self.counts.entry(k.to_string()).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn seen(&mut self, h: u64) {
        if self.distinct.len() < 2_000_000 {
            self.distinct.insert(h);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 4 {
            let s = f();
            self.samples.push(s);
        }
    }
    pub fn viol(&mut self, sig: &str, case: u64, msg: String) {
        if self.viols.len() < 50 {
            self.viols.push(Viol { sig: sig.to_string(), msg, case, engine: "" });
        }
    }
    /// findings of this property are violations; the others are only counted
    pub fn finds(&mut self, prop: &str, case: u64, ctx: &dyn Fn() -> String, f: &[Find]) {
        for x in f {
            if x.props.contains(&prop) {
                let s: String = x.msg.chars().take(60).collect();
                self.viol(&s, case, format!("{} [{}]", x.msg, ctx()));
            } else {
                let k = x.props.join("+");
                let e = self.other.entry(k).or_insert_with(|| (0, format!("{} (case {})", x.msg, case)));
                e.0 += 1;
            }
        }
    }
    fn merge(&mut self, o: Report) {
        self.evals += o.evals;
        self.distinct.extend(o.distinct);
        for (k, v) in o.counts {
            if k.starts_with("max ") {
                self.max(&k, v)
            } else {
                self.count(&k, v)
            }
        }
        self.viols.extend(o.viols);
        for s in o.samples {
            if self.samples.len() < 6 {
                self.samples.push(s)
            }
        }
        for (k, v) in o.other {
            let e = self.other.entry(k).or_insert((0, v.1.clone()));
            e.0 += v.0;
        }
    }
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub seed: u64,
    pub cases: u64,
    pub secs: f64,
    pub threads: usize,
    pub only: Option<u64>,
    pub verbose: bool,
}

/// Run `f` for cases 0..n in parallel threads, until the time is up.
pub type CaseFn = fn(&Plan, u64, &mut Rng, &mut Report);
/// Case `c` is run by `fs[c % n]`. A case that does not end within `STUCK_S` seconds is
/// itself a violation: everything under test is meant to be bounded.
pub const STUCK_S: u64 = 60;
pub fn run_cases(prop: &'static str, p: &Plan, fs: &[(&'static str, CaseFn)]) -> Report {
    let total = Mutex::new(Report::default());
    let start = Instant::now();
    let stop = AtomicBool::new(false);
    let done = std::sync::atomic::AtomicU64::new(0);
    let nthreads = if p.only.is_some() { 1 } else { p.threads };
    let next = std::sync::atomic::AtomicU64::new(0);
    let slots: Vec<(std::sync::atomic::AtomicU64, std::sync::atomic::AtomicU64)> =
        (0..nthreads).map(|_| (Default::default(), Default::default())).collect();
    let finished = AtomicBool::new(false);
    std::thread::scope(|sc| {
        {
            let (slots, finished, start, total, done) = (&slots, &finished, &start, &total, &done);
            sc.spawn(move || {
                while !finished.load(Ordering::Relaxed) {
                    std::thread::sleep(Duration::from_millis(20));
                    let now = start.elapsed().as_millis() as u64;
                    for s in slots.iter() {
                        let (c, t) = (s.0.load(Ordering::Relaxed), s.1.load(Ordering::Relaxed));
                        if t != 0 && now > t + STUCK_S * 1000 {
                            let mut r = std::mem::take(&mut *total.lock().unwrap());
                            r.evals += done.load(Ordering::Relaxed) + 1;
                            r.viol("does not terminate", c, format!("engine {} case {} has been running for {} s", fs[(c as usize) % fs.len()].0, c, STUCK_S));
                            print_report(prop, p, &r, start.elapsed().as_secs_f64());
                            std::process::exit(0);
                        }
                    }
                }
            });
        }
        let mut hs = vec![];
        for ti in 0..nthreads {
            let slot = &slots[ti];
            let start = &start;
            let (total, stop, done, next) = (&total, &stop, &done, &next);
            let h = std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, move || {
                    let mut rep = Report::default();
                    let run1 = |c: u64, r: &mut Rng, rep: &mut Report| {
                        let (n, f) = fs[(c as usize) % fs.len()];
                        slot.0.store(c, Ordering::Relaxed);
                        slot.1.store(start.elapsed().as_millis() as u64 + 1, Ordering::Relaxed);
                        let v = rep.viols.len();
                        f(p, c, r, rep);
                        for x in rep.viols[v..].iter_mut() {
                            x.engine = n;
                        }
                        slot.1.store(0, Ordering::Relaxed);
                        rep.count(&format!("cases of engine {}", n), 1);
                    };
                    if let Some(c) = p.only {
                        let mut r = Rng::new(p.seed.wrapping_mul(0x1000_0001).wrapping_add(c));
                        run1(c, &mut r, &mut rep);
                        rep.evals += 1;
                    } else {
                        loop {
                            let c = next.fetch_add(1, Ordering::Relaxed);
                            if c >= p.cases || stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let mut r = Rng::new(p.seed.wrapping_mul(0x1000_0001).wrapping_add(c));
                            run1(c, &mut r, &mut rep);
                            rep.evals += 1;
                            done.fetch_add(1, Ordering::Relaxed);
                            if start.elapsed() > Duration::from_secs_f64(p.secs) {
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                    total.lock().unwrap().merge(rep);
                })
                .unwrap();
            hs.push(h);
        }
        for h in hs {
            if h.join().is_err() {
                eprintln!("HARNESS-FAILURE: a worker thread died");
                std::process::exit(3);
            }
        }
        finished.store(true, Ordering::Relaxed);
    });
    let r = total.into_inner().unwrap();
    r
}

pub fn print_report(prop: &str, p: &Plan, r: &Report, wall: f64) {
    let mut o = String::from("{");
    o.push_str(&format!("\"property\":{},\"config\":{},\"seed\":{},", jstr(prop), jstr(crate::gen::CONFIG), p.seed));
    o.push_str(&format!("\"evaluations\":{},\"distinct\":{},\"wall_s\":{:.2},", r.evals, r.distinct.len(), wall));
    let c: Vec<String> = r.counts.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
    o.push_str(&format!("\"counts\":{{{}}},", c.join(",")));
    let s: Vec<String> = r.samples.iter().map(|s| jstr(s)).collect();
    o.push_str(&format!("\"samples\":[{}],", s.join(",")));
    let s: Vec<String> = r.other.iter().map(|(k, (n, m))| format!("{}:[{},{}]", jstr(k), n, jstr(m))).collect();
    o.push_str(&format!("\"other\":{{{}}},", s.join(",")));
    let v: Vec<String> = r
        .viols
        .iter()
        .map(|v| format!("{{\"sig\":{},\"case\":{},\"engine\":{},\"msg\":{}}}", jstr(&v.sig), v.case, jstr(v.engine), jstr(&v.msg)))
        .collect();
    o.push_str(&format!("\"violations\":[{}]}}", v.join(",")));
    println!("{}", o);
}
