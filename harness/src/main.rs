#![allow(dead_code)]
mod alloc;
mod codec18;
mod fake;
mod gen;
mod honest;
mod model;
mod fault;
mod mitm;
mod mon;
mod ops;
mod puppet;
mod report;
mod secrets;
mod sim;
mod transp;
mod util;
mod world;
mod x509;

#[global_allocator]
static A: alloc::Scan = alloc::Scan;

use report::*;

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned()
}
macro_rules! honest_fn {
    ($n:ident, $p:literal) => {
        fn $n(p: &Plan, c: u64, r: &mut util::Rng, rep: &mut Report) {
            honest::case(p, $p, c, r, rep)
        }
    };
}
macro_rules! pup_fn {
    ($n:ident, $p:literal) => {
        fn $n(p: &Plan, c: u64, r: &mut util::Rng, rep: &mut Report) {
            puppet::case(p, $p, c, r, rep)
        }
    };
}
macro_rules! fake_fn {
    ($n:ident, $p:literal) => {
        fn $n(p: &Plan, c: u64, r: &mut util::Rng, rep: &mut Report) {
            fake::case(p, $p, c, r, rep)
        }
    };
}
fn d03(p: &Plan, c: u64, r: &mut util::Rng, rep: &mut Report) {
    mitm::case(p, "C03", c, r, rep)
}
fn e23(p: &Plan, c: u64, r: &mut util::Rng, rep: &mut Report) {
    fault::case(p, "C23", c, r, rep)
}
fn e08(p: &Plan, c: u64, r: &mut util::Rng, rep: &mut Report) {
    fault::case(p, "C08", c, r, rep)
}
fn d08(p: &Plan, c: u64, r: &mut util::Rng, rep: &mut Report) {
    mitm::case(p, "C08", c, r, rep)
}
fn e21(p: &Plan, c: u64, r: &mut util::Rng, rep: &mut Report) {
    fault::case(p, "C21", c, r, rep)
}
fn t19(p: &Plan, c: u64, r: &mut util::Rng, rep: &mut Report) {
    transp::case(p, "C19", c, r, rep)
}
fn k18(p: &Plan, c: u64, r: &mut util::Rng, rep: &mut Report) {
    codec18::case(p, "C18", c, r, rep)
}
fn x20(p: &Plan, c: u64, r: &mut util::Rng, rep: &mut Report) {
    x509::case(p, "C20", c, r, rep)
}
fake_fn!(f02, "C02");
fake_fn!(f04, "C04");
fake_fn!(f05, "C05");
fake_fn!(f07, "C07");
fake_fn!(f08, "C08");
fake_fn!(f21, "C21");
fake_fn!(f06, "C06");
fake_fn!(f09, "C09");
fake_fn!(f10, "C10");
fake_fn!(f11, "C11");
fake_fn!(f15, "C15");
fake_fn!(f16, "C16");
fake_fn!(f17, "C17");
fake_fn!(f22, "C22");
fake_fn!(f25, "C25");
fake_fn!(f26, "C26");
pup_fn!(p02, "C02");
pup_fn!(p04, "C04");
pup_fn!(p06, "C06");
pup_fn!(p07, "C07");
pup_fn!(p08, "C08");
pup_fn!(p21, "C21");
pup_fn!(p09, "C09");
pup_fn!(p10, "C10");
pup_fn!(p11, "C11");
pup_fn!(p12, "C12");
pup_fn!(p13, "C13");
pup_fn!(p14, "C14");
pup_fn!(p16, "C16");
pup_fn!(p17, "C17");
pup_fn!(p22, "C22");
pup_fn!(p26, "C26");
honest_fn!(h02, "C02");
honest_fn!(h06, "C06");
honest_fn!(h01, "C01");
honest_fn!(h04, "C04");
honest_fn!(h07, "C07");
honest_fn!(h08, "C08");
honest_fn!(h09, "C09");
honest_fn!(h10, "C10");
honest_fn!(h11, "C11");
honest_fn!(h13, "C13");
honest_fn!(h16, "C16");
honest_fn!(h17, "C17");
honest_fn!(h19, "C19");
honest_fn!(h21, "C21");
honest_fn!(h22, "C22");
honest_fn!(h26, "C26");

/// the engines of each property
const ENGINES: &[(&str, &[(&str, CaseFn)])] = &[
    ("C01", &[("honest", h01)]),
    ("C02", &[("honest", h02), ("puppet requester", p02), ("puppet responder", f02)]),
    ("C06", &[("honest", h06), ("puppet requester", p06), ("puppet responder", f06)]),
    ("C03", &[("adversary", d03)]),
    ("C23", &[("faults", e23)]),
    ("C18", &[("codec", k18)]),
    (
        "C24",
        &[
            ("honest", secrets::honest),
            ("faults", secrets::faults),
            ("puppet requester", secrets::puppet),
            ("puppet responder", secrets::fake),
            ("adversary", secrets::adversary),
        ],
    ),
    ("C19", &[("framing", t19), ("honest", h19)]),
    ("C20", &[("format check", x20)]),
    ("C12", &[("puppet requester", p12)]),
    ("C14", &[("puppet requester", p14)]),
    ("C04", &[("honest", h04), ("puppet requester", p04), ("puppet responder", f04)]),
    ("C05", &[("puppet responder", f05)]),
    ("C15", &[("puppet responder", f15)]),
    ("C25", &[("puppet responder", f25)]),
    ("C07", &[("honest", h07), ("puppet requester", p07), ("puppet responder", f07)]),
    ("C08", &[("honest", h08), ("puppet requester", p08), ("puppet responder", f08), ("faults", e08), ("adversary", d08)]),
    ("C09", &[("honest", h09), ("puppet requester", p09), ("puppet responder", f09)]),
    ("C10", &[("honest", h10), ("puppet requester", p10), ("puppet responder", f10)]),
    ("C11", &[("honest", h11), ("puppet requester", p11), ("puppet responder", f11)]),
    ("C13", &[("honest", h13), ("puppet requester", p13)]),
    ("C16", &[("honest", h16), ("puppet requester", p16), ("puppet responder", f16)]),
    ("C17", &[("honest", h17), ("puppet requester", p17), ("puppet responder", f17)]),
    ("C21", &[("honest", h21), ("faults", e21), ("puppet requester", p21), ("puppet responder", f21)]),
    ("C22", &[("honest", h22), ("puppet requester", p22), ("puppet responder", f22)]),
    ("C26", &[("honest", h26), ("puppet requester", p26), ("puppet responder", f26)]),
];

fn main() {
    let a: Vec<String> = std::env::args().collect();
    util::self_test();
    world::register_all();
    sim::install_panic_hook();
    let prop = a.get(1).cloned().unwrap_or_default();
    let num = |k: &str, d: f64| arg(&a, k).and_then(|x| x.parse::<f64>().ok()).unwrap_or(d);
    let plan = Plan {
        seed: num("--seed", 1.0) as u64,
        cases: num("--cases", 200.0) as u64,
        secs: num("--secs", 20.0),
        threads: num("--threads", 8.0) as usize,
        only: arg(&a, "--only").and_then(|x| x.parse().ok()),
        verbose: a.iter().any(|x| x == "-v"),
    };
    let start = std::time::Instant::now();
    match ENGINES.iter().find(|e| e.0 == prop) {
        Some((p, fs)) => {
            let pick = arg(&a, "--engine");
            let fs: Vec<(&'static str, CaseFn)> =
                fs.iter().copied().filter(|f| pick.as_deref().map_or(true, |x| x == f.0)).collect();
            let r = run_cases(p, &plan, &fs);
            print_report(p, &plan, &r, start.elapsed().as_secs_f64());
        }
        None => {
            eprintln!("no such property: {}", prop);
            std::process::exit(3);
        }
    }
}
