#![allow(dead_code)]
mod alloc; mod gen; mod model; mod mon; mod ops; mod sim; mod util; mod world;
#[global_allocator]
static A: alloc::Scan = alloc::Scan;
use gen::*; use model::*; use ops::*; use sim::*; use util::*; use world::*;

fn fail(m: &str) -> ! { println!("FAIL: {}", m); std::process::exit(1) }
fn check(c: bool, m: &str) { if !c { fail(m) } }
/// a pair that supports everything, and a session-capable connection
fn pair(seed: u64) -> (Ep, Ep) {
    let mut r = Rng::new(seed);
    let (mut q, mut s) = gen_pair(&mut r, Want { hitc: Some(false), ..Want::default() });
    q.vers = vec![0x12; 3]; s.vers = vec![0x12; 3];
    q.caps = R_CERT | R_CHAL | C_ENCRYPT | C_MAC | C_KEX | C_PSK | C_HBEAT | C_KEYUPD;
    s.caps = R_CERT | R_CHAL | C_ENCRYPT | C_MAC | C_KEX | S_MEAS_SIG | C_PSK_CTX | C_HBEAT | C_KEYUPD;
    for p in [&mut q, &mut s] { p.hash = 1; p.asym = 0x10; p.dhe = 8; p.aead = 2; p.req_asym = 0x10; }
    s.mhash = 2; q.mhash = 2;
    (q, s)
}
fn go(s: &mut Sim, o: Op) -> Res {
    let n = op_str(&o);
    match run(s, &o) { Out::Ok(r) => r, x => fail(&format!("{} -> {}", n, x.show())) }
}
fn boot() { util::self_test(); world::register_all(); sim::install_panic_hook(); reset_world(7); }
