//! C24: the flows of the other engines with every secret followed. After each operation the
//! memory of both ends is searched for the secrets of sessions that are gone, every block
//! the library frees and every frame it sends for any secret.
use crate::report::*;
use crate::util::*;
use crate::world::*;

fn follow(p: &Plan, c: u64, r: &mut Rng, rep: &mut Report, f: fn(&Plan, &'static str, u64, &mut Rng, &mut Report)) {
    TRACK.with(|t| t.set(true));
    let _ = crate::alloc::take();
    LEAKS.with(|l| *l.borrow_mut() = Leaks::default());
    f(p, "C24", c, r, rep);
    TRACK.with(|t| t.set(false));
    crate::alloc::disarm();
    let (hits, first, size, n, bytes, overflow) = crate::alloc::take();
    let l = LEAKS.with(|l| std::mem::take(&mut *l.borrow_mut()));
    rep.count("blocks freed by the library and searched", n);
    rep.count("bytes of freed blocks searched", bytes);
    rep.count("frames searched", l.frames);
    rep.count("searches of both ends", l.settled);
    rep.count("blocks held by the library searched", l.blocks);
    rep.count("secrets of released sessions sought", l.over);
    rep.max("secrets of live sessions at once", l.kept);
    if overflow {
        rep.count("runs with more secrets or blocks than are followed", 1);
    }
    let what = with(|w| {
        w.secrets.iter().map(|s| s.what).collect::<Vec<_>>()
    });
    for x in what {
        rep.count(&format!("secret {}", x), 1);
    }
    if hits > 0 {
        // which secret it was
        let name = crate::alloc::register(&first);
        let what = with(|w| w.secrets.iter().find(|s| Some(s.pat) == name).map(|s| s.what)).unwrap_or("secret");
        rep.viol(
            &format!("freed block holds a {}", what),
            c,
            format!("config {}: {} blocks the library freed, the first of {} bytes, still held a secret ({})", crate::gen::CONFIG, hits, size, what),
        );
    }
    for x in l.found {
        rep.viol(&x, c, format!("config {}: {}", crate::gen::CONFIG, x));
    }
}
pub fn honest(p: &Plan, c: u64, r: &mut Rng, rep: &mut Report) {
    follow(p, c, r, rep, crate::honest::case)
}
pub fn faults(p: &Plan, c: u64, r: &mut Rng, rep: &mut Report) {
    follow(p, c, r, rep, crate::fault::case)
}
pub fn puppet(p: &Plan, c: u64, r: &mut Rng, rep: &mut Report) {
    follow(p, c, r, rep, crate::puppet::case)
}
pub fn fake(p: &Plan, c: u64, r: &mut Rng, rep: &mut Report) {
    follow(p, c, r, rep, crate::fake::case)
}
pub fn adversary(p: &Plan, c: u64, r: &mut Rng, rep: &mut Report) {
    follow(p, c, r, rep, crate::mitm::case)
}
