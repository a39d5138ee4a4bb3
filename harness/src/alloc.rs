//! Global allocator that, while armed on this thread, knows every heap block the library
//! holds and scans every block it frees for registered secrets.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, UnsafeCell};

pub struct Scan;

const MAXP: usize = 8192;
const SLOTS: usize = 1 << 15;
#[derive(Clone, Copy)]
struct Block {
    p: usize,
    n: u32,
    who: u32,
}
struct Big {
    filter: [u8; 8192],
    pats: [[u8; 12]; MAXP],
    npat: usize,
    /// the role(s) by which a pattern may be held now, as bits
    may: [u8; MAXP],
    blocks: [Block; SLOTS],
}
struct State {
    armed: Cell<bool>,
    /// 0: the harness runs; 1, 2: the requester, the responder
    lib: Cell<u8>,
    big: UnsafeCell<*mut Big>,
    live: Cell<usize>,
    hits: Cell<usize>,
    hit_first: Cell<[u8; 12]>,
    hit_size: Cell<usize>,
    freed: Cell<u64>,
    freed_bytes: Cell<u64>,
    overflow: Cell<bool>,
}
thread_local! {
    static S: State = const { State {
        armed: Cell::new(false), lib: Cell::new(0), big: UnsafeCell::new(std::ptr::null_mut()),
        live: Cell::new(0), hits: Cell::new(0), hit_first: Cell::new([0; 12]), hit_size: Cell::new(0),
        freed: Cell::new(0), freed_bytes: Cell::new(0), overflow: Cell::new(false),
    } };
}
#[allow(clippy::mut_from_ref)]
fn big(s: &State) -> Option<&mut Big> {
    unsafe { (*s.big.get()).as_mut() }
}

/// From here on blocks are followed; everything known before is forgotten.
pub fn arm() {
    S.with(|s| unsafe {
        if (*s.big.get()).is_null() {
            *s.big.get() = System.alloc_zeroed(Layout::new::<Big>()) as *mut Big;
        }
        let b = big(s).expect("no memory for the block table");
        b.filter.fill(0);
        b.npat = 0;
        b.blocks.fill(Block { p: 0, n: 0, who: 0 });
        s.live.set(0);
        s.armed.set(true);
    });
}
pub fn disarm() {
    S.with(|s| {
        s.armed.set(false);
        s.lib.set(0);
    });
}
/// Blocks scanned and secrets found since this was last called.
pub fn take() -> (usize, [u8; 12], usize, u64, u64, bool) {
    S.with(|s| {
        (
            s.hits.replace(0),
            s.hit_first.get(),
            s.hit_size.get(),
            s.freed.replace(0),
            s.freed_bytes.replace(0),
            s.overflow.replace(false),
        )
    })
}
pub fn set_lib(who: u8) {
    let _ = S.try_with(|s| s.lib.set(who));
}
pub fn pause() -> u8 {
    S.try_with(|s| s.lib.replace(0)).unwrap_or(0)
}
pub fn resume(was: u8) {
    let _ = S.try_with(|s| s.lib.set(was));
}
/// What happens while this lives is the harness's, not the library's.
pub struct Paused(u8);
impl Paused {
    pub fn new() -> Paused {
        Paused(pause())
    }
    /// build a value the library takes over
    pub fn give<R>(&self, f: impl FnOnce() -> R) -> R {
        let was = S.try_with(|s| s.lib.replace(self.0)).unwrap_or(0);
        let r = f();
        resume(was);
        r
    }
}
impl Drop for Paused {
    fn drop(&mut self) {
        resume(self.0)
    }
}
/// A secret of at least 12 bytes; its number.
pub fn register(b: &[u8]) -> Option<usize> {
    if b.len() < 12 {
        return None;
    }
    S.with(|s| {
        let g = big(s)?;
        if let Some(i) = (0..g.npat).find(|i| g.pats[*i] == b[..12]) {
            return Some(i);
        }
        let n = g.npat;
        if n == MAXP {
            s.overflow.set(true);
            return None;
        }
        g.pats[n].copy_from_slice(&b[..12]);
        g.may[n] = 3;
        g.npat = n + 1;
        let k = (b[0] as usize) << 8 | b[1] as usize;
        g.filter[k >> 3] |= 1 << (k & 7);
        Some(n)
    })
}
/// The secret these bytes are, if they are one.
pub fn which(b: &[u8]) -> Option<usize> {
    if b.len() < 12 {
        return None;
    }
    S.with(|s| {
        let g = big(s)?;
        (0..g.npat).find(|i| g.pats[*i] == b[..12])
    })
}
/// who may still hold a secret
pub fn allow(i: usize, may: u8) {
    S.with(|s| {
        if let Some(g) = big(s) {
            g.may[i] = may
        }
    })
}
/// The first secret in this memory that `who` (0: nobody) may not hold.
pub fn scan(b: &[u8], who: u8) -> Option<usize> {
    S.with(|s| scan_with(big(s)?, b, who))
}
fn scan_with(g: &Big, b: &[u8], who: u8) -> Option<usize> {
    if b.len() < 12 || g.npat == 0 {
        return None;
    }
    for i in 0..=b.len() - 12 {
        let k = (b[i] as usize) << 8 | b[i + 1] as usize;
        if g.filter[k >> 3] >> (k & 7) & 1 == 1 {
            for q in 0..g.npat {
                if g.pats[q][..] == b[i..i + 12] && g.may[q] & who == 0 {
                    return Some(q);
                }
            }
        }
    }
    None
}
/// Blocks `who` holds that contain a secret it may not hold: (size, secret). Number of
/// blocks looked at.
pub fn scan_held(who: u8) -> (usize, Vec<(usize, usize)>) {
    let p = Paused::new();
    let _ = &p;
    S.with(|s| {
        let mut out = vec![];
        let mut n = 0;
        if let Some(g) = big(s) {
            for i in 0..SLOTS {
                let b = g.blocks[i];
                if b.p != 0 && b.who == who as u32 {
                    n += 1;
                    let m = unsafe { std::slice::from_raw_parts(b.p as *const u8, b.n as usize) };
                    if let Some(q) = scan_with(g, m, who) {
                        out.push((b.n as usize, q));
                    }
                }
            }
        }
        (n, out)
    })
}
fn at(p: usize) -> usize {
    (p >> 3).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40 & (SLOTS - 1)
}
fn find(g: &Big, p: usize) -> Option<usize> {
    let mut i = at(p);
    loop {
        if g.blocks[i].p == p {
            return Some(i);
        }
        if g.blocks[i].p == 0 {
            return None;
        }
        i = (i + 1) & (SLOTS - 1);
    }
}
fn insert(s: &State, b: Block) {
    if let Some(g) = big(s) {
        if s.live.get() > SLOTS * 3 / 4 {
            s.overflow.set(true);
            return;
        }
        let mut i = at(b.p);
        while g.blocks[i].p != 0 {
            if g.blocks[i].p == b.p {
                g.blocks[i] = b;
                return;
            }
            i = (i + 1) & (SLOTS - 1);
        }
        g.blocks[i] = b;
        s.live.set(s.live.get() + 1);
    }
}
fn remove(s: &State, p: usize) -> bool {
    if let Some(g) = big(s) {
        let mut i = match find(g, p) {
            Some(i) => i,
            None => return false,
        };
        s.live.set(s.live.get() - 1);
        // close the gap
        let mut j = i;
        loop {
            j = (j + 1) & (SLOTS - 1);
            if g.blocks[j].p == 0 {
                break;
            }
            let k = at(g.blocks[j].p);
            let stays = if i <= j { i < k && k <= j } else { i < k || k <= j };
            if !stays {
                g.blocks[i] = g.blocks[j];
                i = j;
            }
        }
        g.blocks[i].p = 0;
        return true;
    }
    false
}

unsafe impl GlobalAlloc for Scan {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        let _ = S.try_with(|s| {
            if s.armed.get() && s.lib.get() != 0 && !p.is_null() {
                // a fresh block may hold what its last owner left
                std::ptr::write_bytes(p, 0, l.size());
                insert(s, Block { p: p as usize, n: l.size() as u32, who: s.lib.get() as u32 });
            }
        });
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = S.try_with(|s| {
            if s.armed.get() {
                // what the harness allocated may well hold a secret
                let library = remove(s, p as usize);
                if library && s.lib.get() != 0 {
                    s.freed.set(s.freed.get() + 1);
                    s.freed_bytes.set(s.freed_bytes.get() + l.size() as u64);
                    let b = std::slice::from_raw_parts(p, l.size());
                    if let Some(q) = big(s).and_then(|g| scan_with(g, b, 0)) {
                        if s.hits.get() == 0 {
                            s.hit_first.set(big(s).map_or([0; 12], |g| g.pats[q]));
                            s.hit_size.set(l.size());
                        }
                        s.hits.set(s.hits.get() + 1);
                        if crate::mon::trace() {
                            let was = s.lib.replace(0);
                            eprintln!("freed block of {} bytes holds {:02x?}\n{}", l.size(), b, std::backtrace::Backtrace::force_capture());
                            s.lib.set(was);
                        }
                    }
                }
            }
        });
        System.dealloc(p, l)
    }
}
