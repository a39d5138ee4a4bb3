//! The certificate format check against an independent reading of DER.
//!
//! The reference gives one of three verdicts: a chain that conforms strictly (must be
//! accepted, with the right number of certificates), one that is truncated, mis-sized, of
//! a wrong version, with a missing mandatory field or a bad algorithm identifier (must be
//! refused), and everything else (either verdict is right, but there must be one).
use crate::gen::CONFIG;
use crate::report::*;
use crate::sim::guarded;
use crate::util::*;
use spdmlib::crypto::check_cert_chain_format;
use spdmlib::protocol::SpdmBaseAsymAlgo;
use std::sync::Mutex;

// ---------------------------------------------------------------- DER trees
#[derive(Clone, Debug)]
pub enum Body {
    Raw(Vec<u8>),
    Kids(Vec<Node>),
}
#[derive(Clone, Debug)]
pub struct Node {
    tag: u8,
    body: Body,
    /// added to the length field
    skew: i64,
    /// octets of the length field: 0 as DER has it, else that many (long form)
    octets: usize,
    /// the length field itself, instead
    lenraw: Option<Vec<u8>>,
}
fn raw(tag: u8, b: Vec<u8>) -> Node {
    Node { tag, body: Body::Raw(b), skew: 0, octets: 0, lenraw: None }
}
fn kids(tag: u8, k: Vec<Node>) -> Node {
    Node { tag, body: Body::Kids(k), skew: 0, octets: 0, lenraw: None }
}
fn len_der(n: u64) -> Vec<u8> {
    if n < 0x80 {
        return vec![n as u8];
    }
    let b: Vec<u8> = n.to_be_bytes().iter().copied().skip_while(|x| *x == 0).collect();
    let mut o = vec![0x80 | b.len() as u8];
    o.extend(b);
    o
}
impl Node {
    pub fn der(&self) -> Vec<u8> {
        let b = match &self.body {
            Body::Raw(b) => b.clone(),
            Body::Kids(k) => k.iter().flat_map(|n| n.der()).collect(),
        };
        let n = (b.len() as i64 + self.skew).max(0) as u64;
        let mut o = vec![self.tag];
        if let Some(l) = &self.lenraw {
            o.extend_from_slice(l);
        } else if self.octets == 0 {
            o.extend(len_der(n));
        } else {
            o.push(0x80 | self.octets as u8);
            for i in (0..self.octets).rev() {
                o.push(if i < 8 { (n >> (8 * i)) as u8 } else { 0 });
            }
        }
        o.extend(b);
        o
    }
    fn count(&self) -> usize {
        1 + match &self.body {
            Body::Kids(k) => k.iter().map(|n| n.count()).sum(),
            _ => 0,
        }
    }
    fn at(&mut self, i: usize) -> &mut Node {
        if i == 0 {
            return self;
        }
        let mut left = i - 1;
        if let Body::Kids(k) = &mut self.body {
            for n in k.iter_mut() {
                let c = n.count();
                if left < c {
                    return n.at(left);
                }
                left -= c;
            }
        }
        unreachable!()
    }
}
/// A strict DER element at the front: (tag, body, rest).
fn strict(d: &[u8]) -> Option<(u8, &[u8], &[u8])> {
    let tag = *d.first()?;
    if tag & 0x1f == 0x1f {
        return None;
    }
    let l0 = *d.get(1)?;
    let (n, h) = if l0 < 0x80 {
        (l0 as u64, 2)
    } else {
        let k = (l0 & 0x7f) as usize;
        if k == 0 || k > 4 || d.len() < 2 + k {
            return None;
        }
        let n = d[2..2 + k].iter().fold(0u64, |a, b| a << 8 | *b as u64);
        if n < 0x80 || len_der(n).len() != 1 + k {
            return None;
        }
        (n, 2 + k)
    };
    let n = n as usize;
    if d.len() - h < n {
        return None;
    }
    Some((tag, &d[h..h + n], &d[h + n..]))
}
fn parse_tree(d: &[u8]) -> Option<(Node, &[u8])> {
    let (tag, b, rest) = strict(d)?;
    if tag & 0x20 != 0 {
        let mut k = vec![];
        let mut p = b;
        while !p.is_empty() {
            let (n, q) = parse_tree(p)?;
            k.push(n);
            p = q;
        }
        Some((kids(tag, k), rest))
    } else {
        Some((raw(tag, b.to_vec()), rest))
    }
}

// ---------------------------------------------------------------- reference
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Want {
    Accept(usize),
    Reject(&'static str),
    Either,
}
const RSA: &[u8] = &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01];
const ECDSA: &[u8] = &[0x2a, 0x86, 0x48, 0xce, 0x3d, 0x04, 0x03];
pub const ALGOS: [u32; 9] = [0x01, 0x02, 0x04, 0x08, 0x10, 0x20, 0x40, 0x80, 0x100];
/// The signature algorithm a leaf of this key algorithm is signed with.
pub fn leaf_oid(algo: u32) -> Option<Vec<u8>> {
    let (p, x) = match algo {
        0x01 | 0x02 => (RSA, 0x0b),
        0x04 | 0x08 => (RSA, 0x0c),
        0x20 | 0x40 => (RSA, 0x0d),
        0x10 => (ECDSA, 2),
        0x80 => (ECDSA, 3),
        _ => return None,
    };
    let mut v = p.to_vec();
    v.push(x);
    Some(v)
}
fn strict_alg(n: &Node, oid: &Option<Vec<u8>>) -> bool {
    let k = match (&n.body, n.tag) {
        (Body::Kids(k), 0x30) => k,
        _ => return false,
    };
    if k.is_empty() || k.len() > 2 || k[0].tag != 6 {
        return false;
    }
    match &k[0].body {
        Body::Raw(o) => o.len() >= 2 && o.len() < 0x80 && oid.as_ref().map_or(true, |x| x == o),
        _ => false,
    }
}
fn of(n: &Node, tag: u8, f: impl Fn(&[Node]) -> bool) -> bool {
    n.tag == tag && matches!(&n.body, Body::Kids(k) if f(k))
}
fn strict_name(n: &Node) -> bool {
    of(n, 0x30, |k| {
        k.iter().all(|s| {
            of(s, 0x31, |a| !a.is_empty() && a.iter().all(|x| of(x, 0x30, |p| p.len() == 2 && p[0].tag == 6)))
        })
    })
}
fn strict_cert(n: &Node, oid: &Option<Vec<u8>>) -> bool {
    of(n, 0x30, |c| {
        c.len() == 3
            && strict_alg(&c[1], oid)
            && c[2].tag == 3
            && matches!(&c[2].body, Body::Raw(b) if !b.is_empty() && b[0] == 0)
            && of(&c[0], 0x30, |t| {
                t.len() >= 7
                    && of(&t[0], 0xa0, |v| v.len() == 1 && v[0].tag == 2 && matches!(&v[0].body, Body::Raw(b) if b == &[2]))
                    && t[1].tag == 2
                    && matches!(&t[1].body, Body::Raw(b) if !b.is_empty())
                    && strict_alg(&t[2], oid)
                    && strict_name(&t[3])
                    && of(&t[4], 0x30, |v| v.len() == 2 && v.iter().all(|x| x.tag == 0x17 || x.tag == 0x18))
                    && strict_name(&t[5])
                    && of(&t[6], 0x30, |s| s.len() == 2 && strict_alg(&s[0], &None) && s[1].tag == 3)
                    && {
                        // optional [1], [2], [3], in this order, each at most once
                        let rank: Vec<u8> = t[7..]
                            .iter()
                            .map(|x| match x.tag {
                                0x81 | 0xa1 => 1,
                                0x82 | 0xa2 => 2,
                                0xa3 => 3,
                                _ => 0,
                            })
                            .collect();
                        rank.iter().all(|x| *x > 0) && rank.windows(2).all(|w| w[0] < w[1])
                    }
            })
    })
}
fn strict_chain(d: &[u8], algo: u32) -> Option<usize> {
    let (mut p, mut n) = (d, 0);
    let oid = leaf_oid(algo);
    while !p.is_empty() {
        let (t, q) = parse_tree(p)?;
        if !strict_cert(&t, if q.is_empty() { &oid } else { &None }) {
            return None;
        }
        n += 1;
        p = q;
    }
    Some(n)
}

/// Why something is refused, or that this reader will not say.
enum No {
    Bad(&'static str),
    Unsure,
}
/// A lenient element: any number of length octets.
fn elem<'a>(d: &'a [u8], what: &'static str) -> Result<(u8, &'a [u8], &'a [u8]), No> {
    let tag = *d.first().ok_or(No::Bad(what))?;
    let l0 = *d.get(1).ok_or(No::Bad(what))?;
    let (n, h) = if l0 < 0x80 {
        (l0 as u128, 2)
    } else {
        let k = (l0 & 0x7f) as usize;
        if k == 0 || d.len() < 2 + k {
            return Err(No::Bad(what));
        }
        let z = d[2..2 + k].iter().take_while(|x| **x == 0).count();
        if k - z > 15 {
            return Err(No::Bad(what));
        }
        (d[2 + z..2 + k].iter().fold(0u128, |a, b| a << 8 | *b as u128), 2 + k)
    };
    if n > (d.len() - h) as u128 {
        return Err(No::Bad(what));
    }
    let n = n as usize;
    if strict(d).is_none() {
        // a length no DER has: whether it is refused is not ours to say, but if it is
        // taken, it is taken for what it says; the caller cannot tell, so stop here
        return Err(No::Unsure);
    }
    Ok((tag, &d[h..h + n], &d[h + n..]))
}
fn seq<'a>(d: &'a [u8], what: &'static str) -> Result<(&'a [u8], &'a [u8]), No> {
    if d.first() != Some(&0x30) {
        return Err(No::Bad(what));
    }
    let (_, b, r) = elem(d, what)?;
    Ok((b, r))
}
fn alg<'a>(d: &'a [u8], oid: &Option<Vec<u8>>) -> Result<&'a [u8], No> {
    let (b, r) = seq(d, "an algorithm identifier that is no sequence or too long")?;
    if b.first() != Some(&6) {
        return Err(No::Bad("no object identifier in an algorithm identifier"));
    }
    let l = *b.get(1).ok_or(No::Bad("an object identifier without a length"))?;
    if l >= 0x80 {
        return Err(No::Unsure);
    }
    if b.len() < 2 + l as usize {
        return Err(No::Bad("an object identifier longer than its algorithm identifier"));
    }
    if let Some(o) = oid {
        if &b[2..2 + l as usize] != o {
            return Err(No::Bad("a leaf signature algorithm that is not the selected one"));
        }
    }
    Ok(r)
}
fn lenient_cert<'a>(d: &'a [u8], algo: u32) -> Result<&'a [u8], No> {
    let (c, rest) = seq(d, "a certificate that is no sequence or too long")?;
    let oid = if rest.is_empty() { leaf_oid(algo) } else { None };
    let (mut t, c) = seq(c, "a TBS part that is no sequence or too long")?;
    // version
    if t.first() != Some(&0xa0) {
        return Err(No::Bad("no version"));
    }
    let (_, v, r) = elem(t, "a version that is too long")?;
    match v {
        [2, 1, 2] => {}
        [2, 1, _] => return Err(No::Bad("another version")),
        [] => return Err(No::Bad("an empty version")),
        [2, ..] | [_, ..] => {
            return if v.len() >= 2 && v[0] == 2 && v[1] as usize + 2 <= v.len() { Err(No::Unsure) } else { Err(No::Bad("a bad version")) }
        }
    }
    t = r;
    if t.is_empty() {
        return Err(No::Bad("no serial number"));
    }
    let (_, _, r) = elem(t, "a serial number that is too long")?;
    t = alg(r, &oid)?;
    for what in ["no issuer", "no validity", "no subject", "no public key"] {
        let (_, r) = seq(t, what)?;
        t = r;
    }
    let c = alg(c, &oid)?;
    if c.is_empty() {
        return Err(No::Bad("no signature"));
    }
    let (_, _, c) = elem(c, "a signature that is too long")?;
    if !c.is_empty() {
        return Err(No::Bad("bytes after the signature"));
    }
    Ok(rest)
}
pub fn want(d: &[u8], algo: u32) -> Want {
    if d.is_empty() {
        return Want::Either;
    }
    if let Some(n) = strict_chain(d, algo) {
        return Want::Accept(n);
    }
    let mut p = d;
    while !p.is_empty() {
        match lenient_cert(p, algo) {
            Ok(r) => p = r,
            Err(No::Bad(w)) => return Want::Reject(w),
            Err(No::Unsure) => return Want::Either,
        }
    }
    Want::Either
}

// ---------------------------------------------------------------- generator
fn size(r: &mut Rng) -> usize {
    match r.below(12) {
        0..=6 => r.range(1, 40),
        7 => r.range(0x7c, 0x84),
        8 => r.range(0xfc, 0x104),
        9 => r.range(0x100, 0x400),
        10 => r.range(1, 200),
        _ => {
            if r.chance(1, 12) {
                r.range(0xfff0, 0x10010)
            } else {
                r.range(0, 2)
            }
        }
    }
}
fn oid(r: &mut Rng) -> Vec<u8> {
    match r.below(5) {
        0 | 1 => leaf_oid(*r.pick(&ALGOS)).unwrap_or(vec![0x2b, 0x65, 0x70]),
        2 => vec![0x2b, 0x65, 0x70],
        _ => {
            let n = if r.chance(1, 10) { r.range(2, 0x7f) } else { r.range(2, 12) };
            r.bytes(n)
        }
    }
}
fn alg_node(r: &mut Rng, o: Vec<u8>) -> Node {
    let mut k = vec![raw(6, o)];
    match r.below(4) {
        0 | 1 => k.push(raw(5, vec![])),
        2 => {
            let n = r.range(0, 20);
            k.push(kids(0x30, vec![raw(2, r.bytes(n))]));
        }
        _ => {}
    }
    kids(0x30, k)
}
fn name_node(r: &mut Rng) -> Node {
    let n = if r.chance(1, 10) { 0 } else { r.range(1, 3) };
    kids(
        0x30,
        (0..n)
            .map(|_| {
                let l = size(r);
                kids(0x31, vec![kids(0x30, vec![raw(6, vec![0x55, 4, r.u8() & 0x3f]), raw(0x0c, r.bytes(l))])])
            })
            .collect(),
    )
}
fn cert_node(r: &mut Rng, o: Vec<u8>) -> Node {
    let n = r.range(1, 20);
    let mut t = vec![kids(0xa0, vec![raw(2, vec![2])]), raw(2, r.bytes(n)), alg_node(r, o.clone()), name_node(r)];
    let (ta, tb) = (*r.pick(&[0x17u8, 0x18]), *r.pick(&[0x17u8, 0x18]));
    t.push(kids(0x30, vec![raw(ta, b"230101000000Z".to_vec()), raw(tb, b"20330101000000Z".to_vec())]));
    t.push(name_node(r));
    let (ko, l) = (oid(r), size(r));
    let mut pk = vec![0u8];
    pk.extend(r.bytes(l));
    let ka = alg_node(r, ko);
    t.push(kids(0x30, vec![ka, raw(3, pk)]));
    if r.chance(1, 5) {
        let n = r.range(1, 8);
        t.push(raw(0x81, r.bytes(n)));
    }
    if r.chance(1, 5) {
        let n = r.range(1, 8);
        t.push(raw(0x82, r.bytes(n)));
    }
    if r.chance(2, 3) {
        let k = (0..r.range(1, 4))
            .map(|_| {
                let l = size(r);
                kids(0x30, vec![raw(6, vec![0x55, 0x1d, r.u8() & 0x3f]), raw(4, r.bytes(l))])
            })
            .collect();
        t.push(kids(0xa3, vec![kids(0x30, k)]));
    }
    let l = size(r);
    let mut sig = vec![0u8];
    sig.extend(r.bytes(l));
    let outer = alg_node(r, o);
    kids(0x30, vec![kids(0x30, t), outer, raw(3, sig)])
}
fn disk() -> &'static Vec<(String, Vec<u8>)> {
    static D: Mutex<Option<&'static Vec<(String, Vec<u8>)>>> = Mutex::new(None);
    let mut g = D.lock().unwrap();
    *g.get_or_insert_with(|| {
        let mut out = vec![];
        let mut todo = vec![std::path::PathBuf::from("/repo/test_key")];
        while let Some(p) = todo.pop() {
            let mut l: Vec<_> = std::fs::read_dir(&p).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
            l.sort();
            for e in l {
                let s = e.to_string_lossy().to_string();
                if e.is_dir() {
                    todo.push(e);
                } else if s.contains("cert") && s.ends_with("der") || s.ends_with(".cer") {
                    if let Ok(b) = std::fs::read(&e) {
                        if b.len() < 40_000 && b.first() == Some(&0x30) {
                            out.push((s, b));
                        }
                    }
                }
            }
        }
        out.sort();
        Box::leak(Box::new(out))
    })
}
/// Kinds of change to one element; the name is what the evidence counts.
const MUT: [&str; 16] = [
    "element removed", "element doubled", "elements swapped", "other tag", "length off by a little", "length far off",
    "length in too many octets", "length field replaced", "body cut", "body extended", "body replaced", "byte changed",
    "element emptied", "element moved into its neighbour", "only a length field", "element replaced by another",
];
fn mutate(r: &mut Rng, t: &mut Node, what: &mut Vec<&'static str>) {
    let n = t.count();
    // the first few levels matter most
    let i = if r.chance(2, 3) { r.below(n.min(12)) } else { r.below(n) };
    let k = r.below(MUT.len());
    what.push(MUT[k]);
    let other = if k == 15 {
        let j = r.below(n);
        Some(t.at(j).clone())
    } else {
        None
    };
    let x = t.at(i);
    match k {
        0 | 1 | 2 | 13 => {
            if let Body::Kids(v) = &mut x.body {
                if !v.is_empty() {
                    let j = r.below(v.len());
                    match k {
                        0 => {
                            v.remove(j);
                        }
                        1 => {
                            let c = v[j].clone();
                            v.insert(j, c);
                        }
                        2 => {
                            let h = r.below(v.len());
                            v.swap(j, h);
                        }
                        _ => {
                            if j + 1 < v.len() {
                                let m = v.remove(j + 1);
                                if let Body::Kids(w) = &mut v[j].body {
                                    w.push(m);
                                }
                            }
                        }
                    }
                }
            }
        }
        3 => x.tag = *r.pick(&[0x30, 0x31, 2, 3, 4, 5, 6, 0xa0, 0xa3, 0x80, 0, 0xff, 0x1f, 0x3f]),
        4 => x.skew = *r.pick(&[-3, -2, -1, 1, 2, 3, 5, 8]),
        5 => x.skew = *r.pick(&[0x7f, 0x100, 0x1000, 0xffff, 0x10000, 0x7fff_ffff, 0xffff_0000, 1 << 40, i64::MAX / 2, -100, -1000]),
        6 => x.octets = *r.pick(&[1, 2, 3, 4, 5, 7, 8, 9, 12, 20]),
        7 => {
            let n = *r.pick(&[1usize, 2, 3, 4, 5, 7, 8, 9, 10, 16, 126, 127]);
            let mut l = vec![0x80 | n as u8];
            match r.below(4) {
                0 => l.extend(vec![0xff; n]),
                1 => l.extend(vec![0; n]),
                2 => {
                    // just below the top of the address space
                    l.extend(vec![0xff; n]);
                    let e = l.len() - 1;
                    l[e] = 0xf0 + r.below(16) as u8;
                }
                _ => l.extend(r.bytes(n)),
            }
            if r.chance(1, 8) {
                l = vec![0x80];
            }
            x.lenraw = Some(l);
        }
        8 => {
            let d = x.der();
            let (h, b) = (d.len(), match &x.body {
                Body::Raw(b) => b.clone(),
                Body::Kids(k) => k.iter().flat_map(|n| n.der()).collect(),
            });
            let _ = h;
            let keep = r.below(b.len().max(1));
            x.body = Body::Raw(b[..keep.min(b.len())].to_vec());
            if r.bool() {
                x.skew = (b.len() - keep.min(b.len())) as i64;
            }
        }
        9 => {
            let n = r.range(1, 8);
            let e = if r.bool() { vec![0; n] } else { r.bytes(n) };
            match &mut x.body {
                Body::Raw(b) => b.extend(e),
                Body::Kids(k) => k.push(raw(*r.pick(&[2u8, 4, 5]), e)),
            }
        }
        10 => {
            let n = size(r);
            x.body = Body::Raw(r.bytes(n));
        }
        11 => {
            if let Body::Raw(b) = &mut x.body {
                if !b.is_empty() {
                    let j = r.below(b.len());
                    b[j] ^= 1 << r.below(8);
                }
            }
        }
        12 => x.body = Body::Raw(vec![]),
        14 => {
            x.body = Body::Raw(vec![]);
            x.skew = r.below(300) as i64;
        }
        _ => *x = other.unwrap(),
    }
}

pub fn case(p: &Plan, prop: &'static str, c: u64, r: &mut Rng, rep: &mut Report) {
    let algo = if r.chance(1, 20) { r.u32() } else { *r.pick(&ALGOS) };
    let mut what: Vec<&'static str> = vec![];
    // ---- a conforming chain
    let mut trees: Vec<Node> = vec![];
    let from;
    let mut tail: Vec<u8> = vec![];
    let src = r.below(4);
    if src == 0 && !disk().is_empty() {
        let (n, b) = r.pick(disk());
        from = n.clone();
        let mut q = &b[..];
        while let Some((t, x)) = parse_tree(q) {
            trees.push(t);
            q = x;
            if q.is_empty() {
                break;
            }
        }
        tail = q.to_vec();
        rep.count("chains from certificates on disk", 1);
        if r.chance(1, 4) {
            let (_, b) = r.pick(disk());
            if let Some((t, _)) = parse_tree(b) {
                let at = r.below(trees.len() + 1);
                trees.insert(at, t);
            }
        }
    } else {
        from = "generated".to_string();
        let n = r.range(1, 4);
        for i in 0..n {
            let o = if i == n - 1 { leaf_oid(algo).unwrap_or_else(|| oid(r)) } else { oid(r) };
            trees.push(cert_node(r, o));
        }
        rep.count("chains generated", 1);
        if r.chance(1, 12) {
            let i = r.below(trees.len());
            let o = oid(r);
            trees[i] = cert_node(r, o);
        }
    }
    // ---- changes to its structure
    let m = *r.pick(&[0usize, 0, 1, 1, 1, 1, 2, 2, 3]);
    for _ in 0..m {
        if trees.is_empty() {
            break;
        }
        let i = if r.bool() { trees.len() - 1 } else { r.below(trees.len()) };
        mutate(r, &mut trees[i], &mut what);
    }
    let mut d: Vec<u8> = trees.iter().flat_map(|t| t.der()).collect();
    d.extend(tail);
    // ---- changes to its bytes
    match r.below(12) {
        0 => {
            what.push("chain cut");
            let k = r.below(d.len() + 1);
            d.truncate(k);
        }
        1 => {
            what.push("bytes appended");
            let n = r.range(1, 6);
            let t = if r.bool() { vec![*r.pick(&[0u8, 0x30, 0xff]); n] } else { r.bytes(n) };
            d.extend(t);
        }
        2 => {
            what.push("bytes flipped");
            for _ in 0..r.range(1, 4) {
                if !d.is_empty() {
                    let head = d.len().min(64);
                    let i = if r.bool() { r.below(d.len()) } else { r.below(head) };
                    d[i] = if r.bool() { r.u8() } else { d[i] ^ 1 << r.below(8) };
                }
            }
        }
        3 if r.chance(1, 4) => {
            what.push("random bytes");
            let n = r.below(80);
            d = r.bytes(n);
            if r.bool() && d.len() > 1 {
                d[0] = 0x30;
            }
        }
        _ => {}
    }
    let mut inputs = vec![(d.clone(), algo, what.clone())];
    if r.chance(1, 3) {
        inputs.push((d.clone(), *r.pick(&ALGOS), what.clone()));
    }
    if r.chance(1, 40) {
        // every prefix of a chain, short of where a certificate ends
        let step = 1 + d.len() / 400;
        for k in (1..d.len()).step_by(step) {
            let mut w = what.clone();
            w.push("prefix");
            inputs.push((d[..k].to_vec(), algo, w));
        }
    }
    for (d, algo, what) in inputs {
        let w = want(&d, algo);
        let boxed: Box<[u8]> = d.clone().into_boxed_slice();
        let a = SpdmBaseAsymAlgo::from_bits_truncate(algo);
        let got = guarded(|| check_cert_chain_format(&boxed, a));
        rep.seen(fnv(&d) ^ algo as u64);
        rep.count("chains judged", 1);
        rep.max("max chain size", d.len() as u64);
        let ctx = || format!("config {} case {} algorithm {:#x} chain from {} changes {:?} bytes {}", CONFIG, c, algo, from, what, hexs(&d));
        // algorithms outside the known set are dropped by the mask
        let known = a.bits() == algo;
        match got {
            Err(p) => rep.viol("the format check panicked", c, format!("the certificate format check panicked ({}) [{}]", p.show(), ctx())),
            Ok(g) => {
                match w {
                    Want::Accept(_) if known => rep.count("judged strictly conforming", 1),
                    Want::Reject(x) if known => {
                        rep.count("judged not conforming", 1);
                        rep.count(&format!("refused for: {}", x), 1);
                        for m in &what {
                            rep.count(&format!("not conforming after: {}", m), 1);
                        }
                    }
                    _ => rep.count("no opinion", 1),
                }
                if !known {
                    continue;
                }
                match (w, g) {
                    (Want::Accept(n), Ok(k)) if n == k => {
                        rep.max("max certificates in an accepted chain", n as u64);
                    }
                    (Want::Accept(n), g) => {
                        rep.viol("a conforming chain not accepted", c, format!("a conforming chain of {} certificates gets {:?} [{}]", n, g, ctx()))
                    }
                    (Want::Reject(x), Ok(k)) => {
                        rep.viol(&format!("accepted with {}", x), c, format!("accepted as {} certificates a chain with {} [{}]", k, x, ctx()))
                    }
                    _ => {}
                }
                if p.verbose {
                    eprintln!("{:?} {:?} {}", w, g.is_ok(), ctx());
                }
                rep.sample(|| format!("{:?} -> {:?}: {}", w, g.is_ok(), ctx()));
            }
        }
    }
    let _ = prop;
}
