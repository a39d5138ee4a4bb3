//! In-process link between the real endpoints (or one real endpoint and a puppet).

use crate::util::*;
use crate::world::{self, log, set_role, svc, Ev, Role, Svc};
use spdmlib::common::*;
use spdmlib::error::*;
use spdmlib::protocol::*;
use spdmlib::requester::RequesterContext;
use spdmlib::responder::ResponderContext;
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

// ------------------------------------------------------------------ panics
#[derive(Clone, Debug)]
pub struct PanicInfo {
    pub role: Role,
    pub msg: String,
    pub file: String,
    pub line: u32,
}
impl PanicInfo {
    pub fn is_budget(&self) -> bool {
        self.msg.starts_with("BUDGET")
    }
    pub fn show(&self) -> String {
        format!("{:?} panicked: {} at {}:{}", self.role, self.msg, self.file, self.line)
    }
    /// panic raised inside the code under test (and not in the harness)
    pub fn in_harness(&self) -> bool {
        self.file.starts_with("src/") || self.file.contains("/verif/harness")
    }
}
thread_local! {
    static LAST_PANIC: RefCell<Option<PanicInfo>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}
pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !QUIET.with(|q| q.get()) {
            old(i);
            return;
        }
        let was = crate::alloc::pause();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let (file, line) = i.location().map_or(("?".to_string(), 0), |l| (l.file().to_string(), l.line()));
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(PanicInfo { role: world::role(), msg, file, line }));
        crate::alloc::resume(was);
    }));
}
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, PanicInfo> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    match r {
        Ok(r) => Ok(r),
        Err(_) => {
            let p = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or(PanicInfo {
                role: world::role(),
                msg: "unknown panic".into(),
                file: "?".into(),
                line: 0,
            });
            if p.in_harness() && !p.is_budget() {
                eprintln!("harness panic: {} {}:{}", p.msg, p.file, p.line);
            }
            Err(p)
        }
    }
}

// ------------------------------------------------------------------ endpoint description
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Trans {
    Mctp,
    Doe,
}

#[derive(Clone, Debug)]
pub struct Ep {
    pub vers: Vec<u8>,
    pub caps: u32,
    pub ct: u8,
    pub mspec: u8,
    pub mhash: u32,
    pub hash: u32,
    pub asym: u32,
    pub dhe: u16,
    pub aead: u16,
    pub req_asym: u16,
    pub ks: u16,
    pub opaque: u8,
    pub policy: u8,
    pub rcc: bool,
    pub dts: u32,
    pub max: u32,
    pub hb: u8,
    pub secver: [u8; 2],
    pub chains: [Option<Vec<u8>>; 8],
    pub root: Option<Vec<u8>>,
    pub leaf: Vec<u8>,
    /// what the root of the chains is made from
    pub seed: Vec<u8>,
    pub meas: Vec<world::MeasBlock>,
    pub psk: Vec<u8>,
}
pub fn ver(v: u8) -> SpdmVersion {
    match v {
        0x10 => SpdmVersion::SpdmVersion10,
        0x11 => SpdmVersion::SpdmVersion11,
        0x12 => SpdmVersion::SpdmVersion12,
        x => SpdmVersion::Unknown(x),
    }
}
pub fn cert_data(b: &[u8]) -> SpdmCertChainData {
    let mut d = SpdmCertChainData { data_size: b.len() as u16, data: [0; 4096] };
    d.data[..b.len()].copy_from_slice(b);
    d
}
impl Ep {
    pub fn config(&self, role: Role) -> SpdmConfigInfo {
        let mut vs = [SpdmVersion::default(); MAX_SPDM_VERSION_COUNT];
        for (i, v) in vs.iter_mut().enumerate() {
            *v = ver(*self.vers.get(i).unwrap_or(self.vers.last().unwrap()));
        }
        SpdmConfigInfo {
            spdm_version: vs,
            req_capabilities: if role == Role::Req {
                SpdmRequestCapabilityFlags::from_bits_truncate(self.caps)
            } else {
                SpdmRequestCapabilityFlags::empty()
            },
            rsp_capabilities: if role == Role::Rsp {
                SpdmResponseCapabilityFlags::from_bits_truncate(self.caps)
            } else {
                SpdmResponseCapabilityFlags::empty()
            },
            req_ct_exponent: self.ct,
            rsp_ct_exponent: self.ct,
            measurement_specification: SpdmMeasurementSpecification::from_bits_truncate(self.mspec),
            measurement_hash_algo: SpdmMeasurementHashAlgo::from_bits_truncate(self.mhash),
            base_hash_algo: SpdmBaseHashAlgo::from_bits_truncate(self.hash),
            base_asym_algo: SpdmBaseAsymAlgo::from_bits_truncate(self.asym),
            dhe_algo: SpdmDheAlgo::from_bits_truncate(self.dhe),
            aead_algo: SpdmAeadAlgo::from_bits_truncate(self.aead),
            req_asym_algo: SpdmReqAsymAlgo::from_bits_truncate(self.req_asym),
            key_schedule_algo: SpdmKeyScheduleAlgo::from_bits_truncate(self.ks),
            opaque_support: SpdmOpaqueSupport::from_bits_truncate(self.opaque),
            session_policy: self.policy,
            runtime_content_change_support: self.rcc,
            data_transfer_size: self.dts,
            max_spdm_msg_size: self.max,
            heartbeat_period: self.hb,
            secure_spdm_version: self.secver,
        }
    }
    pub fn provision(&self) -> SpdmProvisionInfo {
        let mut p = SpdmProvisionInfo::default();
        for i in 0..8 {
            p.my_cert_chain_data[i] = self.chains[i].as_ref().map(|c| cert_data(c));
        }
        p.peer_root_cert_data = self.root.as_ref().map(|c| cert_data(c));
        p
    }
    pub fn install(&self, role: Role) {
        world::with(|w| {
            let d = &mut w.dev[role as usize];
            d.leaf_seed = self.leaf.clone();
            d.meas = self.meas.clone();
            d.psk = self.psk.clone();
        })
    }
}

// ------------------------------------------------------------------ link
#[derive(Clone, Debug, PartialEq)]
pub enum Pm {
    Handled(bool),
    Raw(usize),
    Panicked(String),
}
#[derive(Clone, Debug)]
pub struct PmRec {
    pub frame: Vec<u8>,
    pub res: Pm,
    pub sent: Vec<Vec<u8>>,
    pub panic: Option<PanicInfo>,
}
pub type Adv = Box<dyn FnMut(bool, usize, &[u8]) -> Vec<Vec<u8>>>;
pub type Puppet = Box<dyn FnMut(&[u8]) -> Vec<Vec<u8>>>;

pub struct Link {
    pub to_rsp: VecDeque<Vec<u8>>,
    pub to_req: VecDeque<Vec<u8>>,
    pub inbox: VecDeque<Vec<u8>>,
    pub cur_sent: Vec<Vec<u8>>,
    pub adv: Option<Adv>,
    pub nth: [usize; 2],
    pub puppet: Option<Puppet>,
    pub rsp: *mut ResponderContext<'static>,
    pub rsp_dead: bool,
    pub pm: Vec<PmRec>,
    pub keep_pm: bool,
    pub aux: Vec<u8>,
    pub budget: usize,
    pub io: usize,
    pub timeouts: Vec<usize>,
    pub req_sent: usize,
}
pub type LinkRef = Rc<RefCell<Link>>;

fn sent_secret(who: Role, b: &[u8]) {
    if world::TRACK.with(|t| t.get()) {
        let hit = crate::alloc::scan(b, 0);
        world::LEAKS.with(|l| {
            let mut l = l.borrow_mut();
            l.frames += 1;
            if hit.is_some() && l.found.len() < 20 {
                l.found.push(format!("a frame the {:?} sent contains a secret", who));
            }
        });
    }
}
struct ReqIo(LinkRef);
struct RspIo(LinkRef);

fn spend(l: &LinkRef) {
    let mut l = l.borrow_mut();
    l.io += 1;
    if l.io > l.budget {
        drop(l);
        panic!("BUDGET: too many exchanges in one operation");
    }
}
fn push(l: &LinkRef, to_rsp: bool, frame: &[u8]) {
    let mut adv = l.borrow_mut().adv.take();
    let (n, frames) = {
        let mut k = l.borrow_mut();
        let n = k.nth[to_rsp as usize];
        k.nth[to_rsp as usize] += 1;
        (n, ())
    };
    let _ = frames;
    let out = match &mut adv {
        Some(a) => a(to_rsp, n, frame),
        None => vec![frame.to_vec()],
    };
    let mut k = l.borrow_mut();
    k.adv = adv;
    let q = if to_rsp { &mut k.to_rsp } else { &mut k.to_req };
    q.extend(out);
}
/// Let the responder (or puppet) process everything queued for it.
pub fn pump(l: &LinkRef) {
    loop {
        let f = match l.borrow_mut().to_rsp.pop_front() {
            Some(f) => f,
            None => return,
        };
        let was = set_role(Role::None);
        let mut pup = l.borrow_mut().puppet.take();
        if let Some(p) = &mut pup {
            let out = p(&f);
            let mut k = l.borrow_mut();
            k.puppet = pup;
            k.to_req.extend(out);
            drop(k);
            set_role(was);
            continue;
        }
        deliver(l, f);
        set_role(was);
    }
}
fn deliver(l: &LinkRef, f: Vec<u8>) {
    let (p, aux) = {
        let mut k = l.borrow_mut();
        if k.rsp.is_null() || k.rsp_dead {
            return;
        }
        k.inbox.push_back(f.clone());
        k.cur_sent.clear();
        (k.rsp, k.aux.clone())
    };
    let was = set_role(Role::Rsp);
    let r = guarded(|| {
        let r = unsafe { (*p).process_message(ST1, &aux) };
        match r {
            Ok(b) => Pm::Handled(b),
            Err((n, _)) => Pm::Raw(n),
        }
    });
    set_role(was);
    let mut k = l.borrow_mut();
    k.inbox.clear();
    let sent = std::mem::take(&mut k.cur_sent);
    let (res, panic) = match r {
        Ok(r) => (r, None),
        Err(p) => {
            k.rsp_dead = true;
            (Pm::Panicked(p.show()), Some(p))
        }
    };
    if k.keep_pm {
        k.pm.push(PmRec { frame: f, res, sent, panic });
    }
}

impl SpdmDeviceIo for ReqIo {
    fn send(&mut self, b: &[u8]) -> SpdmResult {
        let was = crate::alloc::pause();
        if svc(Svc::Send) {
            crate::alloc::resume(was);
            return Err(SPDM_STATUS_SEND_FAIL);
        }
        sent_secret(Role::Req, b);
        log(Ev::Tx { role: Role::Req, frame: b.to_vec() });
        self.0.borrow_mut().req_sent += 1;
        spend(&self.0);
        push(&self.0, true, b);
        crate::alloc::resume(was);
        Ok(())
    }
    fn receive(&mut self, b: &mut [u8], timeout: usize) -> Result<usize, usize> {
        let was = crate::alloc::pause();
        let r = (|| {
            self.0.borrow_mut().timeouts.push(timeout);
            if svc(Svc::Recv) {
                return Err(0);
            }
            spend(&self.0);
            pump(&self.0);
            let f = match self.0.borrow_mut().to_req.pop_front() {
                Some(f) => f,
                None => return Err(0),
            };
            if f.len() > b.len() {
                return Err(0);
            }
            b[..f.len()].copy_from_slice(&f);
            log(Ev::Rx { role: Role::Req, frame: f.clone() });
            Ok(f.len())
        })();
        crate::alloc::resume(was);
        r
    }
    fn flush_all(&mut self) -> SpdmResult {
        Ok(())
    }
}
impl SpdmDeviceIo for RspIo {
    fn send(&mut self, b: &[u8]) -> SpdmResult {
        let was = crate::alloc::pause();
        if svc(Svc::Send) {
            crate::alloc::resume(was);
            return Err(SPDM_STATUS_SEND_FAIL);
        }
        sent_secret(Role::Rsp, b);
        log(Ev::Tx { role: Role::Rsp, frame: b.to_vec() });
        spend(&self.0);
        self.0.borrow_mut().cur_sent.push(b.to_vec());
        push(&self.0, false, b);
        crate::alloc::resume(was);
        Ok(())
    }
    fn receive(&mut self, b: &mut [u8], _timeout: usize) -> Result<usize, usize> {
        let was = crate::alloc::pause();
        let r = (|| {
            if svc(Svc::Recv) {
                return Err(0);
            }
            let f = match self.0.borrow_mut().inbox.pop_front() {
                Some(f) => f,
                None => return Err(0),
            };
            if f.len() > b.len() {
                return Err(0);
            }
            b[..f.len()].copy_from_slice(&f);
            log(Ev::Rx { role: Role::Rsp, frame: f.clone() });
            Ok(f.len())
        })();
        crate::alloc::resume(was);
        r
    }
    fn flush_all(&mut self) -> SpdmResult {
        Ok(())
    }
}

// ------------------------------------------------------------------ sim
pub struct Sim {
    pub link: LinkRef,
    pub trans: Trans,
    req: *mut RequesterContext<'static>,
    rsp: *mut ResponderContext<'static>,
    req_io: *mut ReqIo,
    rsp_io: *mut RspIo,
    tr: Vec<*mut dyn SpdmTransportEncap>,
    pub req_panic: Option<PanicInfo>,
    held: [Vec<u32>; 2],
}

#[derive(Clone, Debug)]
pub enum Out<R> {
    Ok(R),
    Err(SpdmStatus),
    Panic(PanicInfo),
}
impl<R> Out<R> {
    pub fn is_ok(&self) -> bool {
        matches!(self, Out::Ok(_))
    }
    pub fn ok(self) -> Option<R> {
        match self {
            Out::Ok(r) => Some(r),
            _ => None,
        }
    }
    pub fn show(&self) -> String {
        match self {
            Out::Ok(_) => "ok".into(),
            Out::Err(e) => format!("{:?}", e.status_code),
            Out::Panic(p) => p.show(),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Snap {
    pub conn: u8,
    pub sessions: Vec<(u32, u8)>,
    pub ver: u8,
    pub nego: Vec<u32>,
}
pub fn sess_state(s: session::SpdmSessionState) -> u8 {
    match s {
        session::SpdmSessionState::SpdmSessionNotStarted => 0,
        session::SpdmSessionState::SpdmSessionHandshaking => 1,
        session::SpdmSessionState::SpdmSessionEstablished => 2,
        session::SpdmSessionState::Unknown(_) => 9,
    }
}
pub fn snap(c: &SpdmContext) -> Snap {
    let n = &c.negotiate_info;
    Snap {
        conn: c.runtime_info.get_connection_state().get_u8(),
        sessions: c.get_session_status().iter().map(|(i, s)| (*i, sess_state(*s))).collect(),
        ver: n.spdm_version_sel.get_u8(),
        nego: vec![
            n.req_capabilities_sel.bits(),
            n.rsp_capabilities_sel.bits(),
            n.measurement_specification_sel.bits() as u32,
            n.measurement_hash_sel.bits(),
            n.base_hash_sel.bits(),
            n.base_asym_sel.bits(),
            n.dhe_sel.bits() as u32,
            n.aead_sel.bits() as u32,
            n.req_asym_sel.bits() as u32,
            n.key_schedule_sel.bits() as u32,
            n.opaque_data_support.bits() as u32,
        ],
    }
}
pub const NEGO: [&str; 11] = [
    "requester capabilities", "responder capabilities", "measurement specification", "measurement hash",
    "base hash", "base asym", "dhe", "aead", "requester asym", "key schedule", "opaque format",
];

fn new_trans(t: Trans) -> *mut dyn SpdmTransportEncap {
    match t {
        Trans::Mctp => Box::into_raw(Box::new(mctp_transport::MctpTransportEncap {})) as *mut dyn SpdmTransportEncap,
        Trans::Doe => Box::into_raw(Box::new(pcidoe_transport::PciDoeTransportEncap {})) as *mut dyn SpdmTransportEncap,
    }
}

impl Sim {
    pub fn new(trans: Trans, req: Option<&Ep>, rsp: Option<&Ep>) -> Sim {
        let link = Rc::new(RefCell::new(Link {
            to_rsp: VecDeque::new(),
            to_req: VecDeque::new(),
            inbox: VecDeque::new(),
            cur_sent: vec![],
            adv: None,
            nth: [0; 2],
            puppet: None,
            rsp: std::ptr::null_mut(),
            rsp_dead: false,
            pm: vec![],
            keep_pm: true,
            aux: vec![],
            budget: 4000,
            io: 0,
            timeouts: vec![],
            req_sent: 0,
        }));
        let mut s = Sim {
            link: link.clone(),
            trans,
            req: std::ptr::null_mut(),
            rsp: std::ptr::null_mut(),
            req_io: Box::into_raw(Box::new(ReqIo(link.clone()))),
            rsp_io: Box::into_raw(Box::new(RspIo(link))),
            tr: vec![],
            req_panic: None,
            held: Default::default(),
        };
        if let Some(e) = req {
            e.install(Role::Req);
            s.set_req(e);
        }
        if let Some(e) = rsp {
            e.install(Role::Rsp);
            s.set_rsp(e);
        }
        s
    }
    pub fn set_req(&mut self, e: &Ep) {
        let t = new_trans(self.trans);
        self.tr.push(t);
        let was = set_role(Role::Req);
        let c = Box::new(RequesterContext::new(
            unsafe { &mut *self.req_io },
            unsafe { &mut *t },
            e.config(Role::Req),
            e.provision(),
        ));
        set_role(was);
        self.drop_req();
        self.req = Box::into_raw(c);
    }
    pub fn set_rsp(&mut self, e: &Ep) {
        let t = new_trans(self.trans);
        self.tr.push(t);
        let was = set_role(Role::Rsp);
        let c = Box::new(ResponderContext::new(
            unsafe { &mut *self.rsp_io },
            unsafe { &mut *t },
            e.config(Role::Rsp),
            e.provision(),
        ));
        set_role(was);
        self.drop_rsp();
        self.rsp = Box::into_raw(c);
        let mut k = self.link.borrow_mut();
        k.rsp = self.rsp;
        k.rsp_dead = false;
    }
    pub fn drop_req(&mut self) {
        if !self.req.is_null() {
            let was = set_role(Role::Req);
            unsafe { drop(Box::from_raw(self.req)) };
            set_role(was);
            self.req = std::ptr::null_mut();
        }
    }
    pub fn drop_rsp(&mut self) {
        if !self.rsp.is_null() {
            self.link.borrow_mut().rsp = std::ptr::null_mut();
            let was = set_role(Role::Rsp);
            unsafe { drop(Box::from_raw(self.rsp)) };
            set_role(was);
            self.rsp = std::ptr::null_mut();
        }
    }
    pub fn rq(&mut self) -> &mut RequesterContext<'static> {
        unsafe { &mut *self.req }
    }
    pub fn rs(&mut self) -> &mut ResponderContext<'static> {
        unsafe { &mut *self.rsp }
    }
    pub fn rsp_bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.rsp as *const u8, std::mem::size_of::<ResponderContext>()) }
    }
    pub fn req_bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.req as *const u8, std::mem::size_of::<RequesterContext>()) }
    }
    pub fn snap_req(&mut self) -> Snap {
        snap(&self.rq().common)
    }
    pub fn snap_rsp(&mut self) -> Snap {
        snap(&self.rs().common)
    }
    /// one requester operation
    pub fn op<R>(&mut self, name: &'static str, f: impl FnOnce(&mut RequesterContext<'static>) -> SpdmResult<R>) -> Out<R> {
        {
            let mut k = self.link.borrow_mut();
            k.io = 0;
            k.req_sent = 0;
            k.to_req.clear();
        }
        log(Ev::Call { name });
        let p = self.req;
        let was = set_role(Role::Req);
        let r = guarded(|| f(unsafe { &mut *p }));
        set_role(was);
        log(Ev::Ret { name, ok: matches!(r, Ok(Ok(_))) });
        // anything the requester sent without waiting for an answer
        let out = match r {
            Ok(Ok(v)) => {
                pump(&self.link);
                Out::Ok(v)
            }
            Ok(Err(e)) => {
                pump(&self.link);
                Out::Err(e)
            }
            Err(p) => {
                self.req_panic = Some(p.clone());
                Out::Panic(p)
            }
        };
        self.settle(name);
        out
    }
    /// hand one transport frame to the real responder; what it answers
    pub fn feed(&mut self, frame: &[u8]) -> PmRec {
        {
            let mut k = self.link.borrow_mut();
            k.io = 0;
            k.to_req.clear();
            k.to_rsp.clear();
            k.keep_pm = true;
            k.pm.clear();
        }
        deliver(&self.link, frame.to_vec());
        let r = self.link.borrow_mut().pm.pop();
        self.settle("a request");
        r.unwrap_or(PmRec { frame: frame.to_vec(), res: Pm::Raw(0), sent: vec![], panic: None })
    }
    /// Where the secrets of released sessions still are.
    pub fn settle(&mut self, after: &str) {
        if !world::TRACK.with(|t| t.get()) {
            return;
        }
        let _p = crate::alloc::Paused::new();
        let mut live: [Vec<u32>; 2] = Default::default();
        let ids = |c: &SpdmContext| -> Vec<u32> { c.session.iter().map(|s| s.get_session_id()).filter(|i| *i != 0).collect() };
        if !self.req.is_null() {
            live[0] = ids(&self.rq().common);
        }
        if !self.rsp.is_null() {
            live[1] = ids(&self.rs().common);
        }
        let mut may: Vec<u8> = vec![];
        let mut names: Vec<&'static str> = vec![];
        let (mut over, mut kept) = (0u64, 0u64);
        world::with(|w| {
            // (role, secret) -> owners known so far
            let mut known: std::collections::HashMap<(usize, usize), Vec<u32>> = Default::default();
            for x in w.secrets.iter_mut() {
                let k = match x.role {
                    Role::Req => 0,
                    Role::Rsp => 1,
                    Role::None => continue,
                };
                let l = &live[k];
                match &mut x.owner {
                    Some(o) => {
                        let n = o.len();
                        o.retain(|i| l.contains(i));
                        if n > 0 && o.is_empty() {
                            over += 1;
                        }
                    }
                    None => {
                        let new: Vec<u32> = l.iter().copied().filter(|i| !self.held[k].contains(i)).collect();
                        let o = match x.parent.and_then(|p| known.get(&(k, p))) {
                            Some(o) => o.clone(),
                            None if !new.is_empty() => new,
                            // of one of the live sessions
                            None if x.what == "psk_ms" => l.clone(),
                            // of a session that did not come to be
                            None => vec![],
                        };
                        if o.is_empty() {
                            over += 1;
                        }
                        x.owner = Some(o);
                    }
                }
                known.insert((k, x.pat), x.owner.clone().unwrap_or_default());
                if may.len() <= x.pat {
                    may.resize(x.pat + 1, 0);
                    names.resize(x.pat + 1, "");
                }
                names[x.pat] = x.what;
                if x.owner.as_ref().map_or(false, |o| !o.is_empty()) {
                    may[x.pat] |= 1 << k;
                    kept += 1;
                }
            }
        });
        for (i, m) in may.iter().enumerate() {
            crate::alloc::allow(i, *m);
        }
        self.held = live;
        let mut said: Vec<String> = vec![];
        let mut blocks = 0u64;
        for k in 0..2 {
            let (who, bytes): (&str, &[u8]) = if k == 0 {
                if self.req.is_null() {
                    continue;
                }
                ("requester", self.req_bytes())
            } else {
                if self.rsp.is_null() {
                    continue;
                }
                ("responder", self.rsp_bytes())
            };
            if let Some(q) = crate::alloc::scan(bytes, 1 << k) {
                said.push(format!("the context of the {} holds the {} of a released session after {}", who, names[q], after));
            }
            let (n, found) = crate::alloc::scan_held(1 << k);
            blocks += n as u64;
            for (size, q) in found {
                said.push(format!("a block of {} bytes of the {} holds the {} of a released session after {}", size, who, names[q], after));
            }
        }
        world::LEAKS.with(|l| {
            let mut l = l.borrow_mut();
            l.blocks += blocks;
            l.over += over;
            l.kept = l.kept.max(kept);
            l.settled += 1;
            for s in said {
                if l.found.len() < 20 {
                    l.found.push(s)
                }
            }
        });
    }
    pub fn rsp_panic(&self) -> Option<PanicInfo> {
        self.link.borrow().pm.iter().find_map(|p| p.panic.clone())
    }
    pub fn rsp_dead(&self) -> bool {
        self.link.borrow().rsp_dead
    }
}
impl Drop for Sim {
    fn drop(&mut self) {
        self.drop_req();
        self.drop_rsp();
        self.settle("the contexts were dropped");
        unsafe {
            drop(Box::from_raw(self.req_io));
            drop(Box::from_raw(self.rsp_io));
            for t in self.tr.drain(..) {
                drop(Box::from_raw(t));
            }
        }
        // break closures that may hold the link
        let a = self.link.borrow_mut().adv.take();
        let p = self.link.borrow_mut().puppet.take();
        drop((a, p));
    }
}

// ------------------------------------------------------------------ framing (independent)
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Clear,
    Secured,
}
pub fn frame(t: Trans, k: Kind, payload: &[u8]) -> Vec<u8> {
    match t {
        Trans::Mctp => {
            let mut v = vec![if k == Kind::Clear { 5 } else { 6 }];
            v.extend_from_slice(payload);
            v
        }
        Trans::Doe => {
            let dw = (payload.len() + 3) / 4 + 2;
            let mut v = vec![1, 0, if k == Kind::Clear { 1 } else { 2 }, 0];
            v.extend_from_slice(&(dw as u32).to_le_bytes());
            v.extend_from_slice(payload);
            v.resize(dw * 4, 0);
            v
        }
    }
}
/// (kind, payload incl. possible padding)
pub fn unframe(t: Trans, f: &[u8]) -> Option<(Kind, Vec<u8>)> {
    match t {
        Trans::Mctp => match f.first()? {
            5 => Some((Kind::Clear, f[1..].to_vec())),
            6 => Some((Kind::Secured, f[1..].to_vec())),
            _ => None,
        },
        Trans::Doe => {
            if f.len() < 8 || f[0] != 1 || f[1] != 0 || f[3] != 0 {
                return None;
            }
            let dw = u32::from_le_bytes([f[4], f[5], f[6], f[7]]) as usize;
            if dw * 4 != f.len() {
                return None;
            }
            match f[2] {
                1 => Some((Kind::Clear, f[8..].to_vec())),
                2 => Some((Kind::Secured, f[8..].to_vec())),
                _ => None,
            }
        }
    }
}
pub fn show_frame(f: &[u8]) -> String {
    hexs(f)
}
