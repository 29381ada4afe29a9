//! The reference model: what the history so far says must be true now. All
//! harness code reads and writes it through `w()`; only one thread runs at any
//! time (the baton in threads.rs), so it needs no locking.
use crate::chooser::mix;
use crate::coro::{DynCoro, DynTrap};
use crate::shm::shm;
use crate::stacks::AnyStack;
use crate::vals::Kind;
use crate::{ev, vio};
use std::sync::atomic::Ordering::*;

pub type Sid = usize;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum ValSt {
    Live,
    Dropped,
    /// Lived on a stack that was reset: it must never be touched again.
    Discarded,
}

pub struct ValInfo {
    pub kind: Kind,
    pub st: ValSt,
}

/// What is unwinding a strand.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum U {
    User(u64),
    Forced(usize),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Frame {
    /// Closure state of the body or of a trap handler.
    Cap(u64),
    Guard(u64),
    Catch,
    OnStack(usize),
    OnParent,
    Regs(u64),
    Hold(u64),
    Own(usize),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Fresh,
    Running,
    Susp,
    Done,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Out {
    None,
    Yield(u64),
    Ret(u64),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Forced {
    No,
    /// force_unwind(): may fail.
    Unwind,
    /// Dropped: the harness keeps the cleanup from failing.
    Drop,
    /// Dropped with a cleanup that will not complete.
    DropAbort,
}

#[derive(Clone, Copy, PartialEq, Debug, Default)]
pub struct Region {
    pub lo: usize,
    pub hi: usize,
}

pub struct Strand {
    pub coro: bool,
    pub combo: u32,
    pub st: St,
    pub started: bool,
    pub obj: Option<Box<dyn DynCoro>>,
    pub trap: Option<Box<dyn DynTrap>>,
    pub owner: Option<Sid>,
    pub leaked: bool,
    pub resumer: Sid,
    pub resumer_sp: usize,
    pub thread: usize,
    pub shadow: Vec<Frame>,
    pub unw: Vec<U>,
    pub regions: Vec<Region>,
    pub cap: u64,
    pub out: Out,
    pub exp_in: u64,
    pub forced: Forced,
    /// Levels of destructors running because the strand is unwinding.
    pub cleanup: u32,
    pub finish: bool,
    pub stack: usize,
    pub steps_left: u32,
    pub migrations: u32,
    pub resumers: u32,
    /// Stopped on its way into or out of the library.
    pub busy: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum StackUse {
    /// In the harness's hands.
    Idle,
    Coro(Sid),
    Call(Sid, usize),
    Released,
    /// Borrowed out through `&mut`.
    Lent,
    Leaked,
}

pub struct StackInfo {
    pub base: usize,
    pub limit: usize,
    pub used: StackUse,
    /// For a borrowed stack: index of the stack it borrows.
    pub lender: Option<(usize, *mut AnyStack)>,
    pub default: bool,
    pub mapping: Option<u32>,
    pub generations: u32,
}

pub struct Th {
    pub cur: Sid,
    pub finished: bool,
    pub lo: usize,
    pub hi: usize,
}

#[derive(Default)]
pub struct W {
    pub strands: Vec<Box<Strand>>,
    pub vals: Vec<ValInfo>,
    pub zst_made: u64,
    pub zst_drops: u64,
    pub zst_expect: u64,
    pub pays: Vec<u8>,
    pub pay_kind: Vec<u8>,
    /// What kind of object another coroutine's forced unwinding raised.
    pub forced_type: std::collections::BTreeMap<u64, std::any::TypeId>,
    pub stacks: Vec<StackInfo>,
    pub idle: Vec<AnyStack>,
    pub th: Vec<Th>,
    pub cur_th: usize,
    pub steps: u32,
    pub max_steps: u32,
    pub ending: bool,
    pub hash: u64,
    pub switches: u32,
    pub faults: u32,
    pub next_id: u64,
    pub weights: Vec<u32>,
    pub big_frames: bool,
    pub chain_max: u32,
    pub abort_run: bool,
    /// Where a panic that must abort may unwind: strand, and its last frame
    /// that must not be reached.
    pub abort_at: (Sid, usize),
}

static mut WORLD: *mut W = std::ptr::null_mut();
#[inline]
pub fn w() -> &'static mut W {
    unsafe { &mut *WORLD }
}
pub fn reset() {
    unsafe {
        if !WORLD.is_null() {
            drop(Box::from_raw(WORLD));
        }
        WORLD = Box::into_raw(Box::default());
    }
    w().vals.push(ValInfo { kind: Kind::Plain, st: ValSt::Live });
}

impl Default for Strand {
    fn default() -> Strand {
        Strand {
            coro: false,
            combo: 0,
            st: St::Fresh,
            started: false,
            obj: None,
            trap: None,
            owner: None,
            leaked: false,
            resumer: 0,
            resumer_sp: 0,
            thread: 0,
            shadow: vec![],
            unw: vec![],
            regions: vec![],
            cap: 0,
            out: Out::None,
            exp_in: 0,
            forced: Forced::No,
            cleanup: 0,
            finish: false,
            stack: usize::MAX,
            steps_left: u32::MAX,
            migrations: 0,
            resumers: 0,
            busy: false,
        }
    }
}

pub fn st(s: Sid) -> &'static mut Strand {
    &mut w().strands[s]
}

/// Folds an event into the run's hash: the measure of distinct executions.
pub fn note(kind: u64, a: u64, b: u64) {
    let w = w();
    w.hash = mix(w.hash ^ kind.wrapping_mul(0x100_0001) ^ (a << 20) ^ (b << 40));
}

// ---- values ---------------------------------------------------------------

pub fn new_val(kind: Kind) -> u64 {
    let w = w();
    w.vals.push(ValInfo { kind, st: ValSt::Live });
    if kind == Kind::Zst {
        w.zst_made += 1;
    }
    (w.vals.len() - 1) as u64
}

#[inline(never)]
pub fn val_drop(id: u64, ok: bool) {
    let _p = crate::trap::Pause::new();
    let w = w();
    if !ok || id == 0 || id as usize >= w.vals.len() || w.vals[id as usize].kind != Kind::Tracked {
        vio!("C01 C03", "garbage-dropped", "something that is not a value of this run was dropped as one (id {id})");
    }
    ev!("    value {id} dropped");
    let v = &mut w.vals[id as usize];
    match v.st {
        ValSt::Live => v.st = ValSt::Dropped,
        ValSt::Dropped => vio!("C01 C05", "double-drop", "value {id} was dropped a second time"),
        ValSt::Discarded => vio!("C01 C08", "reset-drop", "value {id} lived on a stack that was reset, yet was dropped"),
    }
}

#[inline(never)]
pub fn zst_drop() {
    let _p = crate::trap::Pause::new();
    w().zst_drops += 1;
}

/// The value must have been dropped by now, exactly once.
pub fn expect_dropped(id: u64, tags: &str, what: &str) {
    let w = w();
    let v = &mut w.vals[id as usize];
    match v.kind {
        Kind::Plain => {}
        Kind::Tracked => {
            if v.st != ValSt::Dropped {
                vio!(tags, "not-dropped", "{what}: value {id} should have been dropped, but is {:?}", v.st);
            }
        }
        Kind::Zst => {
            if v.st != ValSt::Live {
                vio!(tags, "harness", "{what}: zero-sized value {id} accounted twice");
            }
            v.st = ValSt::Dropped;
            w.zst_expect += 1;
            if w.zst_drops != w.zst_expect && !crate::trap::any_struck() {
                vio!(tags, "zst-drops", "{what}: zero-sized value {id} should have been dropped once: {} drops, {} expected", w.zst_drops, w.zst_expect);
            }
        }
    }
}

/// The value must not have been dropped yet.
pub fn expect_live(id: u64, tags: &str, what: &str) {
    let w = w();
    let v = &w.vals[id as usize];
    if v.kind == Kind::Tracked && v.st != ValSt::Live {
        vio!(tags, "early-drop", "{what}: value {id} is {:?}, not live", v.st);
    }
    check_zst(tags, what);
}

pub fn check_zst(tags: &str, what: &str) {
    let w = w();
    // A thread stopped in the middle of an operation is somewhere in between.
    if w.zst_drops != w.zst_expect && !crate::trap::any_struck() {
        vio!(tags, "zst-drops", "{what}: {} drops of zero-sized values, {} expected", w.zst_drops, w.zst_expect);
    }
}

pub fn discard(id: u64) {
    let v = &mut w().vals[id as usize];
    if v.st == ValSt::Live {
        v.st = ValSt::Discarded;
    }
}

// ---- panic payloads ---------------------------------------------------------

/// Payload of a panic raised by the simulation.
pub struct Pay {
    pub id: u64,
}
impl Drop for Pay {
    fn drop(&mut self) {
        let _p = crate::trap::Pause::new();
        let p = &mut w().pays;
        let i = self.id as usize;
        if i >= p.len() || p[i] != 0 {
            vio!("C04", "payload-drop", "panic payload {} was dropped twice or is garbage", self.id);
        }
        p[i] = 1;
    }
}
pub fn new_pay() -> u64 {
    w().pay_kind.push(0);
    let p = &mut w().pays;
    p.push(0);
    (p.len() - 1) as u64
}

// ---- strands ----------------------------------------------------------------

/// Everything that lives on the strand's stack is gone without being dropped.
pub fn discard_strand(s: Sid) {
    let sh = std::mem::take(&mut st(s).shadow);
    for f in sh.into_iter().rev() {
        match f {
            Frame::Cap(v) | Frame::Hold(v) => discard(v),
            Frame::Own(c) => leak(c),
            Frame::OnStack(k) => {
                let w = w();
                w.stacks[k].used = StackUse::Leaked;
            }
            _ => {}
        }
    }
    let t = st(s);
    if let Out::Ret(v) = t.out {
        discard(v);
    }
    t.out = Out::None;
    t.unw.clear();
    t.cleanup = 0;
    t.regions.truncate(1);
}

/// The coroutine and all it holds stay behind, never to be used again.
pub fn leak(c: Sid) {
    let t = st(c);
    t.leaked = true;
    if let Some(o) = t.obj.take() {
        std::mem::forget(o);
    }
    if t.st == St::Fresh {
        discard(t.cap);
    }
    let k = t.stack;
    discard_strand(c);
    if k != usize::MAX {
        w().stacks[k].used = StackUse::Leaked;
    }
    st(c).st = St::Done;
}

/// Suspended in the middle of a destructor that runs because of a panic:
/// cannot be unwound or moved to another thread.
pub fn no_kill(s: Sid) -> bool {
    st(s).cleanup > 0 || owned(s).iter().any(|&c| no_kill(c))
}

pub fn owned(s: Sid) -> Vec<Sid> {
    st(s).shadow.iter().filter_map(|f| if let Frame::Own(c) = f { Some(*c) } else { None }).collect()
}

pub fn pinned(s: Sid) -> Option<usize> {
    if st(s).cleanup > 0 {
        return Some(st(s).thread);
    }
    owned(s).iter().find_map(|&c| pinned(c))
}

pub fn cur() -> Sid {
    let w = w();
    w.th[w.cur_th].cur
}
pub fn set_cur(s: Sid) {
    let w = w();
    let t = w.cur_th;
    w.th[t].cur = s;
}

/// The frames of the context that currently runs and of all its parents,
/// innermost first.
pub fn chain(s: Sid) -> Vec<(Sid, Frame)> {
    let mut v = vec![];
    let mut s = s;
    loop {
        for f in st(s).shadow.iter().rev() {
            v.push((s, *f));
        }
        if !st(s).coro {
            return v;
        }
        s = st(s).resumer;
    }
}

pub fn chain_len(mut s: Sid) -> u32 {
    let mut n = 0;
    while st(s).coro {
        s = st(s).resumer;
        n += 1;
    }
    n
}

#[inline]
pub fn in_region(s: Sid, addr: usize) -> bool {
    let r = st(s).regions.last().unwrap();
    addr >= r.lo && addr < r.hi
}

pub fn progress() {
    shm().progress.fetch_add(1, Relaxed);
}
