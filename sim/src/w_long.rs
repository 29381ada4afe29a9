//! Long histories: thousands of switches of one coroutine, deep chains of
//! contexts, crowds of live coroutines, long successions on one stack. Each
//! step is judged by a direct model; only a few choices describe a run.
use crate::chooser::{choose, mix, range};
use crate::profiles::Profile;
use crate::shm::{cnt, cnt_n, K};
use crate::world::{note, progress, w};
use crate::{ev, vio};
use corosensei::stack::{Stack, StackPointer};
use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
use std::cell::{Cell, RefCell};
use std::ffi::c_void;
use std::hint::black_box;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

const SLAB: usize = 64 << 10;
#[cfg(target_pointer_width = "64")]
const SLABS: usize = 1200;
#[cfg(target_pointer_width = "32")]
const SLABS: usize = 500;
const UNWIND: bool = cfg!(feature = "unwind");

struct L {
    mem: usize,
    free: Vec<u32>,
    /// Whether each slab is given out.
    out: Vec<bool>,
    /// Objects in the order of their end.
    log: Vec<u32>,
    live: i64,
    salt: u64,
}
static mut LP: *mut L = std::ptr::null_mut();
fn l() -> &'static mut L {
    unsafe {
        if LP.is_null() {
            let p = libc::mmap(std::ptr::null_mut(), SLABS * SLAB, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
            assert!(p != libc::MAP_FAILED);
            LP = Box::into_raw(Box::new(L { mem: p as usize, free: vec![], out: vec![], log: vec![], live: 0, salt: 0 }));
        }
        &mut *LP
    }
}
fn reset() {
    let x = l();
    x.free = (0..SLABS as u32).rev().collect();
    x.out = vec![false; SLABS];
    x.log.clear();
    x.live = 0;
    x.salt = choose(1 << 20) as u64;
}
fn f(a: u64, b: u64) -> u64 {
    mix(l().salt ^ a << 32 ^ b)
}

/// A stack that knows whether it was released already.
struct Slab(u32);
impl Slab {
    fn new() -> Slab {
        let i = l().free.pop().expect("enough slabs");
        l().out[i as usize] = true;
        Slab(i)
    }
    fn lo(&self) -> usize {
        l().mem + self.0 as usize * SLAB
    }
}
impl Drop for Slab {
    fn drop(&mut self) {
        if !l().out[self.0 as usize] {
            vio!("C13", "double-release", "a stack was released twice");
        }
        l().out[self.0 as usize] = false;
        l().free.push(self.0);
        unsafe { std::ptr::write_bytes((self.lo() + SLAB - 2048) as *mut u8, 0xDB, 2048) };
    }
}
unsafe impl Stack for Slab {
    fn base(&self) -> StackPointer {
        StackPointer::new(self.lo() + SLAB).unwrap()
    }
    fn limit(&self) -> StackPointer {
        StackPointer::new(self.lo()).unwrap()
    }
}
#[track_caller]
fn slabs(want: usize, tags: &'static str, what: &str) {
    let n = SLABS - l().free.len();
    if n != want {
        vio!(tags, "stacks", "{what}: {n} stacks are held, {want} should be");
    }
}
#[track_caller]
fn live(want: i64, tags: &'static str, what: &str) {
    let n = l().live;
    if n != want {
        vio!(tags, "objects", "{what}: {n} objects are alive, {want} should be");
    }
}

/// An object on a coroutine's stack, or carried over a switch.
struct Obj(u32, u64);
impl Obj {
    #[inline(never)]
    fn new(k: u32) -> Obj {
        l().live += 1;
        Obj(k, f(k as u64, 77))
    }
    fn check(&self, tags: &'static str) {
        if self.1 != f(self.0 as u64, 77) {
            vio!(tags, "object-changed", "the object {} changed", self.0);
        }
    }
}
impl Drop for Obj {
    #[inline(never)]
    fn drop(&mut self) {
        self.check("C03 C05 C04");
        l().live -= 1;
        l().log.push(self.0);
    }
}

struct S<T>(T);
unsafe impl<T> Send for S<T> {}

/// How long: mostly short, seldom beyond every small counter's range.
fn length() -> u32 {
    match choose(16) {
        0..=5 => range(1, 12),
        6..=10 => range(10, 300),
        11..=13 => range(200, 1400),
        14 => range(1000, 9000),
        _ => range(65_000, 66_500),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fate {
    Return,
    Drop,
    Forced,
    Panic,
    Reset,
}
fn fate() -> Fate {
    let f = [Fate::Return, Fate::Drop, Fate::Forced, Fate::Panic, Fate::Reset][choose(5) as usize];
    if UNWIND || f == Fate::Reset {
        f
    } else {
        Fate::Return
    }
}

// ---- one coroutine, many rounds ----------------------------------------------

trait Token: 'static {
    fn make(a: u64, b: u64) -> Self;
    fn is(&self, a: u64, b: u64) -> bool;
}
impl Token for u64 {
    fn make(a: u64, b: u64) -> u64 {
        f(a, b)
    }
    fn is(&self, a: u64, b: u64) -> bool {
        *self == f(a, b)
    }
}
impl Token for [u64; 5] {
    fn make(a: u64, b: u64) -> Self {
        [f(a, b), 1, f(b, a), a, b]
    }
    fn is(&self, a: u64, b: u64) -> bool {
        *self == Self::make(a, b)
    }
}
impl Token for Box<Obj> {
    fn make(a: u64, b: u64) -> Self {
        Box::new(Obj::new((a << 24 | b) as u32))
    }
    fn is(&self, a: u64, b: u64) -> bool {
        self.check("C01");
        self.0 == (a << 24 | b) as u32
    }
}
impl Token for u8 {
    fn make(a: u64, b: u64) -> u8 {
        f(a, b) as u8
    }
    fn is(&self, a: u64, b: u64) -> bool {
        *self == f(a, b) as u8
    }
}

#[derive(Clone, Copy)]
struct Rounds {
    n: u32,
    /// In every so many rounds the body makes a detour.
    every: u32,
    what: u32,
    fate: Fate,
}

#[inline(never)]
fn detour<T: Token>(y: &Yielder<T, T>, what: u32, i: u32) {
    let want = f(i as u64, 9);
    let got = match what {
        0 => {
            cnt(K::OnParent);
            y.on_parent_stack(|| f(i as u64, 9))
        }
        1 => {
            cnt(K::OnStack);
            on_stack(Slab::new(), || f(i as u64, 9))
        }
        2 => {
            let mut c = Coroutine::<u64, u64, u64, Slab>::with_stack(Slab::new(), move |y, x| f(y.suspend(x), 9));
            if c.resume(5).as_yield() != Some(5) {
                vio!("C01 C03", "wrong-value", "an inner coroutine yielded something else");
            }
            c.resume(i as u64).as_return().unwrap_or(0)
        }
        _ if UNWIND => {
            let r = catch_unwind(AssertUnwindSafe(|| {
                y.on_parent_stack(|| -> u64 { resume_unwind(Box::new(f(i as u64, 9))) });
            }));
            r.err().and_then(|p| p.downcast_ref::<u64>().copied()).unwrap_or(0)
        }
        _ => f(i as u64, 9),
    };
    if got != want {
        vio!("C07 C03 C01", "detour", "round {i}: the detour ({what}) gave {got:#x}, not {want:#x}");
    }
}

fn rounds<T: Token>() {
    let r = Rounds { n: length(), every: [0, 1, 3, 100, 255][choose(5) as usize], what: choose(4), fate: fate() };
    let n = if r.every == 1 && r.what != 0 { r.n.min(2000) } else { r.n };
    ev!("  long: one coroutine, {n} rounds, detour {} every {}, then {:?}", r.what, r.every, r.fate);
    note(91, n as u64, (r.every as u64) << 32 | (r.what as u64) << 16 | r.fate as u64);
    cnt_n(K::Resume, n as u64);
    cnt_n(K::Suspend, n as u64);
    let plan = r;
    let base_live = l().live;
    let mut c = Coroutine::<T, T, T, Slab>::with_stack(Slab::new(), move |y: &Yielder<T, T>, x0: T| {
        let _g = Obj::new(7);
        let local = black_box([f(1, 1), f(1, 2), f(1, 3)]);
        let mut x = x0;
        for i in 0..n {
            if !x.is(1, i as u64) {
                vio!("C01 C03", "wrong-value", "round {i}: the coroutine received something else");
            }
            if plan.every > 0 && i % plan.every == plan.every - 1 {
                detour(y, plan.what, i);
            }
            x = y.suspend(T::make(2, i as u64));
            if local != [f(1, 1), f(1, 2), f(1, 3)] {
                vio!("C03", "local-changed", "round {i}: a local variable of the coroutine changed");
            }
        }
        if plan.fate == Fate::Panic {
            resume_unwind(Box::new(f(4, 4)));
        }
        drop(x);
        T::make(3, n as u64)
    });
    for i in 0..n {
        if c.done() || c.started() != (i > 0) {
            vio!("C02", "state", "round {i}: a suspended coroutine's state is wrong");
        }
        match c.resume(T::make(1, i as u64)) {
            CoroutineResult::Yield(v) if v.is(2, i as u64) => {}
            CoroutineResult::Yield(_) => vio!("C01 C03", "wrong-value", "round {i}: resume returned another value"),
            CoroutineResult::Return(_) => vio!("C02 C01", "wrong-result", "round {i}: a suspension was reported as a return"),
        }
        if i % 512 == 0 {
            progress();
            let k = l().log.len();
            if k > 4096 {
                l().log.clear();
            }
        }
    }
    let mut panicked = None;
    let mut returned = false;
    match r.fate {
        Fate::Return | Fate::Panic => match catch_unwind(AssertUnwindSafe(|| c.resume(T::make(1, n as u64)))) {
            Ok(CoroutineResult::Return(v)) if r.fate == Fate::Return => {
                returned = true;
                if !v.is(3, n as u64) {
                    vio!("C01 C03", "wrong-value", "after {n} rounds the coroutine returned another value");
                }
            }
            Err(p) if r.fate == Fate::Panic => panicked = p.downcast_ref::<u64>().copied(),
            _ => vio!("C02 C04", "wrong-result", "after {n} rounds the coroutine ended in the wrong way"),
        },
        Fate::Forced => c.force_unwind(),
        Fate::Reset => {
            unsafe { c.force_reset() };
        }
        Fate::Drop => {
            drop(c);
            live(base_live, "C05 C01", "after a coroutine was dropped");
            slabs(0, "C13 C05", "after a coroutine was dropped");
            return;
        }
    }
    if r.fate == Fate::Panic && panicked != Some(f(4, 4)) {
        vio!("C04", "wrong-payload", "after {n} rounds another panic came out");
    }
    if !c.done() || r.fate == Fate::Return && !returned {
        vio!("C02", "state", "an ended coroutine is not done");
    }
    if r.fate != Fate::Reset {
        live(base_live, "C01 C04 C05", "after the coroutine ended");
    }
    slabs(1, "C13", "after the coroutine ended");
    let s = c.into_stack();
    slabs(1, "C13", "after into_stack");
    drop(s);
    slabs(0, "C13", "after the stack was dropped");
}

// ---- deep chains --------------------------------------------------------------

struct Chain {
    depth: u32,
    suspensions: u32,
    fate: Fate,
    /// The level that catches a panic; 0: the thread.
    catcher: u32,
    /// How each level resumes the next.
    via: u64,
    /// Each level's stack and where its frame is.
    at: RefCell<Vec<(usize, usize)>>,
    walks: Cell<u32>,
}

type Co = Coroutine<u64, u64, u64, Slab>;

impl Chain {
    fn via(&self, k: u32) -> u32 {
        match self.via {
            0..=3 => self.via as u32,
            v => (mix(v ^ k as u64) % 4) as u32,
        }
    }
}

extern "C" {
    fn _Unwind_Backtrace(cb: extern "C" fn(*mut c_void, *mut c_void) -> i32, arg: *mut c_void) -> i32;
    fn _Unwind_GetCFA(c: *mut c_void) -> usize;
}
struct Walk {
    at: Vec<usize>,
    n: u32,
}
extern "C" fn seen(c: *mut c_void, arg: *mut c_void) -> i32 {
    let k = unsafe { &mut *(arg as *mut Walk) };
    k.n += 1;
    if k.n > 60_000 {
        return 5;
    }
    k.at.push(unsafe { _Unwind_GetCFA(c) });
    0
}

/// Every level's frame is on the walk, innermost first.
#[inline(never)]
fn walk(ch: &Chain) {
    cnt(K::Backtrace);
    ch.walks.set(ch.walks.get() + 1);
    let mut k = Walk { at: Vec::with_capacity(4096), n: 0 };
    let r = unsafe { _Unwind_Backtrace(seen, &mut k as *mut Walk as *mut c_void) };
    if r != 5 || k.n > 60_000 {
        vio!("C09", "walk-error", "the stack walk from level {} ends with code {r} after {} frames", ch.depth, k.n);
    }
    let mut i = 0;
    for (lvl, &(slab, frame)) in ch.at.borrow().iter().enumerate().rev() {
        // The frame that holds this local: the first one whose CFA is above it, in the same stack.
        let j = k.at[i..].iter().position(|&c| c > frame && c <= slab + SLAB && frame >= slab);
        match j {
            Some(j) => i += j,
            None => vio!("C09", "walk-short", "the stack walk from level {} does not show level {} of the chain", ch.depth, lvl + 1),
        }
    }
}

#[inline(never)]
fn level(ch: &Chain, y: &Yielder<u64, u64>, k: u32, x0: u64, slab: usize) -> u64 {
    let g = Obj::new(k);
    ch.at.borrow_mut().push((slab, &g as *const Obj as usize));
    cnt(K::Create);
    if k == ch.depth {
        if x0 != f(k as u64, 0) {
            vio!("C01 C03", "wrong-value", "the innermost coroutine received another value");
        }
        walk(ch);
        for i in 0..ch.suspensions {
            let x = y.suspend(f(0, i as u64));
            if x != f(k as u64, i as u64 + 1) {
                vio!("C01 C03", "wrong-value", "the innermost coroutine received another value after suspension {i}");
            }
            g.check("C03");
            walk(ch);
        }
        if ch.fate == Fate::Panic {
            cnt(K::Panic);
            resume_unwind(Box::new(f(5, 5)));
        }
        ch.at.borrow_mut().pop();
        return f(6, k as u64);
    }
    let s = Slab::new();
    let lo = s.lo();
    let chp = ch as *const Chain as usize;
    let mut c: Co = Coroutine::with_stack(s, move |y, x| level(unsafe { &*(chp as *const Chain) }, y, k + 1, x, lo));
    let mut x = x0;
    let mut i = 0u64;
    loop {
        if x != f(k as u64, i) {
            vio!("C01 C03", "wrong-value", "level {k} received another value after suspension {i}");
        }
        let next = f(k as u64 + 1, i);
        let cp = S(&mut c as *mut Co);
        let go = move || {
            let cp = cp;
            unsafe { (*{ cp }.0).resume(next) }
        };
        let how = || match ch.via(k) {
            0 | 3 => go(),
            1 => {
                cnt(K::OnStack);
                on_stack(Slab::new(), go)
            }
            _ => {
                cnt(K::OnParent);
                let S(r) = y.on_parent_stack(move || S(go()));
                r
            }
        };
        let r = if ch.catcher == k && ch.fate == Fate::Panic {
            match catch_unwind(AssertUnwindSafe(how)) {
                Ok(r) => r,
                Err(p) => {
                    cnt(K::Catch);
                    if p.downcast_ref::<u64>() != Some(&f(5, 5)) {
                        vio!("C04", "wrong-payload", "level {k} caught another panic");
                    }
                    ordered(ch.depth, k + 1, "C04");
                    if !c.done() {
                        vio!("C02 C04", "state", "a coroutine that panicked is not done");
                    }
                    // The stack is used again.
                    ch.at.borrow_mut().truncate(k as usize);
                    CoroutineResult::Return(f(6, k as u64 + 1))
                }
            }
        } else {
            how()
        };
        g.check("C03");
        match r {
            CoroutineResult::Yield(v) => {
                if v != f(0, i) {
                    vio!("C01 C03", "wrong-value", "level {k}: suspension {i} passed on another value");
                }
                x = y.suspend(v);
                i += 1;
            }
            CoroutineResult::Return(v) => {
                if v != f(6, k as u64 + 1) {
                    vio!("C01 C03", "wrong-value", "level {k}: another value was returned");
                }
                ch.at.borrow_mut().pop();
                return f(6, k as u64);
            }
        }
    }
}

/// Objects `from` down to `to` ended, in this order, and nothing else.
fn ordered(from: u32, to: u32, tags: &'static str) {
    let log = std::mem::take(&mut l().log);
    let want: Vec<u32> = (to..=from).rev().collect();
    if log != want {
        vio!(tags, "order", "objects of levels {from} down to {to} should have ended in this order, {} ended: {:?} ...", log.len(), &log[..log.len().min(8)]);
    }
}

fn deep() {
    let depth = match choose(8) {
        0..=2 => range(1, 12),
        3..=5 => range(8, 40),
        6 => range(30, 140),
        _ => range(120, if cfg!(target_pointer_width = "64") { 280 } else { 200 }),
    };
    let ch = Chain {
        depth,
        suspensions: choose(4),
        fate: fate(),
        catcher: choose(depth),
        via: [0, 1, 2, 4 + choose(1 << 16) as u64][choose(4) as usize],
        at: RefCell::new(vec![]),
        walks: Cell::new(0),
    };
    ev!("  long: a chain of {depth} coroutines, {} suspensions, via {}, then {:?} (caught by level {})", ch.suspensions, ch.via, ch.fate, ch.catcher);
    note(92, depth as u64, (ch.suspensions as u64) << 32 | (ch.via) << 8 | ch.fate as u64);
    cnt(K::Reparent);
    l().log.clear();
    let s = Slab::new();
    let lo = s.lo();
    let chp = &ch as *const Chain as usize;
    let mut c: Co = Coroutine::with_stack(s, move |y, x| level(unsafe { &*(chp as *const Chain) }, y, 1, x, lo));
    for i in 0..=ch.suspensions {
        progress();
        if i == ch.suspensions && matches!(ch.fate, Fate::Drop | Fate::Forced | Fate::Reset) && i > 0 {
            match ch.fate {
                Fate::Forced => {
                    cnt(K::ForceSuspended);
                    c.force_unwind();
                }
                Fate::Drop => {
                    cnt(K::DropSuspended);
                    drop(c);
                    ordered(depth, 1, "C05");
                    live(0, "C05", "after the chain was dropped");
                    slabs(0, "C13 C05", "after the chain was dropped");
                    return;
                }
                _ => {
                    cnt(K::Reset);
                    unsafe { c.force_reset() };
                    // Everything on its stack leaks.
                    if !l().log.is_empty() {
                        vio!("C02 C05", "reset-dropped", "force_reset dropped something");
                    }
                    return;
                }
            }
            ordered(depth, 1, "C05");
            break;
        }
        let r = catch_unwind(AssertUnwindSafe(|| c.resume(f(1, i as u64))));
        match r {
            Ok(CoroutineResult::Yield(v)) if i < ch.suspensions => {
                if v != f(0, i as u64) {
                    vio!("C01 C03", "wrong-value", "suspension {i} came out with another value");
                }
            }
            Ok(CoroutineResult::Return(v)) if i == ch.suspensions && (ch.fate != Fate::Panic || ch.catcher > 0) => {
                if v != f(6, 1) {
                    vio!("C01 C03", "wrong-value", "the chain returned another value");
                }
                if ch.fate == Fate::Panic {
                    ordered(ch.catcher, 1, "C03 C04");
                } else {
                    ordered(depth, 1, "C03 C05");
                }
            }
            Err(p) if i == ch.suspensions && ch.fate == Fate::Panic && ch.catcher == 0 => {
                cnt(K::PanicCross);
                if p.downcast_ref::<u64>() != Some(&f(5, 5)) {
                    vio!("C04", "wrong-payload", "another panic came out of the chain");
                }
                ordered(depth, 1, "C04");
            }
            Ok(_) => vio!("C02 C03 C04", "wrong-result", "resume number {i} of the chain gave the wrong kind of result"),
            Err(_) => vio!("C04", "spurious-panic", "resume number {i} of the chain panicked"),
        }
    }
    if !c.done() {
        vio!("C02", "state", "an ended chain is not done");
    }
    live(0, "C04 C05", "after the chain ended");
    slabs(1, "C13", "after the chain ended");
    drop(c);
    slabs(0, "C13", "after the chain was dropped");
}

// ---- crowds -------------------------------------------------------------------

fn crowd() {
    let n = match choose(6) {
        0..=2 => range(2, 20),
        3 | 4 => range(20, 150),
        _ => range(150, SLABS as u32 - 4),
    };
    let steps = n * range(1, 6);
    let mut rng = choose(1 << 30) as u64;
    let mut rnd = move |m: u32| {
        rng = rng.wrapping_add(0x9E37_79B9_7F4A_7C15);
        (mix(rng) % m as u64) as u32
    };
    ev!("  long: {n} coroutines alive, {steps} random steps");
    note(93, n as u64, steps as u64);
    cnt_n(K::Create, n as u64);
    cnt_n(K::Resume, steps as u64);
    cnt_n(K::Suspend, steps as u64);
    l().log.clear();
    let make = |k: u32| {
        Co::with_stack(Slab::new(), move |y, x0| {
            let g = Obj::new(k);
            let local = black_box([f(k as u64, 1), f(k as u64, 2)]);
            let (mut x, mut i) = (x0, 0u64);
            loop {
                if x == u64::MAX {
                    return f(k as u64, 3);
                }
                if x == u64::MAX - 1 {
                    resume_unwind(Box::new(k));
                }
                if x != f(k as u64, 10 + i) || local != [f(k as u64, 1), f(k as u64, 2)] {
                    vio!("C03 C01", "disturbed", "coroutine {k} of the crowd was disturbed at round {i}");
                }
                g.check("C03");
                x = y.suspend(f(k as u64, 1_000_000 + i));
                i += 1;
            }
        })
    };
    // Each coroutine and how often it was resumed.
    let mut all: Vec<(u32, Co, u64)> = vec![];
    for k in 0..n {
        all.push((k, make(k), 0));
    }
    for s in 0..steps {
        if s % 256 == 0 {
            progress();
        }
        let i = rnd(n) as usize;
        let (k, c, m) = &mut all[i];
        match c.resume(f(*k as u64, 10 + *m)) {
            CoroutineResult::Yield(v) if v == f(*k as u64, 1_000_000 + *m) => *m += 1,
            _ => vio!("C03 C01 C02", "disturbed", "coroutine {k} of the crowd answered wrongly"),
        }
        if rnd(8) == 0 {
            let j = rnd(n) as usize;
            all.swap(i, j);
        }
    }
    let started: i64 = all.iter().filter(|a| a.2 > 0).count() as i64;
    live(started, "C03 C05", "with the crowd suspended");
    let mut left = started;
    while !all.is_empty() {
        if all.len() % 256 == 0 {
            progress();
        }
        let (k, mut c, m) = all.swap_remove(rnd(all.len() as u32) as usize);
        if c.done() || c.started() != (m > 0) {
            vio!("C02", "state", "coroutine {k} of the crowd reports a wrong state");
        }
        let held = all.len();
        let how = if UNWIND { rnd(4) } else if m == 0 { 2 + rnd(2) } else { 0 };
        match how {
            0 => match c.resume(u64::MAX) {
                CoroutineResult::Return(v) if v == f(k as u64, 3) => {}
                _ => vio!("C02 C01 C03", "wrong-result", "coroutine {k} of the crowd did not return as it should"),
            },
            1 => match catch_unwind(AssertUnwindSafe(|| c.resume(u64::MAX - 1))) {
                Err(p) if p.downcast_ref::<u32>() == Some(&k) => {}
                _ => vio!("C04", "wrong-payload", "coroutine {k} of the crowd did not panic as it should"),
            },
            2 => c.force_unwind(),
            _ => {
                drop(c);
                left -= (m > 0) as i64;
                live(left, "C05", "after one of the crowd was dropped");
                slabs(held, "C13 C05", "after one of the crowd was dropped");
                if m > 0 && l().log.pop() != Some(k) {
                    vio!("C05 C03", "wrong-object", "dropping coroutine {k} dropped another one's object");
                }
                continue;
            }
        }
        left -= (m > 0) as i64;
        live(left, "C05 C04", "after one of the crowd ended");
        if (m > 0 || how < 2) && l().log.pop() != Some(k) {
            vio!("C05 C04 C03", "wrong-object", "ending coroutine {k} dropped another one's object");
        }
        if !c.done() {
            vio!("C02", "state", "coroutine {k} of the crowd ended but is not done");
        }
        slabs(held + 1, "C13", "after one of the crowd ended");
    }
    live(0, "C05", "after the crowd");
    slabs(0, "C13", "after the crowd");
}

// ---- successions on one stack ---------------------------------------------------

fn succession() {
    let n = length().min(9000);
    let mut rng = choose(1 << 30) as u64;
    let kinds = choose(1 << 7) | 1;
    let mut rnd = move |m: u32| {
        rng = rng.wrapping_add(0x9E37_79B9_7F4A_7C15);
        (mix(rng) % m as u64) as u32
    };
    ev!("  long: {n} coroutines after one another on one stack (kinds {kinds:#b})");
    note(94, n as u64, kinds as u64);
    cnt_n(K::Create, n as u64);
    cnt_n(K::StackReuse, n as u64);
    cnt_n(K::IntoStack, n as u64);
    let mut s = Slab::new();
    let lo = s.lo();
    for k in 0..n {
        if k % 256 == 0 {
            progress();
            l().log.clear();
        }
        let mut kind = rnd(8);
        if kind == 7 || kinds >> kind & 1 == 0 || !UNWIND && matches!(kind, 1 | 2) {
            kind = 0;
        }
        if kind == 6 {
            cnt(K::OnStack);
            let r = on_stack(&mut s, || {
                let _g = Obj::new(k);
                f(k as u64, 20)
            });
            if r != f(k as u64, 20) {
                vio!("C07 C13", "wrong-value", "generation {k}: on_stack returned another value");
            }
            live(0, "C07", "after on_stack");
            continue;
        }
        let cap = Obj::new(k);
        let mut c = Co::with_stack(s, move |y, x| {
            let g = cap;
            let _h = Obj::new(k);
            let v = y.suspend(x ^ f(k as u64, 21));
            g.check("C03 C13");
            if kind == 1 {
                resume_unwind(Box::new(k));
            }
            v
        });
        live(1, "C16", "after creation");
        if kind < 4 {
            if c.resume(k as u64).as_yield() != Some(k as u64 ^ f(k as u64, 21)) {
                vio!("C13 C01", "wrong-value", "generation {k} yielded another value");
            }
            live(2, "C16 C05", "while suspended");
        }
        match kind {
            0 => {
                if c.resume(f(k as u64, 22)).as_return() != Some(f(k as u64, 22)) {
                    vio!("C13 C01", "wrong-value", "generation {k} returned another value");
                }
            }
            1 => match catch_unwind(AssertUnwindSafe(|| c.resume(0))) {
                Err(p) if p.downcast_ref::<u32>() == Some(&k) => {}
                _ => vio!("C04 C13", "wrong-payload", "generation {k} did not panic as it should"),
            },
            2 => c.force_unwind(),
            3 => unsafe {
                c.force_reset();
                live(2, "C02 C05", "after a reset");
                l().live = 0;
            },
            // Never started.
            4 => c.force_unwind(),
            _ => {
                unsafe { c.force_reset() };
                l().live = 0;
            }
        }
        live(0, "C05 C13", "after a generation ended");
        if !c.done() {
            vio!("C02 C13", "state", "generation {k} ended but is not done");
        }
        s = c.into_stack();
        if s.lo() != lo {
            vio!("C13", "stack-changed", "generation {k} handed back another stack");
        }
        slabs(1, "C13", "after into_stack");
    }
    drop(s);
    slabs(0, "C13", "at the end");
}

pub fn work(_: &Profile) {
    w().steps += 1;
    cnt(K::Steps);
    for _ in 0..range(1, 3) {
        reset();
        match choose(8) {
            0 => rounds::<u64>(),
            1 => rounds::<[u64; 5]>(),
            2 => rounds::<Box<Obj>>(),
            3 => rounds::<u8>(),
            4 | 5 => deep(),
            6 => crowd(),
            _ => succession(),
        }
        progress();
    }
}
