//! C11, C12: default stacks of every size on every page size, under memory
//! pressure and failing system calls.
use crate::chooser::{chance, choose, range};
use crate::profiles::Profile;
use crate::shm::{cnt, cnt_n, K};
use crate::simvm::{self, readable, vm, writable, with_sim, REAL};
use crate::world::{expect_dropped, new_val, note, progress, w, StackInfo, StackUse};
use crate::vals::{Kind, Tr, Val};
use crate::{ev, vio};
use corosensei::stack::{DefaultStack, Stack, StackPointer, MIN_STACK_SIZE, STACK_ALIGNMENT};
use crate::vg;
use corosensei::{on_stack, Coroutine, CoroutineResult};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const T: &str = "C11 C12";

type Co = Coroutine<u64, u64, u64, DefaultStack>;

enum Hold {
    Idle(DefaultStack),
    /// A coroutine that suspends with f(x) for every x, its last x, and the
    /// value it captured.
    Co(Co, u64),
    None,
}
struct Ent {
    hold: Hold,
    req: usize,
    base: usize,
    limit: usize,
    tag: u64,
    started: bool,
}

fn sizes(pg: usize) -> usize {
    match choose(12) {
        0 => MIN_STACK_SIZE,
        1 => [0, 1, 15, 16, 4095, 4097, 8191, 8192, 8193][choose(9) as usize],
        2 => (pg * range(1, 20) as usize).wrapping_sub(1),
        3 => pg * range(1, 20) as usize,
        4 => pg * range(1, 20) as usize + 1,
        5 => pg * range(0, 16) as usize + choose(pg as u32) as usize,
        6 => 1 << range(0, 20),
        7 => 4096 * range(1, 64) as usize + choose(3) as usize - 1,
        8 => 200_000 + choose(100_000) as usize,
        9 => (1 << 20) + choose(3 * pg as u32) as usize,
        10 => match choose(8) {
            0 => simvm::ARENA / 4,
            1 => simvm::ARENA / 2 + 1,
            2 => simvm::ARENA,
            3 => isize::MAX as usize,
            4 => usize::MAX / 2 - pg,
            5 => (64 << 20) + choose(1 << 20) as usize,
            // Beyond 32 bits.
            6 => (1 << (usize::BITS / 2 + 2).min(34)) + choose(64 << 10) as usize,
            _ => (1usize << (usize::BITS / 2).min(32)) + choose(5) as usize - 2,
        },
        _ => usize::MAX - [0, 1, pg - 2, pg - 1, pg, pg + 1, 2 * pg - 3, 2 * pg - 2, 2 * pg - 1, 2 * pg, 2 * pg + 1, choose(4 * pg as u32) as usize][choose(12) as usize],
    }
}

/// What a coroutine on a stack under test does.
fn f(x: u64) -> u64 {
    x.wrapping_mul(3) ^ 0x55
}
const STOP: u64 = u64::MAX;

fn probe(at: usize, want: bool, what: &str, base: usize, limit: usize) {
    let (r, q) = (readable(at), writable(at));
    if want && (!r || !q) {
        vio!("C11", "inaccessible", "{what}: byte {:#x} below the base of a stack of {:#x} bytes is not usable (read {r}, write {q})", base - at, base - limit);
    }
    if !want && (r || q) {
        vio!("C11 C19", "no-guard", "{what}: the guard page is accessible {:#x} above the limit (read {r}, write {q})", at - limit);
    }
}

fn check_pages(e: &Ent, what: &str) {
    let pg = vm().page;
    let usable = e.req.max(MIN_STACK_SIZE);
    let bottom = e.base - usable;
    if e.base % STACK_ALIGNMENT != 0 || e.limit % STACK_ALIGNMENT != 0 {
        vio!("C11", "alignment", "{what}: base or limit is not aligned");
    }
    if e.limit >= e.base || bottom < e.limit + pg {
        vio!("C11", "too-small", "{what}: {usable:#x} bytes and a guard page of {pg:#x} do not fit between limit and base ({:#x} bytes)", e.base.wrapping_sub(e.limit));
    }
    // The whole guard page.
    for a in (e.limit..e.limit + pg).step_by(REAL) {
        probe(a, false, what, e.base, e.limit);
    }
    probe(e.limit + pg - 1, false, what, e.base, e.limit);
    // The ends of the usable memory and a sample of the rest.
    probe(e.base - 1, true, what, e.base, e.limit);
    probe(bottom, true, what, e.base, e.limit);
    let n = usable / REAL;
    if n <= 24 {
        for i in 0..n {
            probe(bottom + i * REAL, true, what, e.base, e.limit);
        }
    } else {
        for _ in 0..8 {
            probe(bottom + choose(n as u32) as usize * REAL, true, what, e.base, e.limit);
        }
    }
}

fn paint(e: &Ent) {
    unsafe {
        let lo = e.base - e.req.max(MIN_STACK_SIZE);
        std::ptr::write_bytes(lo as *mut u8, e.tag as u8 | 1, 64);
        std::ptr::write_bytes((e.base - 64) as *mut u8, e.tag as u8 | 1, 64);
    }
}
fn check_paint(e: &Ent) {
    if !matches!(e.hold, Hold::Idle(_)) {
        return;
    }
    let lo = e.base - e.req.max(MIN_STACK_SIZE);
    for a in [lo, e.base - 64] {
        if !readable(a) || !readable(a + 63) {
            vio!("C12 C11", "lost", "the memory of an existing stack is no longer accessible");
        }
        let s = unsafe { std::slice::from_raw_parts(a as *const u8, 64) };
        if s.iter().any(|&b| b != e.tag as u8 | 1) {
            vio!("C12 C11", "overwritten", "the memory of an existing stack changed");
        }
    }
}

/// Takes the only live mapping nobody owns and checks the reported range.
fn adopt(base: usize, limit: usize, what: &str) -> usize {
    let v = vm();
    let mut fresh = v.maps.iter().filter(|m| m.live && m.stack.is_none());
    let Some((id, start, len)) = fresh.next().map(|m| (m.id, m.start, m.len)) else {
        vio!("C11 C12", "no-mapping", "{what}: a default stack exists without memory of its own");
    };
    if fresh.next().is_some() {
        vio!("C12", "extra-mapping", "{what}: creating one stack left two mappings");
    }
    if limit != start || base != start + len {
        vio!("C11", "range", "{what}: the stack reports [{limit:#x}, {base:#x}) but owns [{start:#x}, {:#x})", start + len);
    }
    let k = w().stacks.len();
    w().stacks.push(StackInfo { base, limit, used: StackUse::Idle, lender: None, default: true, mapping: Some(id), generations: 0 });
    v.maps[id as usize].stack = Some(k);
    start
}

fn check_registered(ents: &[Ent], what: &str) {
    if vg::on() {
        let live: Vec<usize> = ents.iter().map(|e| e.limit).collect();
        vg::check(&live, what);
    }
}

fn check_none_left(n: usize, what: &str) {
    let live = vm().maps.iter().filter(|m| m.live).count();
    if live != n {
        vio!("C12 C11", "leak", "{what}: {live} mappings exist for {n} stacks");
    }
}

struct Bits<'a>(&'a mut Vec<Ent>);

impl Bits<'_> {
    fn arm(&self) -> bool {
        let v = vm();
        v.fired = None;
        let e = [libc::ENOMEM, libc::EAGAIN, libc::EPERM, libc::EINVAL, libc::ENFILE, libc::EACCES, 133][choose(7) as usize];
        match choose(6) {
            1 => v.fail_mmap = Some((0, e)),
            2 => v.fail_mprotect = Some((0, e)),
            3 => v.fail_mmap = Some((1, e)),
            4 => v.fail_mprotect = Some((1, e)),
            _ => return false,
        }
        true
    }
    fn disarm(&self) -> Option<i32> {
        let v = vm();
        v.fail_mmap = None;
        v.fail_mprotect = None;
        v.fired.take()
    }

    fn create(&mut self) {
        let pg = vm().page;
        let n = self.0.len();
        let kind = choose(8);
        let req = if kind < 6 { sizes(pg) } else { 0 };
        self.arm();
        note(50, kind as u64, req as u64);
        let cap = new_val(Kind::Tracked);
        let t = Tr::<12>::make(cap);
        let mut made = None;
        // Some(errno) if refused, or Some(0) after a panic.
        let mut bad: Option<i32> = None;
        match kind {
            0..=5 => {
                ev!("  create a stack of {req:#x} bytes (page size {pg:#x})");
                match catch_unwind(|| with_sim(|| DefaultStack::new(req))) {
                    Ok(Ok(d)) => made = Some(Hold::Idle(d)),
                    Ok(Err(e)) => bad = Some(e.raw_os_error().unwrap_or(-1)),
                    Err(_) => bad = Some(0),
                }
                drop(t);
            }
            6 => {
                ev!("  create the default stack");
                match catch_unwind(|| with_sim(|| DefaultStack::default())) {
                    Ok(d) => made = Some(Hold::Idle(d)),
                    Err(_) => bad = Some(0),
                }
                drop(t);
            }
            _ => {
                ev!("  create a coroutine on a default stack");
                match catch_unwind(AssertUnwindSafe(|| with_sim(|| Co::new(move |y, x| body(y, x, t))))) {
                    Ok(c) => made = Some(Hold::Co(c, cap)),
                    Err(_) => {
                        bad = Some(0);
                        expect_dropped(cap, "C12 C16", "after a coroutine could not be created");
                    }
                }
            }
        }
        let fired = self.disarm();
        if let Some(hold) = made {
            if let Some(e) = fired {
                vio!(T, "refusal-ignored", "creating a stack succeeded although the system refused a step with errno {e}");
            }
            cnt(K::StackNew);
            cnt(K::DefaultStk);
            if pg > REAL {
                cnt(K::PageBig);
            }
            let (base, limit) = match &hold {
                Hold::Idle(d) => (d.base().get(), d.limit().get()),
                Hold::Co(c, _) => {
                    let m = vm().maps.iter().find(|m| m.live && m.stack.is_none());
                    let Some(m) = m else { vio!(T, "no-mapping", "a coroutine exists without a stack of its own") };
                    let _ = c;
                    (m.start + m.len, m.start)
                }
                Hold::None => unreachable!(),
            };
            adopt(base, limit, "new stack");
            let e = Ent { hold, req, base, limit, tag: (n as u64) << 1, started: false };
            check_pages(&e, "new stack");
            if let Hold::Idle(_) = e.hold {
                paint(&e);
            }
            self.0.push(e);
        } else {
            let code = bad.unwrap();
            match fired {
                Some(e) => {
                    if kind < 6 && code != e {
                        vio!("C12", "wrong-error", "the system refused with errno {e}, but creating the stack {}", if code == 0 { "panicked".into() } else { format!("reported {code}") });
                    }
                }
                None => {
                    // Only a request that cannot be represented may fail by itself.
                    // (No object is larger than half the address space.)
                    if req <= isize::MAX as usize - 16 * pg {
                        vio!(T, "spurious-failure", "creating a stack of {req:#x} bytes failed ({code}) although the system refused nothing");
                    }
                    cnt(K::SizeOverflow);
                }
            }
            check_none_left(n, "after a failed creation");
        }
    }

    /// Many stacks after one another, each barely looked at.
    fn churn(&mut self) {
        let n = match choose(64) {
            0..=31 => range(1, 40),
            32..=58 => range(200, 700),
            59..=62 => range(2000, 5000),
            _ => range(65_500, 67_000),
        };
        let (pg, held) = (vm().page, self.0.len());
        let size = MIN_STACK_SIZE + choose(20 << 10) as usize;
        let len = (size + pg - 1) / pg * pg + pg;
        let fail = choose(4);
        let canaries = std::mem::replace(&mut vm().canaries, false);
        note(53, n as u64, fail as u64);
        ev!("  {n} stacks of {size:#x} bytes after one another");
        for k in 0..n {
            if k % 256 == 0 {
                progress();
            }
            // Every so often the system refuses.
            let refuse = fail > 0 && k % 64 == 63;
            if refuse && fail == 1 {
                vm().fail_mmap = Some((0, libc::EAGAIN));
            } else if refuse {
                vm().fail_mprotect = Some((0, libc::EPERM));
            }
            let r = with_sim(|| DefaultStack::new(size));
            let fired = self.disarm();
            match r {
                Ok(d) => {
                    if let Some(e) = fired {
                        vio!(T, "refusal-ignored", "creating stack {k} of many succeeded although the system refused a step with errno {e}");
                    }
                    let (b, l) = (d.base().get(), d.limit().get());
                    if !vm().maps.last().is_some_and(|m| m.live && m.start == l && m.start + m.len == b) || b - l < len {
                        vio!(T, "range", "stack {k} of many reports [{l:#x}, {b:#x}), which is not its mapping");
                    }
                    if k % 16 == 0 {
                        probe(b - 1, true, "one stack of many", b, l);
                        probe(b - size, true, "one stack of many", b, l);
                        probe(l, false, "one stack of many", b, l);
                    }
                    vm().may_unmap.push(l);
                    drop(d);
                    vm().may_unmap.clear();
                }
                Err(e) => match fired {
                    Some(f) if e.raw_os_error() == Some(f) => {}
                    Some(f) => vio!("C12", "wrong-error", "the system refused with errno {f}, but creating stack {k} of many reported {e}"),
                    None => vio!(T, "spurious-failure", "creating stack {k} of many failed ({e}) although the system refused nothing"),
                },
            }
            if vm().maps.last().is_some_and(|m| m.live && m.stack.is_none()) {
                vio!("C12", "leak", "stack {k} of many is gone, but not its memory");
            }
            while vm().maps.last().is_some_and(|m| !m.live && m.stack.is_none()) {
                vm().maps.pop();
            }
        }
        cnt_n(K::StackNew, n as u64);
        cnt_n(K::StackDrop, n as u64);
        check_none_left(held, "after many stacks");
        vm().canaries = canaries;
    }

    fn release(&mut self, i: usize) {
        let e = self.0.swap_remove(i);
        check_paint(&e);
        note(51, e.started as u64, 0);
        vm().may_unmap.push(e.limit);
        match e.hold {
            Hold::Idle(d) => {
                ev!("  drop an idle stack");
                match choose(3) {
                    1 if e.req >= if cfg!(debug_assertions) { 48 << 10 } else { 24 << 10 } => {
                        // Consumed by a call.
                        cnt(K::OnStack);
                        if on_stack(d, || f(77)) != f(77) {
                            vio!("C12 C07", "wrong-value", "a call on an existing stack returns a wrong value");
                        }
                    }
                    2 => drop(Box::new(d)),
                    _ => drop(d),
                }
            }
            Hold::Co(mut c, cap) => {
                if cfg!(not(feature = "unwind")) && e.started && !c.done() {
                    // Dropping it would abort.
                    let r = c.resume(STOP);
                    if r != CoroutineResult::Return(cap) {
                        vio!("C12", "wrong-value", "a coroutine on an existing stack no longer works");
                    }
                }
                ev!("  drop a coroutine");
                drop(c);
                expect_dropped(cap, "C12 C05", "after dropping a coroutine");
            }
            Hold::None => unreachable!(),
        }
        vm().may_unmap.clear();
        cnt(K::StackDrop);
        if vm().maps.iter().any(|m| m.live && m.start == e.limit && m.len == e.base - e.limit) {
            vio!("C12", "leak", "the memory of a dropped stack is still mapped");
        }
        check_none_left(self.0.len(), "after dropping a stack");
    }

    /// Puts a stack to use, or takes it back.
    fn change(&mut self, i: usize) {
        let e = &mut self.0[i];
        note(52, e.started as u64, 0);
        match std::mem::replace(&mut e.hold, Hold::None) {
            Hold::Idle(d) => {
                if e.req < if cfg!(debug_assertions) { 48 << 10 } else { 24 << 10 } {
                    e.hold = Hold::Idle(d);
                    return;
                }
                let cap = new_val(Kind::Tracked);
                let t = Tr::<12>::make(cap);
                ev!("  put a stack to use");
                e.hold = Hold::Co(Co::with_stack(d, move |y, x| body(y, x, t)), cap);
                e.started = false;
            }
            Hold::Co(mut c, cap) => {
                if !c.done() && choose(3) > 0 {
                    let x = choose(1000) as u64;
                    ev!("  resume a coroutine");
                    cnt(K::Resume);
                    if c.resume(x) != CoroutineResult::Yield(f(x)) {
                        vio!("C12", "wrong-value", "a coroutine on an existing stack no longer works");
                    }
                    e.started = true;
                    e.hold = Hold::Co(c, cap);
                    return;
                }
                if !c.done() {
                    if e.started || choose(2) == 0 {
                        if c.resume(STOP) != CoroutineResult::Return(cap) {
                            vio!("C12", "wrong-value", "a coroutine on an existing stack no longer works");
                        }
                    } else {
                        c.force_unwind();
                    }
                }
                expect_dropped(cap, "C12 C05", "after a coroutine ended");
                ev!("  take a stack back");
                let d = c.into_stack();
                if d.base().get() != e.base || d.limit().get() != e.limit {
                    vio!("C11 C13", "range-changed", "a stack's range changed while it was in use");
                }
                e.hold = Hold::Idle(d);
                e.started = false;
                paint(e);
            }
            Hold::None => unreachable!(),
        }
    }

    fn look(&self, i: usize) {
        let e = &self.0[i];
        check_paint(e);
        check_pages(e, "existing stack");
        if let Hold::Idle(d) = &e.hold {
            if d.base().get() != e.base || d.limit().get() != e.limit {
                vio!("C11", "range-changed", "the reported range of a stack changed");
            }
        }
        if let Some(m) = vm().maps.iter().find(|m| m.live && m.start == e.limit) {
            let m = m.clone();
            unsafe { simvm::check_canaries(&m, false) };
        } else {
            vio!("C12", "lost", "an existing stack's mapping is gone");
        }
        if let Hold::Co(c, _) = &e.hold {
            let (th, len) = (c.trap_handler(), e.base - e.limit);
            let mid = e.limit + (len as u64 * choose(1 << 16) as u64 >> 16) as usize;
            for (a, want) in [(e.limit, true), (mid, true), (e.base - 1, true), (e.base, false), (e.limit - 1, false), (e.base + len / 2, false), (e.limit - len / 2, false)] {
                if th.stack_ptr_in_bounds(a) != want {
                    vio!("C08 C19 C11", "bounds", "stack_ptr_in_bounds(limit + {:#x}) is {} for a stack of {len:#x} bytes", a.wrapping_sub(e.limit), !want);
                }
            }
        }
        // Moving a stack changes nothing.
        if let Hold::Idle(d) = &e.hold {
            let _: StackPointer = <DefaultStack as Stack>::base(d);
        }
    }
}

fn body(y: &corosensei::Yielder<u64, u64>, mut x: u64, t: Tr<12>) -> u64 {
    while x != STOP {
        x = y.suspend(f(x));
    }
    t_id(t)
}
fn t_id(t: Tr<12>) -> u64 {
    t.id()
}

pub fn work(_: &Profile) {
    let v = vm();
    v.place = choose(1000);
    v.canaries = true;
    v.strict = true;
    v.clobber = choose(2) == 1;
    if chance(1, 4) {
        v.limit = v.page * range(4, 80) as usize;
    }
    let mut ents: Vec<Ent> = vec![];
    let steps = [4, 10, 30, 80][choose(4) as usize];
    let mut b = Bits(&mut ents);
    // Once in a while a long history as well.
    let long = if chance(1, 12) { choose(steps) } else { u32::MAX };
    for step in 0..steps {
        w().steps += 1;
        cnt(K::Steps);
        if step == long {
            b.churn();
        }
        let n = b.0.len() as u32;
        match choose(10) {
            0 | 1 | 2 | 3 if n < 12 => b.create(),
            4 | 5 if n > 0 => b.release(choose(n) as usize),
            6 | 7 | 8 if n > 0 => b.change(choose(n) as usize),
            9 if n > 0 => b.look(choose(n) as usize),
            _ => {}
        }
        check_registered(b.0, "between operations");
    }
    while !b.0.is_empty() {
        let i = choose(b.0.len() as u32) as usize;
        b.release(i);
        check_registered(b.0, "while cleaning up");
    }
    check_none_left(0, "at the end");
}
