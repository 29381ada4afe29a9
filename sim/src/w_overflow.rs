//! C19: stacks exhausted by frames smaller than a page, and recovery.
use crate::chooser::{chance, choose, range};
use crate::profiles::Profile;
use crate::shm::{cnt, cnt_n, K};
use crate::simvm::{self, vm, with_sim};
use crate::trap::{self, install_regs, sp};
use crate::vals::{Kind, Tr, Val};
use crate::world::{expect_dropped, new_val, note, w, StackInfo, StackUse};
use crate::{ev, vio};
use corosensei::stack::{DefaultStack, Stack, MIN_STACK_SIZE};
use corosensei::trap::CoroutineTrapHandler;
use corosensei::{Coroutine, CoroutineResult, Yielder};
use libc::{c_int, siginfo_t, ucontext_t};
use std::hint::black_box;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// One coroutine of the chain that may overflow.
struct Level {
    base: usize,
    limit: usize,
    usable: usize,
    th: CoroutineTrapHandler<u64>,
    answer: u64,
    cap: u64,
    panics: bool,
    hits: u32,
}
static mut LEVELS: Vec<Level> = Vec::new();
#[allow(static_mut_refs)]
fn levels() -> &'static mut Vec<Level> {
    unsafe { &mut LEVELS }
}

/// The embedder's SIGSEGV handler, on the alternate stack.
unsafe fn on_segv(sig: c_int, info: *mut siginfo_t, uc: *mut ucontext_t) -> bool {
    if sig != libc::SIGSEGV {
        return false;
    }
    let at = (*info).si_addr() as usize;
    let s = sp(uc);
    let Some(l) = levels().last_mut() else { return false };
    cnt(K::Overflow);
    l.hits += 1;
    if l.hits > 1 {
        vio!("C19 C08", "second-fault", "another fault at {at:#x} while recovering from a stack overflow (stack pointer {s:#x}, base {:#x}, limit {:#x})", l.base, l.limit);
    }
    if at < l.limit || at >= l.base {
        vio!("C19", "wild-fault", "exhausting the stack faulted at {at:#x}, outside [{:#x}, {:#x})", l.limit, l.base);
    }
    if at >= l.base - l.usable {
        vio!("C19 C11", "early-fault", "a fault {:#x} below the base of a stack with {:#x} usable bytes", l.base - at, l.usable);
    }
    if at >= l.limit + vm().page.max((l.base - l.limit) - l.usable) {
        vio!("C19", "not-guard", "the fault at {:#x} above the limit is not in the guard page", at - l.limit);
    }
    if !l.th.stack_ptr_in_bounds(at) {
        vio!("C19 C08", "fault-not-recognised", "the trap handler does not recognise the fault address {:#x} above the limit", at - l.limit);
    }
    if s >= l.limit && s < l.base && !l.th.stack_ptr_in_bounds(s) {
        vio!("C19 C08", "sp-not-recognised", "the trap handler does not recognise a stack pointer {:#x} above the limit", s - l.limit);
    }
    if l.th.stack_ptr_in_bounds(l.base) || l.th.stack_ptr_in_bounds(l.limit - 1) || !l.th.stack_ptr_in_bounds(l.limit) || !l.th.stack_ptr_in_bounds(l.base - 1) {
        vio!("C08 C19", "bounds", "the trap handler's bounds are not exactly limit to base");
    }
    let (answer, cap, panics) = (l.answer, l.cap, l.panics);
    if l.usable < TINY {
        // There is hardly room for more.
        let regs = l.th.setup_trap_handler(move || answer);
        install_regs(uc, &regs);
        return true;
    }
    let t = Tr::<20>::make(cap);
    let regs = l.th.setup_trap_handler(move || {
        if !t.check(cap) {
            vio!("C08 C19 C16", "handler-capture", "the recovery closure's state is damaged");
        }
        if panics {
            std::panic::resume_unwind(Box::new(answer));
        }
        drop(t);
        answer
    });
    install_regs(uc, &regs);
    true
}

#[derive(Clone, Copy)]
struct Plan {
    frame: u32,
    /// Suspend at each multiple of this depth (0: never), at most n times.
    every: u32,
    times: u32,
    /// Return from this depth instead of overflowing (0: overflow).
    back: u32,
    /// Alternate frame sizes.
    mixed: bool,
}

type Y = Yielder<u64, u64>;

macro_rules! frames {
    ($($name:ident $n:literal),*) => {
        $(
            #[inline(never)]
            fn $name(p: &Plan, y: &Y, d: u32, left: u32) -> u64 {
                let mut b = [0u8; $n];
                b[0] = d as u8;
                b[$n - 1] = !(d as u8);
                black_box(&mut b);
                let mut left = left;
                if p.every != 0 && d % p.every == 0 && left > 0 {
                    left -= 1;
                    let x = y.suspend(d as u64);
                    if x != d as u64 ^ 0xABC {
                        vio!("C19 C01 C03", "wrong-value", "a value was damaged while suspended {d} frames deep");
                    }
                }
                let r = if p.back != 0 && d >= p.back { 0 } else { go(p, y, d + 1, left) };
                black_box(&mut b);
                if b[0] != d as u8 || b[$n - 1] != !(d as u8) {
                    vio!("C19 C03 C11", "frame-damaged", "a frame {d} calls deep was overwritten");
                }
                r + 1
            }
        )*
        const FRAMES: &[(fn(&Plan, &Y, u32, u32) -> u64, usize)] = &[$(($name, $n)),*];
    };
}
frames!(r16 16, r64 64, r200 200, r500 500, r1000 1000, r2000 2000, r3000 3000);

#[inline(never)]
fn go(p: &Plan, y: &Y, d: u32, left: u32) -> u64 {
    let i = if p.mixed { (p.frame as usize + d as usize * 5) % FRAMES.len() } else { p.frame as usize };
    (FRAMES[i].0)(p, y, d, left)
}

/// The stacks below this size just overflow.
const TINY: usize = if cfg!(debug_assertions) { 32 << 10 } else { 16 << 10 };

fn new_stack() -> Option<DefaultStack> {
    let pg = vm().page;
    let small = TINY;
    let size = match choose(5) {
        4 => MIN_STACK_SIZE * range(1, TINY as u32 / MIN_STACK_SIZE as u32 - 1) as usize - choose(2) as usize,
        0 => 64 << 10,
        1 => small + choose(64 << 10) as usize,
        2 => pg * (small / pg + range(1, 8) as usize) + choose(3) as usize - 1,
        _ => (256 << 10) + choose(100_000) as usize,
    };
    let d = with_sim(|| DefaultStack::new(size)).ok()?;
    cnt(K::DefaultStk);
    let m = vm().maps.iter().find(|m| m.live && m.stack.is_none()).map(|m| (m.id, m.start, m.len));
    let Some((id, start, len)) = m else { vio!("C11 C12", "no-mapping", "a default stack without memory") };
    if d.limit().get() != start || d.base().get() != start + len {
        vio!("C11", "range", "the stack reports a range that is not its own");
    }
    let k = w().stacks.len();
    w().stacks.push(StackInfo { base: start + len, limit: start, used: StackUse::Idle, lender: None, default: true, mapping: Some(id), generations: size as u32 });
    vm().maps[id as usize].stack = Some(k);
    Some(d)
}
fn requested(d: &DefaultStack) -> usize {
    let b = d.base().get();
    (w().stacks.iter().rev().find(|s| s.base == b).unwrap().generations as usize).max(MIN_STACK_SIZE)
}

fn canaries(base: usize, limit: usize) {
    let m = vm().maps.iter().find(|m| m.live && m.start == limit && m.start + m.len == base).cloned();
    match m {
        Some(m) => unsafe { simvm::check_canaries(&m, false) },
        None => vio!("C12 C19", "lost", "the mapping of a stack in use is gone"),
    }
}

/// Runs one coroutine on `stack` to its end, possibly by overflow, inside
/// `depth` more coroutines on stacks of their own.
fn generation(stack: DefaultStack, spare: &mut Vec<DefaultStack>, depth: u32) -> DefaultStack {
    let (base, limit, usable) = (stack.base().get(), stack.limit().get(), requested(&stack));
    let tiny = usable < TINY;
    let overflow = choose(4) != 1 || tiny;
    let frame = choose(FRAMES.len() as u32);
    let per = FRAMES[frame as usize].1 + if cfg!(debug_assertions) { 900 } else { 300 };
    let room = usable.saturating_sub(8 << 10) / per;
    let plan = Plan {
        frame,
        every: if choose(2) == 1 { range(1, 30) } else { 0 },
        times: range(1, 20),
        back: if overflow { 0 } else { 1 + choose(room.max(1) as u32) },
        mixed: overflow && chance(1, 3),
    };
    let nest = if depth > 0 && !tiny { spare.pop() } else { None };
    let before = choose(2) == 1;
    let mut inner_spare = vec![];
    let answer = 0xA000_0000 + choose(1000) as u64;
    let panics = cfg!(feature = "unwind") && usable > if cfg!(debug_assertions) { 128 << 10 } else { 60 << 10 } && chance(1, 4);
    let mut nested_back: Option<DefaultStack> = None;
    let nb: *mut Option<DefaultStack> = &mut nested_back;
    ev!("  coroutine on a stack of {usable:#x} bytes, frames of {} bytes{}, suspending every {} calls, {}", FRAMES[frame as usize].1, if plan.mixed { " and others" } else { "" }, plan.every, if overflow { "until it overflows" } else { "and back" });
    note(60, frame as u64 | (plan.every as u64) << 8 | (overflow as u64) << 20 | (depth as u64) << 24, usable as u64);
    let is = &mut inner_spare as *mut Vec<DefaultStack>;
    let mut co = Coroutine::<u64, u64, u64, DefaultStack>::with_stack(stack, move |y, _| {
        if let Some(s) = nest {
            // A coroutine of its own overflows inside this one first.
            if before {
                unsafe { *nb = Some(generation(s, &mut *is, depth - 1)) };
            } else {
                unsafe { *nb = Some(s) };
            }
        }
        go(&plan, y, 1, plan.times)
    });
    let cap = new_val(Kind::Tracked);
    levels().push(Level { base, limit, usable, th: co.trap_handler(), answer, cap, panics, hits: 0 });
    cnt(K::Create);
    let mut x = 0;
    let mut suspensions = 0;
    loop {
        cnt(K::Resume);
        w().steps += 1;
        match catch_unwind(AssertUnwindSafe(|| co.resume(x))) {
            Ok(CoroutineResult::Yield(d)) => {
                suspensions += 1;
                if plan.every == 0 || d % plan.every as u64 != 0 || d != suspensions * plan.every as u64 {
                    vio!("C19 C01", "wrong-value", "a suspension yields {d}");
                }
                cnt(K::Suspend);
                x = d ^ 0xABC;
                canaries(base, limit);
                // Something else may overflow meanwhile.
                if choose(16) == 1 {
                    if let Some(s) = spare.pop() {
                        let l = std::mem::take(levels());
                        let s = generation(s, &mut vec![], 0);
                        *levels() = l;
                        spare.push(s);
                    }
                }
            }
            Ok(CoroutineResult::Return(v)) => {
                if overflow {
                    if levels().last().unwrap().hits != 1 || v != answer || panics {
                        vio!("C19 C08", "not-recovered", "a coroutine that overflowed its stack returned {v:#x}, not {answer:#x}");
                    }
                } else if v != plan.back as u64 {
                    vio!("C19 C03", "wrong-value", "a recursion {} calls deep returned {v}", plan.back);
                }
                break;
            }
            Err(p) => {
                if !overflow || !panics || p.downcast_ref::<u64>() != Some(&answer) {
                    vio!("C19 C04", "unexpected-panic", "a coroutine ended by an unexpected panic");
                }
                cnt(K::TrapPanic);
                break;
            }
        }
    }
    if overflow {
        cnt_n(K::Frames, 1);
    }
    if overflow && !tiny {
        expect_dropped(cap, "C19 C08", "after recovery");
    }
    levels().pop();
    if !co.done() {
        vio!("C19 C02 C08", "not-done", "a coroutine that returned after a stack overflow is not completed");
    }
    canaries(base, limit);
    let d = co.into_stack();
    if d.base().get() != base || d.limit().get() != limit {
        vio!("C13 C11 C19", "range-changed", "a stack's range changed");
    }
    if let Some(s) = nested_back.take() {
        spare.push(s);
    }
    cnt(K::StackReuse);
    d
}

pub fn work(_: &Profile) {
    let v = vm();
    v.place = choose(1000);
    v.canaries = true;
    v.strict = true;
    levels().clear();
    unsafe { trap::HOOK = Some(on_segv) };
    let mut all = vec![];
    for _ in 0..range(1, 4) {
        if let Some(s) = new_stack() {
            all.push(s);
        }
    }
    for _ in 0..[1, 3, 8][choose(3) as usize] {
        if all.is_empty() {
            break;
        }
        cnt(K::Steps);
        let i = choose(all.len() as u32) as usize;
        let s = all.swap_remove(i);
        let d = choose(3);
        let s = generation(s, &mut all, d);
        all.push(s);
    }
    for s in all {
        let a = s.limit().get();
        v.may_unmap.push(a);
        drop(s);
        v.may_unmap.clear();
    }
    if v.maps.iter().any(|m| m.live) {
        vio!("C12", "leak", "a stack's memory is still mapped after its end");
    }
    unsafe { trap::HOOK = None };
}
