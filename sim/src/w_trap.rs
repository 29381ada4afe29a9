//! C08: a trap strikes a coroutine at an arbitrary instruction while its
//! stack pointer is in bounds, and it is made to return from there.
use crate::chooser::{choose, range};
use crate::profiles::Profile;
use crate::shm::{cnt, K};
use crate::trap::{self, clear_tf, install_regs, sp};
use crate::vals::{Kind, Tr, Val};
use crate::world::{expect_dropped, new_val, note, w};
use crate::{ev, vio};
use corosensei::stack::{Stack, StackPointer};
use corosensei::trap::CoroutineTrapHandler;
use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
use libc::{c_int, siginfo_t, ucontext_t};
use std::hint::black_box;
use std::panic::{catch_unwind, AssertUnwindSafe};

const SIZE: usize = 128 << 10;
const PAD: usize = 4096;
const N: usize = 4;
const PAINT: u8 = 0x6B;

static mut MEM: usize = 0;

/// A caller-provided stack that outlives whoever loses track of it.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Raw {
    i: usize,
    base: usize,
    limit: usize,
}
unsafe impl Stack for Raw {
    fn base(&self) -> StackPointer {
        StackPointer::new(self.base).unwrap()
    }
    fn limit(&self) -> StackPointer {
        StackPointer::new(self.limit).unwrap()
    }
}
fn raw(i: usize) -> Raw {
    unsafe {
        if MEM == 0 {
            let p = libc::mmap(std::ptr::null_mut(), N * (SIZE + 2 * PAD), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
            assert!(p != libc::MAP_FAILED);
            MEM = p as usize;
            for i in 0..N {
                let a = MEM + i * (SIZE + 2 * PAD);
                std::ptr::write_bytes(a as *mut u8, PAINT, PAD);
                std::ptr::write_bytes((a + PAD + SIZE) as *mut u8, PAINT, PAD);
            }
        }
        let lo = MEM + i * (SIZE + 2 * PAD) + PAD;
        Raw { i, base: lo + SIZE, limit: lo }
    }
}
fn check_raw(r: Raw) {
    unsafe {
        for a in [r.limit - PAD, r.base] {
            let s = std::slice::from_raw_parts(a as *const u8, PAD);
            if s.iter().any(|&b| b != PAINT) {
                vio!("C08 C13", "outside-stack", "memory outside the trapped coroutine's stack was written");
            }
        }
    }
}

struct Target {
    th: Option<CoroutineTrapHandler<u64>>,
    base: usize,
    limit: usize,
    seen: u64,
    at: u64,
    hit: bool,
    answer: u64,
    cap: u64,
    kind: u32,
    ran: u32,
    was_in: bool,
    /// Instructions (counted in bounds) right after and before a switch.
    edges: Vec<u64>,
}
static mut TG: Target = Target { th: None, base: 0, limit: 0, seen: 0, at: 0, hit: false, answer: 0, cap: 0, kind: 0, ran: 0, was_in: false, edges: Vec::new() };
#[allow(static_mut_refs)]
fn tg() -> &'static mut Target {
    unsafe { &mut TG }
}

fn handler(g: &Target) -> corosensei::trap::TrapHandlerRegs {
    let th = g.th.unwrap();
    let (answer, cap) = (g.answer, g.cap);
    let run = move |t_ok: bool, here: usize| {
        let g = tg();
        g.ran += 1;
        if !t_ok {
            vio!("C08 C16", "handler-capture", "the trap handler's captured state is damaged or misaligned");
        }
        if here < g.limit || here >= g.base {
            vio!("C08", "handler-stack", "the trap handler does not run on the coroutine's stack");
        }
        if g.base - here > 16 << 10 {
            vio!("C08", "handler-not-fresh", "the trap handler starts {:#x} below the base", g.base - here);
        }
    };
    unsafe {
        match g.kind {
            0 => {
                let t = Tr::<20>::make(cap);
                th.setup_trap_handler(move || {
                    let here = 0u8;
                    run(t.check(cap), black_box(&here) as *const u8 as usize);
                    drop(t);
                    answer
                })
            }
            1 => {
                let t = crate::vals::A64::<56>::make(cap);
                th.setup_trap_handler(move || {
                    let here = 0u8;
                    run(t.check(cap), black_box(&here) as *const u8 as usize);
                    drop(t);
                    answer
                })
            }
            5 => {
                let t = crate::vals::A64::<952>::make(cap);
                th.setup_trap_handler(move || {
                    let here = 0u8;
                    run(t.check(cap), black_box(&here) as *const u8 as usize);
                    drop(t);
                    answer
                })
            }
            2 => {
                let t = Tr::<900>::make(cap);
                th.setup_trap_handler(move || {
                    let here = 0u8;
                    run(t.check(cap), black_box(&here) as *const u8 as usize);
                    drop(t);
                    answer
                })
            }
            3 => {
                let t = Tr::<20>::make(cap);
                th.setup_trap_handler(move || {
                    let here = 0u8;
                    run(t.check(cap), black_box(&here) as *const u8 as usize);
                    let _t = t;
                    std::panic::resume_unwind(Box::new(answer))
                })
            }
            _ => {
                // Needs its stack aligned like any function.
                let t = Tr::<3>::make(cap);
                th.setup_trap_handler(move || {
                    let here = 0u8;
                    run(t.check(cap), black_box(&here) as *const u8 as usize);
                    let a = crate::vals::A32::<20>::make(cap);
                    let ok = a.check(cap);
                    std::mem::forget(a);
                    if !ok {
                        vio!("C08", "handler-alignment", "the trap handler's stack is misaligned");
                    }
                    drop(t);
                    answer
                })
            }
        }
    }
}

unsafe fn on_trap(sig: c_int, info: *mut siginfo_t, uc: *mut ucontext_t) -> bool {
    let g = tg();
    if sig != libc::SIGTRAP {
        return false;
    }
    let _ = info;
    let Some(th) = g.th else {
        return true;
    };
    let s = sp(uc);
    let inb = th.stack_ptr_in_bounds(s);
    if inb != (s >= g.limit && s < g.base) {
        vio!("C08", "bounds", "the bounds test gives {inb} for a stack pointer {:#x} from the limit of a stack of {:#x} bytes", s.wrapping_sub(g.limit), g.base - g.limit);
    }
    if inb != g.was_in && g.edges.len() < g.edges.capacity() {
        g.edges.push(g.seen + inb as u64);
    }
    g.was_in = inb;
    if inb {
        g.seen += 1;
        if g.seen == g.at {
            g.hit = true;
            clear_tf(uc);
            let regs = handler(g);
            install_regs(uc, &regs);
        }
    }
    true
}

type Y = Yielder<u64, u64>;

#[derive(Clone, Copy)]
struct Body {
    kind: u32,
    n: u32,
    s2: Raw,
    s3: Raw,
}

#[inline(never)]
fn spin(x: u64, n: u32) -> u64 {
    let mut a = [x; 8];
    for i in 0..n as usize {
        a[i % 8] = a[(i + 3) % 8].wrapping_mul(31).wrapping_add(i as u64);
        black_box(&mut a);
    }
    a.iter().fold(0, |s, v| s.wrapping_add(*v))
}

fn fin(b: Body, x: u64) -> u64 {
    spin(x, b.n) ^ 0x77
}

/// Nothing here may allocate or lock: a trap can strike anywhere.
fn body(b: Body, y: &Y, mut x: u64) -> u64 {
    match b.kind {
        0 => {
            for _ in 0..b.n {
                x = y.suspend(spin(x, 3));
            }
        }
        1 => {
            for _ in 0..b.n {
                let v = on_stack(b.s2, || spin(x, 4));
                x = y.suspend(v);
            }
        }
        2 => {
            for _ in 0..b.n {
                let v = y.on_parent_stack(|| spin(x, 4));
                x = y.suspend(v);
            }
        }
        3 => {
            // Runs a coroutine of its own.
            let mut c = Coroutine::<u64, u64, u64, Raw>::with_stack(b.s2, move |y2, mut z| {
                for _ in 0..b.n {
                    z = y2.suspend(spin(z, 2));
                }
                z
            });
            loop {
                match c.resume(x) {
                    CoroutineResult::Yield(v) => x = y.suspend(v),
                    CoroutineResult::Return(v) => {
                        x = v;
                        break;
                    }
                }
            }
        }
        4 => {
            // Its own coroutine calls back onto this one's stack.
            let mut c = Coroutine::<u64, u64, u64, Raw>::with_stack(b.s2, move |y2, mut z| {
                for _ in 0..b.n {
                    let v = y2.on_parent_stack(|| spin(z, 3));
                    z = y2.suspend(v);
                }
                z
            });
            while let CoroutineResult::Yield(v) = c.resume(x) {
                x = y.suspend(v);
            }
        }
        5 => {
            // A coroutine on a second stack suspends this one from on_stack.
            let v = on_stack(b.s2, || {
                let mut c = Coroutine::<u64, u64, u64, Raw>::with_stack(b.s3, move |y2, z| y2.suspend(spin(z, 2)) + 1);
                let CoroutineResult::Yield(a) = c.resume(x) else { return 0 };
                let CoroutineResult::Return(r) = c.resume(a) else { return 0 };
                r
            });
            x = y.suspend(v);
        }
        _ => {
            x = y.on_parent_stack(|| on_stack(b.s2, || spin(x, 3)));
            x = y.suspend(x);
        }
    }
    fin(b, x)
}

/// Calls `f` with the stack pointer lower by `depth` frames.
#[inline(never)]
fn deep(depth: u32, f: &mut dyn FnMut() -> CoroutineResult<u64, u64>) -> CoroutineResult<u64, u64> {
    if depth == 0 {
        return f();
    }
    let mut b = [depth; 24];
    black_box(&mut b);
    let r = deep(depth - 1, f);
    black_box(&mut b);
    if b.iter().any(|&x| x != depth) {
        vio!("C08 C03", "caller-damaged", "a frame of the code that resumed the trapped coroutine was overwritten");
    }
    r
}

#[derive(PartialEq, Debug)]
enum End {
    Ret(u64),
    Panic(u64),
}

/// Runs the body with steps being counted; `at`: where the trap strikes.
fn drive(b: Body, s1: Raw, at: u64, start_at: u32, depths: u32) -> (End, u32, Coroutine<u64, u64, u64, Raw>) {
    let g = tg();
    let cap = new_val(Kind::Tracked);
    let bt = Tr::<12>::make(cap);
    let mut c = Coroutine::<u64, u64, u64, Raw>::with_stack(s1, move |y, x| {
        let t = bt;
        let r = body(b, y, x);
        // Plain data from here on: the value's drop is not trap safe.
        std::mem::forget(t);
        r
    });
    g.base = s1.base;
    g.limit = s1.limit;
    g.seen = 0;
    g.was_in = false;
    g.edges.clear();
    g.edges.reserve(256);
    g.at = at;
    g.hit = false;
    g.ran = 0;
    let mut x = 5u64;
    let mut n = 0u32;
    let end = loop {
        let r = catch_unwind(AssertUnwindSafe(|| {
            deep((depths >> (n % 16 * 2)) & 3, &mut || {
                if n >= start_at && !g.hit {
                    g.th = Some(c.trap_handler());
                    trap::set_tf();
                }
                let r = c.resume(x);
                trap::unset_tf();
                g.th = None;
                r
            })
        }));
        trap::unset_tf();
        g.th = None;
        n += 1;
        w().steps += 1;
        match r {
            Ok(CoroutineResult::Yield(v)) => {
                if g.hit {
                    vio!("C08", "yield-after-trap", "a coroutine made to return by its trap handler yields {v}");
                }
                x = v.wrapping_add(n as u64);
            }
            Ok(CoroutineResult::Return(v)) => break End::Ret(v),
            Err(p) => match p.downcast_ref::<u64>() {
                Some(v) => break End::Panic(*v),
                None => vio!("C08 C04", "unexpected-panic", "a coroutine ended by a panic of another kind"),
            },
        }
    };
    (end, n, c)
}

/// The bounds test on stacks from one page to most of the address space.
fn far_bounds(s1: Raw) {
    // Only the memory near the base is ever used.
    let bits = range(13, s1.base.ilog2());
    let size = ((1usize << bits) + choose(1 << (bits - 1).min(30)) as usize).min(s1.base - 16) & !15;
    let s = Raw { limit: s1.base - size, ..s1 };
    let (b, l) = (s.base, s.limit);
    let c = Coroutine::<u64, u64, u64, Raw>::with_stack(s, |_, x| x);
    let th = c.trap_handler();
    note(71, bits as u64, 0);
    ev!("  the bounds of a stack of {size:#x} bytes");
    let mut at = vec![l, l + 1, b - 1, b - 16, l - 1, l - 16, b, b + 1, b + 16, 0, usize::MAX, l + size / 2];
    for _ in 0..24 {
        let d = choose(1 << 30) as usize;
        let k = 1usize << choose(usize::BITS);
        at.push(match choose(5) {
            0 => b.wrapping_sub(k),
            1 => b.wrapping_add(k),
            2 => l.wrapping_sub(k),
            3 => l.wrapping_add(k),
            _ => d.wrapping_mul(d).wrapping_mul(0x9E3779B1),
        });
    }
    for a in at {
        let want = a >= l && a < b;
        if th.stack_ptr_in_bounds(a) != want {
            vio!("C08", "bounds", "the bounds test of {a:#x} is {} for a stack at [{l:#x}, {b:#x})", !want);
        }
    }
}

pub fn work(_: &Profile) {
    let (s1, s2, s3) = (raw(0), raw(1), raw(2));
    far_bounds(s1);
    unsafe { trap::HOOK = Some(on_trap) };
    trap::trap_on_stack(true);
    let b = Body { kind: choose(7), n: range(1, 4), s2, s3 };
    let start = choose(3);
    ev!("  body {} of {} rounds, traps from resume {start} on", b.kind, b.n);
    // Once undisturbed, counting the instructions in bounds.
    let depths = choose(1 << 30);
    let (want, _, c) = drive(b, s1, u64::MAX, start, depths);
    drop(c);
    let total = tg().seen;
    let edges = tg().edges.clone();
    let mut done = vec![];
    for round in 0..range(1, 6) {
        let at = if total == 0 {
            u64::MAX
        } else if choose(3) == 1 && !edges.is_empty() {
            // Near a switch to or from the coroutine's stack.
            let e = edges[choose(edges.len() as u32) as usize];
            (e + choose(16) as u64).saturating_sub(8).clamp(1, total)
        } else {
            1 + choose(total as u32) as u64
        };
        let g = tg();
        g.answer = 0x5000 + choose(4096) as u64;
        g.cap = new_val(Kind::Tracked);
        g.kind = choose(6);
        if g.kind == 3 && cfg!(not(feature = "unwind")) {
            g.kind = 0;
        }
        let (answer, cap, kind) = (g.answer, g.cap, g.kind);
        note(70, b.kind as u64 | (kind as u64) << 8, at);
        ev!("  round {round}: trap at instruction {at} of {total}, handler {kind}");
        let (end, _, c) = drive(b, s1, at, start, depths);
        if !tg().hit {
            // The code before the trap may differ a little from the first run.
            if end != want {
                vio!("C08 C03", "wrong-value", "a coroutine that was not trapped ends with {end:?}, not {want:?}");
            }
        } else {
            cnt(K::AsyncTrap);
            cnt(K::Trap);
            let expect = if kind == 3 { End::Panic(answer) } else { End::Ret(answer) };
            if end != expect {
                vio!("C08", "wrong-result", "after a trap at instruction {at}, resume gives {end:?}, not {expect:?}");
            }
            if tg().ran != 1 {
                vio!("C08", "handler-runs", "the trap handler ran {} times", tg().ran);
            }
            expect_dropped(cap, "C08", "after the trap handler returned");
        }
        if !c.done() {
            vio!("C08 C02", "not-done", "a coroutine that returned is not completed");
        }
        let s = c.into_stack();
        if s != s1 {
            vio!("C08 C13", "stack-changed", "a different stack was handed back");
        }
        for r in [s1, s2, s3] {
            check_raw(r);
        }
        done.push(at);
        // The stack works as before.
        tg().cap = 0;
        let (end, _, c) = drive(b, s1, u64::MAX, u32::MAX, choose(1 << 30));
        if end != want {
            vio!("C08 C13", "not-reusable", "a coroutine on the recovered stack ends with {end:?}, not {want:?}");
        }
        drop(c);
    }
    unsafe { trap::HOOK = None };
    trap::trap_on_stack(false);
}
