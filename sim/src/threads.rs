//! Real threads, of which exactly one runs at a time: the one holding the
//! baton. Who gets it next is always a decision of the simulation.
use crate::world::w;
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering::*};

pub const MAXT: usize = 4;
static BATON: AtomicU32 = AtomicU32::new(0);
static SLOT: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
static mut JOB: Option<fn(usize)> = None;
static mut BOUNDS: [(usize, usize); MAXT] = [(0, 0); MAXT];

type Syscall = unsafe extern "C" fn(libc::c_long, usize, usize, usize, usize, usize, usize) -> libc::c_long;
static REAL: AtomicUsize = AtomicUsize::new(0);
fn real_syscall() -> Syscall {
    unsafe {
        let mut p = REAL.load(Relaxed);
        if p == 0 {
            p = libc::dlsym(libc::RTLD_NEXT, c"syscall".as_ptr()) as usize;
            if p == 0 {
                libc::abort();
            }
            REAL.store(p, Relaxed);
        }
        std::mem::transmute(p)
    }
}

fn futex(a: &AtomicU32, op: i32, val: u32) {
    unsafe {
        real_syscall()(libc::SYS_futex, a as *const _ as usize, op as usize, val as usize, 0, 0, 0);
    }
}

/// Where the locks of `std` wait for each other. A thread that has to wait
/// while another one is stopped inside a library call hands on the baton: the
/// lock may be held there.
#[no_mangle]
unsafe extern "C" fn syscall(n: libc::c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> libc::c_long {
    let op = b as i32 & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
    if n == libc::SYS_futex
        && (op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET)
        && (*(a as *const AtomicU32)).load(SeqCst) == c as u32
        && crate::trap::lock_wait()
    {
        return 0;
    }
    real_syscall()(n, a, b, c, d, e, f)
}
#[no_mangle]
unsafe extern "C" fn sched_yield() -> libc::c_int {
    if !crate::trap::lock_wait() {
        real_syscall()(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    }
    0
}

fn wait(me: usize) {
    let s = &SLOT[me];
    for _ in 0..200 {
        if s.load(Acquire) == 1 {
            break;
        }
        std::hint::spin_loop();
    }
    while s.load(Acquire) == 0 {
        futex(s, libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG, 0);
    }
    s.store(0, Relaxed);
}

fn give(t: usize) {
    BATON.store(t as u32, Relaxed);
    SLOT[t].store(1, Release);
    futex(&SLOT[t], libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG, 1);
}

/// Hands the baton to `t` and waits to get it back.
pub fn pass(t: usize) {
    let me = w().cur_th;
    w().cur_th = t;
    give(t);
    wait(me);
    w().cur_th = me;
}

pub fn bounds(t: usize) -> (usize, usize) {
    unsafe { BOUNDS[t] }
}

fn my_bounds() -> (usize, usize) {
    unsafe {
        let mut a: libc::pthread_attr_t = std::mem::zeroed();
        libc::pthread_getattr_np(libc::pthread_self(), &mut a);
        let mut p = std::ptr::null_mut();
        let mut n = 0;
        libc::pthread_attr_getstack(&a, &mut p, &mut n);
        libc::pthread_attr_destroy(&mut a);
        (p as usize, p as usize + n)
    }
}

/// Starts the worker threads 1..MAXT; thread 0 is the caller.
pub fn start(job: fn(usize)) {
    unsafe {
        JOB = Some(job);
        BOUNDS[0] = my_bounds();
    }
    for t in 1..MAXT {
        std::thread::Builder::new()
            .stack_size(4 << 20)
            .spawn(move || {
                crate::trap::setup_altstack();
                unsafe { BOUNDS[t] = my_bounds() };
                give(0);
                loop {
                    wait(t);
                    (unsafe { JOB.unwrap() })(t);
                    // The job is over: hand back to thread 0.
                    w().cur_th = 0;
                    give(0);
                }
            })
            .unwrap();
        wait(0);
    }
}
