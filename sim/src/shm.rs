//! Memory shared between the supervisor and the forked child that runs the
//! simulations. Everything the supervisor needs after a crash lives here.
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};

pub const MAX_CHOICES: usize = 1 << 17;
pub const HSET: usize = 1 << 20;

#[repr(C)]
pub struct Shm {
    pub cur: AtomicU64,
    pub done: AtomicU64,
    pub progress: AtomicU64,
    pub expect_abort: AtomicU32,
    pub vio: AtomicU32,
    pub crash_sig: AtomicU32,
    pub crash_ip: AtomicU64,
    pub crash_addr: AtomicU64,
    pub n_choices: AtomicU32,
    /// Threads stopped in the middle of a library call.
    pub struck: AtomicU32,
    pub tags: [u8; 256],
    pub class: [u8; 128],
    pub msg: [u8; 1024],
    pub counters: [AtomicU64; 96],
    pub trace_hash: AtomicU64,
    pub distinct: AtomicU64,
    pub distinct_nt: AtomicU64,
    pub nontrivial: AtomicU64,
    pub choices: [u32; MAX_CHOICES],
    pub hset: [u64; HSET],
}

pub static mut SHM: *mut Shm = std::ptr::null_mut();

pub fn shm() -> &'static mut Shm {
    unsafe { &mut *SHM }
}

pub fn init() {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shm>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        SHM = p as *mut Shm;
    }
}

fn put(dst: &mut [u8], s: &str) {
    let n = s.len().min(dst.len() - 1);
    dst[..n].copy_from_slice(&s.as_bytes()[..n]);
    dst[n] = 0;
}

pub fn get(src: &[u8]) -> String {
    let n = src.iter().position(|&b| b == 0).unwrap_or(src.len());
    String::from_utf8_lossy(&src[..n]).into_owned()
}

pub const EXIT_VIOLATION: i32 = 77;
pub const EXIT_CRASH: i32 = 76;

/// Records a violation and ends the child at once: after a deviation nothing
/// about the process can be trusted any more.
#[cold]
#[inline(never)]
pub fn violate(tags: &str, class: &str, msg: &str) -> ! {
    let s = shm();
    put(&mut s.tags, tags);
    put(&mut s.class, class);
    put(&mut s.msg, msg);
    s.vio.store(1, SeqCst);
    if crate::chooser::verbose() {
        crate::chooser::log_line(&format!("VIOLATED [{tags}] {class}: {msg}"));
    }
    unsafe { libc::_exit(EXIT_VIOLATION) }
}

#[macro_export]
macro_rules! vio {
    ($tags:expr, $class:expr, $($a:tt)*) => {
        $crate::shm::violate($tags, $class, &format!($($a)*))
    };
}

#[repr(usize)]
#[derive(Clone, Copy, Debug, PartialEq)]
#[allow(dead_code)]
pub enum K {
    Steps, Create, Resume, Suspend, Return, Panic, PanicCross, Catch, Swallow, Rethrow, Replace,
    DropUnstarted, DropSuspended, DropDone, ForceUnstarted, ForceSuspended, ForceDone, ForceFail,
    OwnDrop, Bomb, Reset, IntoStack, IntoStackRefused, ResumeDone, Move, OnStack, OnParent, Regs,
    Trap, TrapPanic, TrapExec, Overflow, Backtrace, FpWalk, Migrate, ThreadSwitch, StackNew, StackDrop,
    StackReuse, MmapFail, MprotectFail, OomArena, SizeOverflow, CleanupSuspend, CleanupResume,
    AbortDrop, AbortPanic, StepSignals, StepWindows, AsyncTrap, ForcedOnStack, ForcedNested, Reparent,
    RefStack, DefaultStk, CustomStk, CapRefused, OveralignCap, ValBig, ValSmall, DepthMax, NoUnwindForce,
    Frames, CatchForced, TrapOnReparent, PanicOnStack, PanicOnParent, GuardProbe, CanaryCheck, PageBig,
    VgStacks, GapScribbles, RefusedResumeVal, ResetReuse, LibSwitch, UnwindSwitch, LiveCalls, LockWaits, Stuck, FpSwitch,
    N,
}

pub fn cnt(k: K) {
    shm().counters[k as usize].fetch_add(1, Relaxed);
}
pub fn cnt_n(k: K, n: u64) {
    shm().counters[k as usize].fetch_add(n, Relaxed);
}
pub fn cnt_get(k: K) -> u64 {
    shm().counters[k as usize].load(Relaxed)
}
pub fn cnt_name(i: usize) -> String {
    let k: K = unsafe { std::mem::transmute(i) };
    format!("{k:?}")
}

/// Records the hash of one finished run in the shared set of distinct runs.
pub fn note_run(h: u64, nontrivial: bool) {
    let s = shm();
    let h = h | 1;
    if nontrivial {
        s.nontrivial.fetch_add(1, Relaxed);
    }
    let mut i = (h.wrapping_mul(0x9E3779B97F4A7C15) >> 44) as usize % HSET;
    for _ in 0..64 {
        if s.hset[i] == h {
            return;
        }
        if s.hset[i] == 0 {
            s.hset[i] = h;
            s.distinct.fetch_add(1, Relaxed);
            if nontrivial {
                s.distinct_nt.fetch_add(1, Relaxed);
            }
            return;
        }
        i = (i + 1) % HSET;
    }
}
