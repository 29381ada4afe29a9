//! Signals: traps turned into handler calls, crashes recorded, and windows in
//! which a signal strikes at every single instruction.
use crate::shm::{cnt, shm, EXIT_CRASH, K};
use crate::world::*;
use crate::ev;
use libc::{c_int, c_void, siginfo_t, ucontext_t};
use std::sync::atomic::{AtomicI64, AtomicUsize, Ordering::*};

pub const EXIT_ABORTED: i32 = 75;
static TRAP: AtomicUsize = AtomicUsize::new(usize::MAX);
static LEFT: AtomicI64 = AtomicI64::new(0);
/// Called by the SIGSEGV/SIGTRAP handlers first; true if it dealt with it.
pub type Hook = unsafe fn(sig: c_int, info: *mut siginfo_t, uc: *mut ucontext_t) -> bool;
pub static mut HOOK: Option<Hook> = None;

const ALT: usize = 256 << 10;

pub fn setup_altstack() {
    unsafe {
        let m = libc::mmap(
            std::ptr::null_mut(),
            ALT,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(m != libc::MAP_FAILED);
        let ss = libc::stack_t { ss_sp: m, ss_flags: 0, ss_size: ALT };
        assert!(libc::sigaltstack(&ss, std::ptr::null_mut()) == 0);
    }
}

pub fn install() {
    setup_altstack();
    unsafe {
        for sig in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGABRT] {
            let mut a: libc::sigaction = std::mem::zeroed();
            a.sa_sigaction = on_fault as *const () as usize;
            a.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | libc::SA_NODEFER;
            libc::sigaction(sig, &a, std::ptr::null_mut());
        }
        trap_on_stack(false);
    }
}

/// SIGTRAP runs on the interrupted stack, or on the alternate one.
pub fn trap_on_stack(alt: bool) {
    unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = on_step as *const () as usize;
        a.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER | if alt { libc::SA_ONSTACK } else { 0 };
        libc::sigaction(libc::SIGTRAP, &a, std::ptr::null_mut());
    }
}

#[cfg(target_arch = "x86_64")]
mod reg {
    pub const IP: usize = libc::REG_RIP as usize;
    pub const SP: usize = libc::REG_RSP as usize;
    pub const FL: usize = libc::REG_EFL as usize;
}
#[cfg(target_arch = "x86")]
mod reg {
    pub const IP: usize = libc::REG_EIP as usize;
    pub const SP: usize = libc::REG_ESP as usize;
    pub const FL: usize = libc::REG_EFL as usize;
}

pub unsafe fn ip(uc: *mut ucontext_t) -> usize {
    (*uc).uc_mcontext.gregs[reg::IP] as usize
}
pub unsafe fn set_ip(uc: *mut ucontext_t, to: usize) {
    (*uc).uc_mcontext.gregs[reg::IP] = to as _;
}
pub unsafe fn sp(uc: *mut ucontext_t) -> usize {
    (*uc).uc_mcontext.gregs[reg::SP] as usize
}

pub unsafe fn install_regs(uc: *mut ucontext_t, r: &corosensei::trap::TrapHandlerRegs) {
    let g = &mut (*uc).uc_mcontext.gregs;
    #[cfg(target_arch = "x86_64")]
    {
        g[libc::REG_RIP as usize] = r.rip as i64;
        g[libc::REG_RSP as usize] = r.rsp as i64;
        g[libc::REG_RBP as usize] = r.rbp as i64;
        g[libc::REG_RDI as usize] = r.rdi as i64;
        g[libc::REG_RSI as usize] = r.rsi as i64;
    }
    #[cfg(target_arch = "x86")]
    {
        g[libc::REG_EIP as usize] = r.eip as i32;
        g[libc::REG_ESP as usize] = r.esp as i32;
        g[libc::REG_EBP as usize] = r.ebp as i32;
        g[libc::REG_ECX as usize] = r.ecx as i32;
        g[libc::REG_EDX as usize] = r.edx as i32;
    }
}

pub unsafe fn clear_tf(uc: *mut ucontext_t) {
    (*uc).uc_mcontext.gregs[reg::FL] &= !0x100;
}

unsafe extern "C" fn on_fault(sig: c_int, info: *mut siginfo_t, ctx: *mut c_void) {
    let uc = ctx as *mut ucontext_t;
    let s = TRAP.swap(usize::MAX, SeqCst);
    if sig == libc::SIGILL && s != usize::MAX {
        let at = sp(uc);
        if !crate::stacks::probe_in_bounds(s, at) {
            crate::vio!("C08", "bounds", "the stack pointer of a trapped coroutine is not in its trap handler's bounds");
        }
        discard_strand(s);
        let regs = st(s).trap.as_ref().unwrap().setup(s);
        ev!("    trap handler installed for {s}");
        install_regs(uc, &regs);
        return;
    }
    if let Some(h) = HOOK {
        if h(sig, info, uc) {
            return;
        }
    }
    let m = shm();
    if m.expect_abort.load(SeqCst) != 0 && (sig == libc::SIGABRT || sig == libc::SIGILL) {
        libc::_exit(EXIT_ABORTED);
    }
    m.crash_sig.store(sig as u32, SeqCst);
    m.crash_ip.store(ip(uc).wrapping_sub(&raw const __executable_start as usize) as u64, SeqCst);
    m.crash_addr.store((*info).si_addr() as u64, SeqCst);
    libc::_exit(EXIT_CRASH);
}

/// Stops the coroutine here for good; its trap handler takes over.
#[inline(never)]
pub fn raise(s: Sid) -> ! {
    TRAP.store(s, SeqCst);
    unsafe { std::arch::asm!("ud2", options(noreturn)) }
}

/// From here on, a signal handler strikes on the current stack after each of
/// the next `n` instructions, whatever they belong to.
#[inline(never)]
pub fn step_window(n: u32) {
    cnt(K::StepWindows);
    LEFT.store(n as i64, SeqCst);
    set_tf();
}

#[inline(never)]
pub fn set_tf() {
    unsafe {
        #[cfg(target_arch = "x86_64")]
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        #[cfg(target_arch = "x86")]
        std::arch::asm!("pushfd", "or dword ptr [esp], 0x100", "popfd");
    }
}
#[inline(never)]
pub fn unset_tf() {
    unsafe {
        #[cfg(target_arch = "x86_64")]
        std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
        #[cfg(target_arch = "x86")]
        std::arch::asm!("pushfd", "and dword ptr [esp], -257", "popfd");
    }
}

pub fn step_off() {
    LEFT.store(0, SeqCst);
    unset_tf();
}

/// The kernel aligns what it saves, so that a few bytes right below the
/// interrupted stack pointer may stay as they were: damage those as well (a
/// handler's frame ends anywhere).
unsafe fn scribble_gap(uc: *mut ucontext_t) {
    let g = &(*uc).uc_mcontext.gregs;
    #[cfg(target_arch = "x86_64")]
    let (top, fp, sw) = (g[libc::REG_RSP as usize] as usize - 128, (*uc).uc_mcontext.fpregs as usize, 464);
    #[cfg(target_arch = "x86")]
    let (top, fp, sw) = (g[libc::REG_ESP as usize] as usize, (*uc).uc_mcontext.fpregs as usize, 112 + 464);
    if fp == 0 || fp >= top {
        return;
    }
    let words = (fp + sw) as *const u32;
    if *words != 0x46505853 {
        return;
    }
    let end = fp + *words.add(1) as usize;
    if end < top && top - end < 512 {
        std::ptr::write_bytes(end as *mut u8, 0x5A, top - end);
        cnt(K::GapScribbles);
    }
}

// ---- strikes inside library calls ------------------------------------------

// The unwinder's own entry points lead through here, so that its thousands of
// instructions need not be followed one by one: single-stepping is off inside
// of it and on again once it has decided where to go.
static mut REAL: [usize; 3] = [0; 3];
#[cfg(target_arch = "x86_64")]
std::arch::global_asm!(
    ".globl _Unwind_RaiseException", "_Unwind_RaiseException:", "push rdi", "mov edi, 0", "call {h}", "pop rdi", "jmp rax",
    ".globl _Unwind_Resume", "_Unwind_Resume:", "push rdi", "mov edi, 1", "call {h}", "pop rdi", "jmp rax",
    ".globl _Unwind_SetIP", "_Unwind_SetIP:", "push rdi", "push rsi", "sub rsp, 8", "mov edi, 2", "call {h}", "add rsp, 8", "pop rsi", "pop rdi", "jmp rax",
    h = sym unwinder,
);
#[cfg(target_arch = "x86")]
std::arch::global_asm!(
    ".globl _Unwind_RaiseException", "_Unwind_RaiseException:", "sub esp, 8", "push 0", "call {h}", "add esp, 12", "jmp eax",
    ".globl _Unwind_Resume", "_Unwind_Resume:", "sub esp, 8", "push 1", "call {h}", "add esp, 12", "jmp eax",
    ".globl _Unwind_SetIP", "_Unwind_SetIP:", "sub esp, 8", "push 2", "call {h}", "add esp, 12", "jmp eax",
    h = sym unwinder,
);
extern "C" fn unwinder(which: usize) -> usize {
    unsafe {
        if REAL[which] == 0 {
            let n = [c"_Unwind_RaiseException", c"_Unwind_Resume", c"_Unwind_SetIP"][which];
            REAL[which] = libc::dlsym(libc::RTLD_NEXT, n.as_ptr()) as usize;
            if REAL[which] == 0 {
                libc::abort();
            }
        }
        if ON && (INSIDE[w().cur_th] || INWIN[w().cur_th]) {
            let t = w().cur_th;
            if which == 2 {
                set_tf();
            } else {
                unset_tf();
                AWAY[t] = 1;
            }
        }
        REAL[which]
    }
}
/// Strikes may happen in this run.
static mut ON: bool = false;
pub fn resolve_unwinder() {
    for i in 0..3 {
        unwinder(i);
    }
}

/// When a thread is to lose the baton, in instructions of this program.
#[derive(Clone, Copy, PartialEq)]
pub enum Strike {
    None,
    /// After so many of its next library call.
    Call(u32),
    /// After so many of its library calls taken together.
    Calls(u32),
    /// During unwinding: `n` instructions after this program's code is entered
    /// from the unwinder for the `entries`th time.
    Unwind { entries: u32, n: u32 },
}
static mut STRIKE: [Strike; crate::threads::MAXT] = [Strike::None; crate::threads::MAXT];
static mut FIRST: [Strike; crate::threads::MAXT] = [Strike::None; crate::threads::MAXT];
static mut AWAY: [u32; crate::threads::MAXT] = [0; crate::threads::MAXT];
static mut OP: [u8; crate::threads::MAXT] = [0; crate::threads::MAXT];
static mut WANT: [u8; crate::threads::MAXT] = [0; crate::threads::MAXT];
/// Stopped by a strike.
static mut STRUCK: [bool; crate::threads::MAXT] = [false; crate::threads::MAXT];
static mut WAITS: u32 = 0;
/// A signal strikes at each of so many more instructions of library calls.
static mut WINDOW: [u32; crate::threads::MAXT] = [0; crate::threads::MAXT];
/// In library code, signals striking.
static mut INWIN: [bool; crate::threads::MAXT] = [false; crate::threads::MAXT];
/// In library code whose instructions count.
static mut INSIDE: [bool; crate::threads::MAXT] = [false; crate::threads::MAXT];
extern "C" {
    static __executable_start: u8;
    static etext: u8;
}

pub fn arm_strike(k: Strike) {
    unsafe {
        ON = true;
        let t = w().cur_th;
        STRIKE[t] = k;
        FIRST[t] = k;
    }
}
pub fn arm_window(n: u32) {
    cnt(K::StepWindows);
    unsafe {
        ON = true;
        WINDOW[w().cur_th] = n;
    }
}
pub fn reset_strikes() {
    shm().struck.store(0, SeqCst);
    unsafe {
        STRUCK = [false; crate::threads::MAXT];
        WAITS = 0;
        STRIKE = [Strike::None; crate::threads::MAXT];
        INSIDE = [false; crate::threads::MAXT];
        INWIN = [false; crate::threads::MAXT];
        WINDOW = [0; crate::threads::MAXT];
        ON = false;
        OP = [0; crate::threads::MAXT];
        WANT = [0; crate::threads::MAXT];
    }
}
/// The operation (plus one) this thread should prefer next, if any: after
/// another thread was stopped in the middle of one, the same one.
pub fn wanted() -> u8 {
    unsafe { std::mem::take(&mut WANT[w().cur_th]) }
}
pub fn doing(op: u8) {
    unsafe { OP[w().cur_th] = op }
}
pub fn want(op: u8) {
    unsafe { WANT[w().cur_th] = op }
}

/// Control is about to enter the library.
#[inline(always)]
pub fn lib_enter() {
    unsafe {
        if ON {
            enter();
        }
    }
}
#[inline(never)]
unsafe fn enter() {
    let t = w().cur_th;
    if matches!(STRIKE[t], Strike::Call(_) | Strike::Calls(_)) && !w().ending && w().steps < w().max_steps {
        INSIDE[t] = true;
        set_tf();
    } else if WINDOW[t] > 0 {
        INWIN[t] = true;
        set_tf();
    }
}
/// Control is about to go on unwinding.
#[inline(always)]
pub fn lib_unwinds() {
    unsafe {
        if ON {
            unwinds();
        }
    }
}
#[inline(never)]
unsafe fn unwinds() {
    let t = w().cur_th;
    if matches!(STRIKE[t], Strike::Unwind { .. }) && !w().ending && w().steps < w().max_steps {
        INSIDE[t] = true;
        AWAY[t] = 0;
        if let Strike::Unwind { n, .. } = FIRST[t] {
            STRIKE[t] = Strike::Unwind { entries: if let Strike::Unwind { entries, .. } = FIRST[t] { entries } else { 1 }, n };
        }
        set_tf();
    } else if WINDOW[t] > 0 {
        INWIN[t] = true;
        set_tf();
    }
}
/// Control is back in code of the simulation.
#[inline(always)]
pub fn lib_leave() {
    unsafe {
        if ON {
            leave();
        }
    }
}
#[inline(never)]
unsafe fn leave() {
    let t = w().cur_th;
    if INWIN[t] {
        INWIN[t] = false;
        unset_tf();
    }
    if INSIDE[t] {
        INSIDE[t] = false;
        if matches!(STRIKE[t], Strike::Call(_)) {
            STRIKE[t] = Strike::None;
        }
        unset_tf();
    }
}
/// `catch_unwind` of the simulation: what it returns to is not library code.
#[inline(always)]
pub fn caught<R>(f: impl FnOnce() -> R + std::panic::UnwindSafe) -> std::thread::Result<R> {
    let r = std::panic::catch_unwind(f);
    lib_leave();
    r
}
/// For code of the simulation that the library calls and that returns to it.
pub struct Pause(bool, bool);
impl Pause {
    #[inline(always)]
    pub fn new() -> Pause {
        unsafe {
            if !ON {
                return Pause(false, false);
            }
            let t = w().cur_th;
            let p = Pause(INSIDE[t], INWIN[t]);
            if p.0 || p.1 {
                INSIDE[t] = false;
                INWIN[t] = false;
                unset_tf();
            }
            p
        }
    }
}
impl Drop for Pause {
    #[inline(always)]
    fn drop(&mut self) {
        if !self.0 && !self.1 {
            return;
        }
        unsafe {
            let t = w().cur_th;
            if self.0 && STRIKE[t] != Strike::None && !w().ending && w().steps < w().max_steps {
                INSIDE[t] = true;
                set_tf();
            } else if self.1 && WINDOW[t] > 0 {
                INWIN[t] = true;
                set_tf();
            }
        }
    }
}

pub fn any_struck() -> bool {
    unsafe { STRUCK.iter().any(|s| *s) }
}
/// The current thread cannot go on before another one has: lets it, if that is
/// because of a strike.
pub unsafe fn lock_wait() -> bool {
    if !ON || WAITS > 10_000 {
        return false;
    }
    let t = w().cur_th;
    if !STRUCK.iter().any(|s| *s) {
        return false;
    }
    WAITS += 1;
    cnt(K::LockWaits);
    let stepping = INSIDE[t];
    INWIN[t] = false;
    if stepping {
        unset_tf();
        INSIDE[t] = false;
    }
    let c: Vec<usize> = (0..w().th.len()).filter(|&i| STRUCK[i]).collect();
    let to = c[crate::chooser::choose(c.len() as u32) as usize];
    ev!("    thread {t} waits for a lock, baton to thread {to}");
    let c = cur();
    let was = std::mem::replace(&mut st(c).busy, true);
    crate::threads::pass(to);
    st(c).busy = was;
    ev!("    baton back at the lock thread {t} waits for");
    if stepping && STRIKE[t] != Strike::None {
        INSIDE[t] = true;
        set_tf();
    }
    true
}

unsafe fn strike_step(uc: *mut ucontext_t) {
    let t = w().cur_th;
    let at = ip(uc);
    // Nowhere else: the C library's locks must not be held meanwhile.
    if at < &raw const __executable_start as usize || at >= &raw const etext as usize {
        AWAY[t] += 1;
        // The unwinder takes long; do not follow it for nothing.
        if AWAY[t] > 2000 {
            INSIDE[t] = false;
            STRIKE[t] = Strike::None;
            clear_tf(uc);
        }
        return;
    }
    if w().ending || w().steps >= w().max_steps {
        INSIDE[t] = false;
        STRIKE[t] = Strike::None;
        clear_tf(uc);
        return;
    }
    let back = std::mem::replace(&mut AWAY[t], 0) > 0;
    let hit = match &mut STRIKE[t] {
        Strike::None => false,
        Strike::Call(n) | Strike::Calls(n) => {
            *n -= 1;
            *n == 0
        }
        Strike::Unwind { entries, n } => {
            if back && *entries > 0 {
                *entries -= 1;
            }
            if *entries == 0 {
                *n -= 1;
            }
            *n == 0
        }
    };
    if hit {
        let first = FIRST[t];
        INSIDE[t] = false;
        STRIKE[t] = Strike::None;
        clear_tf(uc);
        cnt(K::LibSwitch);
        if let Strike::Unwind { .. } = first {
            cnt(K::UnwindSwitch);
        }
        let n = w().th.len() as u32;
        let to = ((t as u32 + 1 + crate::chooser::choose(n - 1)) % n) as usize;
        ev!("    thread {t} is stopped inside a library call, baton to thread {to}");
        // Races need two: let the other thread do the same.
        if crate::chooser::choose(2) == 1 {
            WANT[to] = OP[t];
            if STRIKE[to] == Strike::None && crate::chooser::choose(2) == 1 && !INSIDE[to] {
                STRIKE[to] = first;
                FIRST[to] = first;
            }
        }
        let c = cur();
        let was = std::mem::replace(&mut st(c).busy, true);
        STRUCK[t] = true;
        shm().struck.fetch_add(1, SeqCst);
        crate::threads::pass(to);
        STRUCK[t] = false;
        shm().struck.fetch_sub(1, SeqCst);
        st(c).busy = was;
        ev!("    baton back inside the library call of thread {t}");
    }
}

unsafe extern "C" fn on_step(sig: c_int, info: *mut siginfo_t, ctx: *mut c_void) {
    let uc = ctx as *mut ucontext_t;
    let m = shm();
    m.counters[K::StepSignals as usize].fetch_add(1, Relaxed);
    if let Some(h) = HOOK {
        if h(sig, info, uc) {
            return;
        }
    }
    let t = w().cur_th;
    if INSIDE[t] {
        strike_step(uc);
        return;
    }
    // What a signal handler does: use the stack below the interrupted frame.
    let mut junk = [0u8; 512];
    for (i, b) in junk.iter_mut().enumerate() {
        *b = !(i as u8);
    }
    std::hint::black_box(&mut junk);
    scribble_gap(uc);
    if INWIN[t] {
        WINDOW[t] -= 1;
        if WINDOW[t] == 0 {
            INWIN[t] = false;
            clear_tf(uc);
        }
        return;
    }
    if LEFT.fetch_sub(1, Relaxed) <= 1 {
        LEFT.store(0, Relaxed);
        clear_tf(uc);
    }
}
