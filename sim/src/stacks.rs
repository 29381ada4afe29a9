//! Stacks handed to the library, with their ownership tracked by the model.
use crate::chooser::choose;
use crate::shm::{cnt, K};
use crate::simvm;
use crate::world::{self, st, w, StackInfo, StackUse};
use crate::{ev, vio};
#[cfg(feature = "default-stack")]
use corosensei::stack::DefaultStack;
use corosensei::stack::{Stack, StackPointer};

pub const SLOT: usize = 256 << 10;
const PAD: usize = 4096;
const NSLOTS: usize = 48;
const PAINT: u8 = 0xA7;

struct Pool {
    mem: usize,
    free: Vec<usize>,
}
static mut POOL: Pool = Pool { mem: 0, free: Vec::new() };
#[allow(static_mut_refs)]
fn pool() -> &'static mut Pool {
    unsafe { &mut POOL }
}

/// Slot layout: guard page, painted page, stack memory, painted page.
pub fn init() {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            NSLOTS * (SLOT + 3 * PAD),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        let mem = p as usize;
        for i in 0..NSLOTS {
            let a = mem + i * (SLOT + 3 * PAD);
            libc::mprotect(a as *mut _, PAD, libc::PROT_NONE);
            std::ptr::write_bytes((a + PAD) as *mut u8, PAINT, PAD);
            std::ptr::write_bytes((a + 2 * PAD + SLOT) as *mut u8, PAINT, PAD);
        }
        pool().mem = mem;
    }
    reset();
}
pub fn reset() {
    let p = pool();
    p.free = (0..NSLOTS).rev().collect();
}

/// A caller-provided stack in a pool slot.
pub struct Custom {
    slot: usize,
    pub base: usize,
    pub limit: usize,
}

impl Custom {
    pub fn new() -> Option<Custom> {
        let slot = pool().free.pop()?;
        let lo = pool().mem + slot * (SLOT + 3 * PAD) + 2 * PAD;
        // The base only has to be aligned to 16.
        let base = lo + SLOT - 16 * [0, 1, 2, 3, 5, 8, 100, 255][choose(8) as usize];
        unsafe { std::ptr::write_bytes(base as *mut u8, PAINT, lo + SLOT - base) };
        cnt(K::CustomStk);
        Some(Custom { slot, base, limit: lo })
    }
    pub fn check(&self) {
        unsafe {
            let below = std::slice::from_raw_parts((self.limit - PAD) as *const u8, PAD);
            let above = std::slice::from_raw_parts((self.limit + SLOT) as *const u8, PAD);
            if below.iter().chain(above).any(|&b| b != PAINT) {
                vio!("C13 C16 C07 C03", "outside-stack", "memory outside a caller-provided stack was written");
            }
        }
        let gap = self.limit + SLOT - self.base;
        let s = unsafe { std::slice::from_raw_parts(self.base as *const u8, gap) };
        if s.iter().any(|&b| b != PAINT) {
            vio!("C13 C16 C07 C03", "above-base", "memory above the base of a caller-provided stack was written");
        }
    }
}
impl Drop for Custom {
    fn drop(&mut self) {
        let _p = crate::trap::Pause::new();
        self.check();
        unsafe {
            // Whatever still uses this memory will notice.
            std::ptr::write_bytes((self.base - 8192) as *mut u8, 0xDB, 8192);
        }
        pool().free.push(self.slot);
    }
}
unsafe impl Stack for Custom {
    fn base(&self) -> StackPointer {
        StackPointer::new(self.base).unwrap()
    }
    fn limit(&self) -> StackPointer {
        StackPointer::new(self.limit).unwrap()
    }
}

pub enum Inner {
    #[cfg(feature = "default-stack")]
    Def(DefaultStack),
    Own(Custom),
    /// Borrowed from the idle stack with this index, through `&mut`.
    Ref(&'static mut AnyStack),
}

pub struct AnyStack {
    pub k: usize,
    pub inner: Inner,
}
impl Drop for AnyStack {
    fn drop(&mut self) {
        let _p = crate::trap::Pause::new();
        released(self.k);
    }
}
unsafe impl Stack for AnyStack {
    fn base(&self) -> StackPointer {
        match &self.inner {
            #[cfg(feature = "default-stack")]
            Inner::Def(d) => d.base(),
            Inner::Own(c) => c.base(),
            Inner::Ref(r) => <&'static mut AnyStack as Stack>::base(r),
        }
    }
    fn limit(&self) -> StackPointer {
        match &self.inner {
            #[cfg(feature = "default-stack")]
            Inner::Def(d) => d.limit(),
            Inner::Own(c) => c.limit(),
            Inner::Ref(r) => <&'static mut AnyStack as Stack>::limit(r),
        }
    }
}

/// The library (or the harness) lets go of stack `k` for good.
pub fn released(k: usize) {
    let w = w();
    let used = w.stacks[k].used;
    ev!("    stack {k} released ({used:?})");
    match used {
        StackUse::Idle => {}
        StackUse::Released => vio!("C13 C12", "double-release", "stack {k} was released twice"),
        StackUse::Lent | StackUse::Leaked => vio!("C13 C08", "leaked-release", "stack {k} must never be released, but was"),
        StackUse::Coro(c) => {
            let t = st(c);
            if crate::shm::shm().expect_abort.load(std::sync::atomic::Ordering::SeqCst) != 0 && t.forced == world::Forced::DropAbort {
                vio!("C06", "stack-freed", "the stack of coroutine {c} was released although its cleanup did not complete");
            }
            if t.st == world::St::Susp || !t.shadow.is_empty() {
                vio!("C13 C06 C05", "early-release", "the stack of coroutine {c} was released while {} objects live on it ({:?})", t.shadow.len(), t.st);
            }
            let cap = &w.vals[t.cap as usize];
            if cap.kind == crate::vals::Kind::Tracked && cap.st == world::ValSt::Live {
                vio!("C13 C05", "early-release", "the stack of coroutine {c} was released while its captured state is alive");
            }
        }
        StackUse::Call(s, i) => {
            if st(s).shadow.len() > i + 2 {
                vio!("C13 C07", "early-release", "the stack of an on_stack call was released while {} objects live on it", st(s).shadow.len() - i - 2);
            }
        }
    }
    w.stacks[k].used = StackUse::Released;
    if let Some((l, p)) = w.stacks[k].lender {
        // The borrow ends: the lender's stack is free again.
        let s = unsafe { *Box::from_raw(p) };
        w.stacks[l].used = StackUse::Idle;
        w.idle.push(s);
    }
}

pub fn register(base: usize, limit: usize, default: bool, mapping: Option<u32>, lender: Option<(usize, *mut AnyStack)>) -> usize {
    let w = w();
    let k = w.stacks.len();
    w.stacks.push(StackInfo { base, limit, used: StackUse::Idle, lender, default, mapping, generations: 0 });
    if let Some(m) = mapping {
        simvm::vm().maps[m as usize].stack = Some(k);
    }
    cnt(K::StackNew);
    k
}

#[cfg(feature = "default-stack")]
pub fn register_default(base: usize, limit: usize) -> usize {
    let m = simvm::vm().maps.iter().rev().find(|m| m.live && m.stack.is_none()).map(|m| (m.id, m.start, m.len));
    let Some((id, start, len)) = m else {
        vio!("C11 C12", "no-mapping", "a default stack exists without a mapping");
    };
    if base > start + len || base < start || limit != start || base != start + len {
        vio!("C11", "range", "default stack reports [{limit:#x}, {base:#x}) but owns [{start:#x}, {:#x})", start + len);
    }
    cnt(K::DefaultStk);
    register(base, limit, true, Some(id), None)
}

/// A stack of a kind of the simulation's choosing: new, reused or borrowed.
/// None if the pool or the simulated memory is used up.
pub fn pick() -> Option<AnyStack> {
    let w = w();
    let custom_only = cfg!(not(feature = "default-stack"));
    // 0: default, 1: custom, 2: reuse, 3: borrow
    let mut kind = choose(6).min(3);
    if kind >= 2 && w.idle.is_empty() {
        kind -= 2;
    }
    if kind >= 2 {
        let i = choose(w.idle.len() as u32) as usize;
        let s = w.idle.swap_remove(i);
        cnt(K::StackReuse);
        if kind == 3 && !matches!(s.inner, Inner::Ref(_)) {
            return Some(borrow(s));
        }
        return Some(s);
    }
    if kind == 1 || custom_only {
        return custom().or_else(|| default());
    }
    default().or_else(|| custom())
}

pub fn custom() -> Option<AnyStack> {
    let c = Custom::new()?;
    let k = register(c.base, c.limit, false, None, None);
    Some(AnyStack { k, inner: Inner::Own(c) })
}

pub fn borrow(s: AnyStack) -> AnyStack {
    cnt(K::RefStack);
    let w = w();
    let lk = s.k;
    let (b, l) = (s.base().get(), s.limit().get());
    w.stacks[lk].used = StackUse::Lent;
    let p = Box::into_raw(Box::new(s));
    let k = register(b, l, false, None, Some((lk, p)));
    AnyStack { k, inner: Inner::Ref(unsafe { &mut *p }) }
}

#[cfg(feature = "default-stack")]
pub fn default() -> Option<AnyStack> {
    let size = [192 << 10, 160 << 10, 200_001, 256 << 10, (160 << 10) + 1][choose(5) as usize];
    let r = simvm::with_sim(|| DefaultStack::new(size));
    match r {
        Ok(d) => {
            let k = register_default(d.base().get(), d.limit().get());
            Some(AnyStack { k, inner: Inner::Def(d) })
        }
        Err(_) if simvm::vm().fired.take().is_some() => None,
        Err(e) => vio!("C12 C11", "spurious-failure", "creating a default stack of {size} bytes failed with {e} although the system did not refuse anything"),
    }
}
#[cfg(not(feature = "default-stack"))]
pub fn default() -> Option<AnyStack> {
    None
}

pub fn probe_in_bounds(s: usize, addr: usize) -> bool {
    st(s).trap.as_ref().unwrap().in_bounds(addr)
}

/// Takes back a stack the library handed back.
pub fn idle(s: AnyStack) {
    let w = w();
    let k = s.k;
    if w.stacks[k].used == StackUse::Released {
        vio!("C13", "released-handed-back", "stack {k} was handed back after its release");
    }
    let i = &mut w.stacks[k];
    if s.base().get() != i.base || s.limit().get() != i.limit {
        vio!("C13 C11", "stack-changed", "stack {k} came back with different bounds");
    }
    i.used = StackUse::Idle;
    i.generations += 1;
    w.idle.push(s);
}

/// The base of the stack an address is on; 0 for a thread's own.
pub fn which(a: usize) -> usize {
    w().stacks.iter().find(|s| s.used != StackUse::Released && a >= s.limit && a < s.base).map_or(0, |s| s.base)
}
