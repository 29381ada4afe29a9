//! The simulated memory manager: `mmap`, `mprotect`, `munmap`, `sysconf` and
//! `getpagesize` are defined here and so replace the C library's for the
//! whole program. Calls a default stack makes are served from an arena under
//! the simulation's control: placement, page size and failures are its
//! choices, and every page's owner is known. All other calls go to the kernel.
use crate::shm::{cnt, K};
use crate::world;
use crate::{ev, vio};
use libc::{c_int, c_long, c_void, off_t, size_t};

#[cfg(target_pointer_width = "64")]
pub const ARENA: usize = 48 << 30;
#[cfg(target_pointer_width = "32")]
pub const ARENA: usize = 192 << 20;
pub const REAL: usize = 4096;

#[derive(Clone, Debug)]
pub struct Mapping {
    pub id: u32,
    pub start: usize,
    pub len: usize,
    pub live: bool,
    /// Owner in the model, if it is interested in the release.
    pub stack: Option<usize>,
}

pub struct Vm {
    pub lo: usize,
    pub hi: usize,
    pub page: usize,
    pub on: bool,
    /// Fail the n-th call from now with this errno.
    pub fail_mmap: Option<(u32, i32)>,
    pub fail_mprotect: Option<(u32, i32)>,
    pub fired: Option<i32>,
    pub maps: Vec<Mapping>,
    /// Bytes mapped by live mappings.
    pub live: usize,
    pub limit: usize,
    pub clobber: bool,
    /// Canary pages right outside each mapping.
    pub canaries: bool,
    pub calls: u32,
    pub place: u32,
    pub sysconf_calls: u32,
    /// Only these mappings (by start) may be released now.
    pub strict: bool,
    pub may_unmap: Vec<usize>,
}

static mut VM: Vm = Vm {
    lo: 0,
    hi: 0,
    page: REAL,
    on: false,
    fail_mmap: None,
    fail_mprotect: None,
    fired: None,
    maps: Vec::new(),
    live: 0,
    limit: usize::MAX,
    clobber: false,
    canaries: false,
    calls: 0,
    place: 0,
    sysconf_calls: 0,
    strict: false,
    may_unmap: Vec::new(),
};
impl Vm {
    /// A mapping no stack is known to own yet.
    fn creating(&self, i: usize) -> bool {
        self.maps[i].stack.is_none()
    }
}
#[allow(static_mut_refs)]
pub fn vm() -> &'static mut Vm {
    unsafe { &mut VM }
}

#[cfg(target_arch = "x86_64")]
const SYS_MMAP: c_long = libc::SYS_mmap;
#[cfg(target_arch = "x86")]
const SYS_MMAP: c_long = libc::SYS_mmap2;

unsafe fn real_mmap(a: *mut c_void, l: size_t, p: c_int, f: c_int, fd: c_int, off: i64) -> *mut c_void {
    #[cfg(target_arch = "x86_64")]
    let o = off;
    #[cfg(target_arch = "x86")]
    let o = (off >> 12) as c_long;
    libc::syscall(SYS_MMAP, a, l, p, f, fd, o) as *mut c_void
}
pub unsafe fn real_mprotect(a: usize, l: usize, p: c_int) -> c_int {
    libc::syscall(libc::SYS_mprotect, a, l, p) as c_int
}

pub fn init() {
    unsafe {
        let p = real_mmap(
            std::ptr::null_mut(),
            ARENA + (1 << 20),
            libc::PROT_NONE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED, "no address space for the arena");
        let v = vm();
        v.lo = (p as usize + 0xfffff) & !0xfffff;
        v.hi = v.lo + ARENA;
    }
}

pub fn reset(page: usize) {
    let v = vm();
    if v.maps.iter().any(|m| m.live) {
        // Only after force_reset and leaks: give the pages back.
        unsafe { wipe(v.lo, v.hi - v.lo) };
    }
    v.page = page;
    v.on = false;
    v.fail_mmap = None;
    v.fail_mprotect = None;
    v.fired = None;
    v.maps.clear();
    v.live = 0;
    v.limit = usize::MAX;
    v.clobber = false;
    v.canaries = false;
    v.place = 0;
    v.calls = 0;
    v.strict = false;
    v.may_unmap.clear();
}

/// Drops the contents of the pages and makes them inaccessible.
unsafe fn wipe(a: usize, l: usize) {
    let p = real_mmap(
        a as *mut c_void,
        l,
        libc::PROT_NONE,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED,
        -1,
        0,
    );
    assert!(p as usize == a);
}

fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}

pub const CANARY: u8 = 0xC5;

/// Finds room for `len` bytes plus a page on both sides.
fn place(v: &mut Vm, len: usize) -> Option<usize> {
    let pg = v.page;
    let mut used: Vec<(usize, usize)> =
        v.maps.iter().filter(|m| m.live).map(|m| (m.start, m.start + m.len)).collect();
    used.sort();
    let mut gaps = vec![];
    let mut at = v.lo;
    for (s, e) in used.into_iter().chain(std::iter::once((v.hi, v.hi))) {
        // Each mapping has a page of its own on either side.
        let a = (at + pg - 1) / pg * pg + 2 * pg;
        let top = s / pg * pg - 2 * pg;
        if top > a && top - a >= len {
            gaps.push((a, top - len));
        }
        at = e;
    }
    if gaps.is_empty() {
        return None;
    }
    // 0: lowest; 1: highest; else a seeded place.
    let k = v.place;
    v.place = v.place.wrapping_mul(2654435761).wrapping_add(12345) & 0x7fffffff;
    let g = gaps[(k as usize / 7) % gaps.len()];
    let a = match k % 4 {
        0 => g.0,
        1 => g.1,
        _ => g.0 + ((g.1 - g.0) / pg).min(64) * (k as usize % 97) / 97 * pg,
    };
    Some(a / pg * pg)
}

unsafe fn sim_mmap(l: usize, prot: c_int) -> *mut c_void {
    let _p = crate::trap::Pause::new();
    let v = vm();
    v.calls += 1;
    if let Some((n, e)) = &mut v.fail_mmap {
        if *n == 0 {
            let e = *e;
            v.fail_mmap = None;
            v.fired = Some(e);
            cnt(K::MmapFail);
            ev!("    [vm] mmap({l:#x}) fails with errno {e}");
            set_errno(e);
            return libc::MAP_FAILED;
        }
        *n -= 1;
    }
    if l == 0 {
        set_errno(libc::EINVAL);
        return libc::MAP_FAILED;
    }
    let len = match l.checked_add(v.page - 1) {
        Some(x) => x & !(v.page - 1),
        None => {
            set_errno(libc::ENOMEM);
            v.fired = Some(libc::ENOMEM);
            return libc::MAP_FAILED;
        }
    };
    let at = if len > ARENA || v.live + len > v.limit { None } else { place(v, len) };
    let Some(at) = at else {
        cnt(K::OomArena);
        v.fired = Some(libc::ENOMEM);
        ev!("    [vm] mmap({l:#x}): out of memory");
        set_errno(libc::ENOMEM);
        return libc::MAP_FAILED;
    };
    if prot != libc::PROT_NONE {
        real_mprotect(at, len, prot);
    }
    if v.canaries {
        for c in [at - v.page, at + len] {
            // Neighbouring pages belong to "someone else".
            real_mprotect(c, REAL, libc::PROT_READ | libc::PROT_WRITE);
            std::ptr::write_bytes(c as *mut u8, CANARY, REAL);
            let c2 = c + v.page - REAL;
            if c2 != c {
                real_mprotect(c2, REAL, libc::PROT_READ | libc::PROT_WRITE);
                std::ptr::write_bytes(c2 as *mut u8, CANARY, REAL);
            }
        }
    }
    let id = v.maps.len() as u32;
    ev!("    [vm] mmap({l:#x}) = mapping {id} at arena+{:#x}", at - v.lo);
    v.maps.push(Mapping { id, start: at, len, live: true, stack: None });
    v.live += len;
    at as *mut c_void
}

/// Checks the canaries around a mapping, and removes them.
pub unsafe fn check_canaries(m: &Mapping, remove: bool) {
    let v = vm();
    if !v.canaries {
        return;
    }
    cnt(K::CanaryCheck);
    for c in [m.start - v.page, m.start + m.len] {
        let second = c + v.page - REAL;
        for q in [c, second] {
            if !readable(q) {
                vio!("C12", "neighbour-protection", "memory next to mapping {} is no longer accessible", m.id);
            }
            let s = std::slice::from_raw_parts(q as *const u8, REAL);
            if let Some(i) = s.iter().position(|&b| b != CANARY) {
                vio!("C12 C19 C11", "neighbour-overwritten", "memory outside mapping {} changed at offset {:#x} from its start", m.id, (q + i) as isize - m.start as isize);
            }
        }
        if remove {
            wipe(c, v.page);
        }
    }
}

unsafe fn sim_munmap(a: usize, l: usize) -> c_int {
    let _p = crate::trap::Pause::new();
    let v = vm();
    v.calls += 1;
    if a % v.page != 0 || l == 0 {
        set_errno(libc::EINVAL);
        vio!("C12", "munmap-args", "munmap at arena+{:#x} with length {:#x} is not a whole mapping", a - v.lo, l);
    }
    let len = (l + v.page - 1) & !(v.page - 1);
    let Some(i) = v.maps.iter().position(|m| m.live && m.start == a && m.len == len) else {
        let over: Vec<_> = v.maps.iter().filter(|m| m.start < a + len && a < m.start + m.len).collect();
        vio!("C12", "munmap-range", "munmap(arena+{:#x}, {len:#x}) is not exactly one live mapping; overlaps {over:x?}", a - v.lo);
    };
    ev!("    [vm] munmap of mapping {i}");
    crate::vg::unmapping(i as u32);
    if v.strict && !v.creating(i) && !v.may_unmap.contains(&a) {
        vio!("C12 C13", "early-unmap", "mapping {i} was released although its stack still exists");
    }
    if let Some(k) = v.maps[i].stack {
        world_unmapped(k);
    }
    let m = v.maps[i].clone();
    check_canaries(&m, true);
    v.maps[i].live = false;
    v.live -= len;
    wipe(a, len);
    if v.clobber {
        set_errno(libc::EDOM);
    } else {
        set_errno(0);
    }
    0
}

/// The mapping of a stack known to the model is being released.
fn world_unmapped(k: usize) {
    let s = &mut world::w().stacks[k];
    if s.used != world::StackUse::Released {
        crate::stacks::released(k);
    }
}

unsafe fn sim_mprotect(a: usize, l: usize, prot: c_int) -> c_int {
    let _p = crate::trap::Pause::new();
    let v = vm();
    v.calls += 1;
    if let Some((n, e)) = &mut v.fail_mprotect {
        if *n == 0 {
            let e = *e;
            v.fail_mprotect = None;
            v.fired = Some(e);
            cnt(K::MprotectFail);
            ev!("    [vm] mprotect fails with errno {e}");
            set_errno(e);
            return -1;
        }
        *n -= 1;
    }
    if a % v.page != 0 {
        // What the system does, but not for want of anything.
        ev!("    [vm] mprotect of a part of a page fails");
        set_errno(libc::EINVAL);
        return -1;
    }
    let len = (l + v.page - 1) & !(v.page - 1);
    if !v.maps.iter().any(|m| m.live && a >= m.start && a + len <= m.start + m.len) {
        vio!("C12", "mprotect-range", "mprotect(arena+{:#x}, {len:#x}) reaches outside every live mapping {:x?}", a - v.lo, v.maps);
    }
    let r = real_mprotect(a, len, prot);
    if v.clobber {
        set_errno(libc::EDOM);
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn mmap(a: *mut c_void, l: size_t, p: c_int, f: c_int, fd: c_int, o: off_t) -> *mut c_void {
    if vm().on && fd == -1 {
        return sim_mmap(l, p);
    }
    real_mmap(a, l, p, f, fd, o as i64)
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(a: *mut c_void, l: size_t, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut c_void {
    if vm().on && fd == -1 {
        return sim_mmap(l, p);
    }
    real_mmap(a, l, p, f, fd, o)
}
#[no_mangle]
pub unsafe extern "C" fn munmap(a: *mut c_void, l: size_t) -> c_int {
    let (x, v) = (a as usize, vm());
    if v.lo != 0 && x < v.hi && x.saturating_add(l) > v.lo {
        return sim_munmap(x, l);
    }
    if v.on {
        vio!("C12", "munmap-foreign", "munmap({x:#x}, {l:#x}) outside the simulated memory");
    }
    libc::syscall(libc::SYS_munmap, a, l) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mprotect(a: *mut c_void, l: size_t, p: c_int) -> c_int {
    let (x, v) = (a as usize, vm());
    if v.lo != 0 && x < v.hi && x.saturating_add(l) > v.lo {
        return sim_mprotect(x, l, p);
    }
    if v.on {
        vio!("C12", "mprotect-foreign", "mprotect({x:#x}, {l:#x}) outside the simulated memory");
    }
    real_mprotect(x, l, p)
}
extern "C" {
    fn __sysconf(n: c_int) -> c_long;
}
#[no_mangle]
pub unsafe extern "C" fn sysconf(n: c_int) -> c_long {
    if vm().on && (n == libc::_SC_PAGESIZE || n == libc::_SC_PAGE_SIZE) {
        vm().sysconf_calls += 1;
        if vm().clobber {
            set_errno(libc::EDOM);
        }
        return vm().page as c_long;
    }
    __sysconf(n)
}
#[no_mangle]
pub unsafe extern "C" fn getpagesize() -> c_int {
    if vm().on {
        return vm().page as c_int;
    }
    REAL as c_int
}

/// Runs `f` with the simulated memory manager in charge.
pub fn with_sim<R>(f: impl FnOnce() -> R) -> R {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            vm().on = false;
        }
    }
    vm().on = true;
    let _o = Off;
    f()
}

static mut PIPE: [c_int; 2] = [0, 0];
/// Asks the kernel whether a byte can be read, without touching it.
#[allow(static_mut_refs)]
pub fn readable(a: usize) -> bool {
    unsafe {
        if PIPE[1] == 0 {
            libc::pipe2(PIPE.as_mut_ptr(), libc::O_NONBLOCK);
        }
        let r = libc::write(PIPE[1], a as *const c_void, 1);
        if r == 1 {
            let mut b = 0u8;
            libc::read(PIPE[0], &mut b as *mut u8 as *mut c_void, 1);
        }
        r == 1
    }
}
/// Asks the kernel whether a byte can be written, without changing it.
#[allow(static_mut_refs)]
pub fn writable(a: usize) -> bool {
    unsafe {
        if !readable(a) {
            // Not readable: still may be writable; try with a zero byte.
            let z = 0u8;
            libc::write(PIPE[1], &z as *const u8 as *const c_void, 1);
        } else {
            libc::write(PIPE[1], a as *const c_void, 1);
        }
        let r = libc::read(PIPE[0], a as *mut c_void, 1);
        if r != 1 {
            let mut b = 0u8;
            libc::read(PIPE[0], &mut b as *mut u8 as *mut c_void, 1);
        }
        r == 1
    }
}
