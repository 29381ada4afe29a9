//! A simulated Valgrind: its client requests (fixed instruction sequences that
//! do nothing on real hardware) are found in the program's code, replaced by
//! breakpoints and answered the way Valgrind answers them.
use crate::chooser::choose;
use crate::shm::{cnt, K};
use crate::simvm::vm;
use crate::trap;
use crate::{ev, vio};
use libc::{c_int, siginfo_t, ucontext_t};

pub struct Reg {
    pub id: usize,
    pub map: u32,
    pub start: usize,
}
static mut REGS: Vec<Reg> = Vec::new();
static mut NEXT: usize = 1;
static mut STRIDE: usize = 1;
static mut ON: bool = false;
/// Where the client requests are.
static mut SITES: Vec<usize> = Vec::new();

#[allow(static_mut_refs)]
pub fn regs() -> &'static mut Vec<Reg> {
    unsafe { &mut REGS }
}
pub fn on() -> bool {
    unsafe { ON }
}
pub fn enable() {
    regs().clear();
    unsafe {
        ON = true;
        NEXT = 1 + [0, 1, 7, 4095, 65536, 1 << 30][choose(6) as usize];
        STRIDE = [1, 2, 16][choose(3) as usize];
        trap::HOOK = Some(on_break);
        find();
        patch(0xcc);
    }
    trap::trap_on_stack(true);
}
pub fn disable() {
    unsafe {
        ON = false;
        trap::HOOK = None;
        patch(OP[0]);
    }
    trap::trap_on_stack(false);
    regs().clear();
}

#[cfg(target_arch = "x86_64")]
const MAGIC: &[u8] = &[0x48, 0xc1, 0xc7, 0x03, 0x48, 0xc1, 0xc7, 0x0d, 0x48, 0xc1, 0xc7, 0x3d, 0x48, 0xc1, 0xc7, 0x33];
#[cfg(target_arch = "x86_64")]
const OP: &[u8] = &[0x48, 0x87, 0xdb];
#[cfg(target_arch = "x86")]
const MAGIC: &[u8] = &[0xc1, 0xc7, 0x03, 0xc1, 0xc7, 0x0d, 0xc1, 0xc7, 0x1d, 0xc1, 0xc7, 0x13];
#[cfg(target_arch = "x86")]
const OP: &[u8] = &[0x87, 0xdb];

#[cfg(target_arch = "x86_64")]
const R: [usize; 2] = [libc::REG_RAX as usize, libc::REG_RDX as usize];
#[cfg(target_arch = "x86")]
const R: [usize; 2] = [libc::REG_EAX as usize, libc::REG_EDX as usize];

extern "C" {
    static __executable_start: u8;
    static etext: u8;
}

/// Scans the program's code once for client requests.
#[allow(static_mut_refs)]
unsafe fn find() {
    if !SITES.is_empty() {
        return;
    }
    let (lo, hi) = (&__executable_start as *const u8 as usize, &etext as *const u8 as usize);
    // Only the part that is code: other segments may have holes before it.
    let text = std::fs::read_to_string("/proc/self/maps").unwrap();
    for l in text.lines() {
        let mut f = l.split_whitespace();
        let (range, perm) = (f.next().unwrap(), f.next().unwrap());
        let (a, b) = range.split_once('-').unwrap();
        let (a, b) = (usize::from_str_radix(a, 16).unwrap(), usize::from_str_radix(b, 16).unwrap());
        if !perm.contains('x') || b <= lo || a >= hi {
            continue;
        }
        let s = std::slice::from_raw_parts(a as *const u8, b - a);
        for i in 0..s.len().saturating_sub(MAGIC.len() + OP.len()) {
            // The pattern must not appear in this search's own data: compare in pieces.
            if s[i] == MAGIC[0] && s[i..].starts_with(MAGIC) && s[i + MAGIC.len()..].starts_with(OP) {
                SITES.push(a + i + MAGIC.len());
            }
        }
    }
}

#[allow(static_mut_refs)]
unsafe fn patch(byte: u8) {
    for &s in &SITES {
        let page = s & !4095;
        crate::simvm::real_mprotect(page, 8192, libc::PROT_READ | libc::PROT_WRITE | libc::PROT_EXEC);
        (s as *mut u8).write_volatile(byte);
        crate::simvm::real_mprotect(page, 8192, libc::PROT_READ | libc::PROT_EXEC);
    }
}

#[allow(static_mut_refs)]
unsafe fn on_break(sig: c_int, _: *mut siginfo_t, uc: *mut ucontext_t) -> bool {
    if sig != libc::SIGTRAP {
        return false;
    }
    let ip = trap::ip(uc);
    if !SITES.contains(&(ip - 1)) {
        return false;
    }
    let g = &mut (*uc).uc_mcontext.gregs;
    let args = g[R[0]] as usize as *const usize;
    if let Some(a) = request(args.read(), args.add(1).read(), args.add(2).read()) {
        g[R[1]] = a as _;
    }
    // Past the instruction the breakpoint replaces.
    trap::set_ip(uc, ip - 1 + OP.len());
    true
}

fn request(code: usize, a: usize, b: usize) -> Option<usize> {
    match code {
        0x1001 => Some(1),
        0x1501 => {
            let (lo, hi) = (a.min(b), a.max(b));
            let m = vm().maps.iter().find(|m| m.live && m.start == lo && (m.start + m.len == hi || m.start + m.len - 1 == hi));
            let Some(m) = m else {
                vio!("C18", "register-bounds", "[{a:#x}, {b:#x}] is registered as a stack, which is not a live mapping {:x?}", vm().maps.iter().filter(|m| m.live).collect::<Vec<_>>());
            };
            let id = unsafe {
                NEXT += STRIDE;
                NEXT - STRIDE
            };
            ev!("    [valgrind] register mapping {} as stack {id}", m.id);
            cnt(K::VgStacks);
            if regs().iter().any(|r| r.map == m.id) {
                vio!("C18", "register-twice", "mapping {} is registered twice", m.id);
            }
            regs().push(Reg { id, map: m.id, start: m.start });
            Some(id)
        }
        0x1502 => {
            ev!("    [valgrind] deregister stack {a}");
            let Some(i) = regs().iter().position(|r| r.id == a) else {
                vio!("C18", "deregister-id", "stack {a} is deregistered, but the registered ones are {:?}", regs().iter().map(|r| r.id).collect::<Vec<_>>());
            };
            let r = regs().swap_remove(i);
            if !vm().maps[r.map as usize].live {
                vio!("C18", "deregister-late", "mapping {} is deregistered after its release", r.map);
            }
            let sure = vm().strict && vm().maps[r.map as usize].stack.is_some();
            if sure && !vm().may_unmap.contains(&r.start) {
                vio!("C18", "deregister-early", "mapping {} is deregistered although its stack still exists", r.map);
            }
            None
        }
        0x1503 => vio!("C18", "change", "a registered stack is redefined"),
        _ => None,
    }
}

/// A mapping is about to be released.
pub fn unmapping(id: u32) {
    if on() && regs().iter().any(|r| r.map == id) {
        vio!("C18", "unmap-registered", "mapping {id} is released while it is registered as a stack");
    }
}

/// Every mapping of a stack that exists is registered, and nothing else.
pub fn check_all(what: &str) {
    let live: Vec<usize> = vm().maps.iter().filter(|m| m.live).map(|m| m.start).collect();
    check(&live, what);
}

/// Exactly the stacks that exist are registered.
pub fn check(live: &[usize], what: &str) {
    if !on() {
        return;
    }
    let mut have: Vec<usize> = regs().iter().map(|r| r.start).collect();
    let mut want = live.to_vec();
    have.sort();
    want.sort();
    if have != want {
        let lo = vm().lo;
        vio!("C18", "registered-set", "{what}: registered stacks at {:x?}, existing ones at {:x?} (arena offsets)", have.iter().map(|a| a - lo).collect::<Vec<_>>(), want.iter().map(|a| a - lo).collect::<Vec<_>>());
    }
}

