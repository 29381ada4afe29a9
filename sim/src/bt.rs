//! Stack walks, checked against the model's chain of live frames.
use crate::regs::{self, Block};
use crate::world::*;
use crate::vio;
use std::ffi::c_void;

extern "C" {
    fn _Unwind_Backtrace(cb: extern "C" fn(*mut c_void, *mut c_void) -> i32, arg: *mut c_void) -> i32;
    fn _Unwind_GetIP(c: *mut c_void) -> usize;
    fn _Unwind_GetCFA(c: *mut c_void) -> usize;
    fn _Unwind_GetGR(c: *mut c_void, r: i32) -> usize;
}

#[derive(Clone, Copy)]
struct Seen {
    cfa: usize,
    gr: [usize; 6],
}
struct Walk {
    seen: Vec<Seen>,
    frames: u32,
    ret: usize,
    /// Each frame's program counter and stack pointer.
    all: Vec<(usize, usize)>,
}

extern "C" fn cb(c: *mut c_void, arg: *mut c_void) -> i32 {
    let w = unsafe { &mut *(arg as *mut Walk) };
    w.frames += 1;
    if w.frames > 20_000 {
        return 5;
    }
    unsafe {
        w.all.push((_Unwind_GetIP(c), _Unwind_GetCFA(c)));
        if _Unwind_GetIP(c) == w.ret {
            let mut gr = [0; 6];
            for i in 0..regs::NREGS {
                gr[i] = _Unwind_GetGR(c, regs::DWARF[i]);
            }
            w.seen.push(Seen { cfa: _Unwind_GetCFA(c), gr });
        }
    }
    0
}

fn expected(s: Sid) -> Vec<(Sid, &'static Block)> {
    chain(s)
        .into_iter()
        .filter_map(|(t, f)| if let Frame::Regs(p) = f { Some((t, unsafe { &*(p as *const Block) })) } else { None })
        .collect()
}

/// Called below a marker frame of strand `s`.
#[inline(never)]
pub fn check(s: Sid) {
    let pcs = if cfg!(feature = "fp") { fp_check(s) } else { vec![] };
    let want = expected(s);
    let mut k = Walk { seen: Vec::with_capacity(want.len() + 8), frames: 0, ret: regs::ret_addr(), all: Vec::with_capacity(256) };
    let r = unsafe { _Unwind_Backtrace(cb, &mut k as *mut Walk as *mut c_void) };
    if k.frames > 20_000 {
        vio!("C09", "walk-endless", "the stack walk does not end");
    }
    for (i, (t, b)) in want.iter().enumerate() {
        let Some(g) = k.seen.get(i) else {
            vio!("C09", "walk-short", "the stack walk from strand {s} ends (code {r}) after {} of {} known frames; the next is in strand {t}", k.seen.len(), want.len());
        };
        if g.cfa != b.sp {
            vio!("C09", "walk-wrong-frame", "known frame {i} of the stack walk is at {:#x}, expected {:#x} in strand {t}", g.cfa, b.sp);
        }
        for j in 0..regs::NREGS {
            if g.gr[j] != b.pat[j] {
                vio!("C09", "walk-wrong-register", "the stack walk recovers {} wrongly in known frame {i} (strand {t}): {:#x}, expected {:#x}", regs::NAMES[j], g.gr[j], b.pat[j]);
            }
        }
    }
    if k.seen.len() > want.len() {
        vio!("C09", "walk-extra", "the stack walk shows {} frames beyond the current parents", k.seen.len() - want.len());
    }
    if r != 5 {
        vio!("C09", "walk-error", "the stack walk ends with code {r}, not at the thread's entry");
    }
    if cfg!(feature = "fp") {
        switches(s, &k, &pcs, want.len());
    }
}

/// Wherever the walk moves to another stack, the frame-pointer chain must show
/// the function that made the switch.
fn switches(s: Sid, k: &Walk, pcs: &[usize], known: usize) {
    let stack = |sp: usize| crate::stacks::which(sp - 1);
    let (mut at, mut met) = (0, 0);
    for i in 1..k.all.len() {
        if k.all[i].0 == k.ret {
            met += 1;
            if met == known {
                return;
            }
        }
        if stack(k.all[i].1) != stack(k.all[i - 1].1) {
            crate::shm::cnt(crate::shm::K::FpSwitch);
            let pc = k.all[i].0;
            match pcs[at..].iter().position(|&p| p == pc) {
                Some(n) => at += n + 1,
                None => vio!("C10", "chain-skips-switch", "the frame-pointer chain from strand {s} does not show the function that switched stacks at frame {i} of the walk"),
            }
        }
    }
}

#[inline(never)]
fn fp_check(s: Sid) -> Vec<usize> {
    use crate::simvm::readable;
    const W: usize = std::mem::size_of::<usize>();
    crate::shm::cnt(crate::shm::K::FpWalk);
    let mut fp: usize;
    unsafe {
        #[cfg(target_arch = "x86_64")]
        std::arch::asm!("mov {}, rbp", out(reg) fp);
        #[cfg(target_arch = "x86")]
        std::arch::asm!("mov {}, ebp", out(reg) fp);
    }
    let want = expected(s);
    let ret = regs::ret_addr();
    let mut i = 0;
    let mut n = 0;
    let mut pcs = Vec::with_capacity(256);
    while i < want.len() {
        n += 1;
        if fp == 0 || fp % W != 0 || n > 20_000 || !readable(fp) || !readable(fp + 2 * W - 1) {
            vio!("C10", "chain-broken", "the frame-pointer chain from strand {s} breaks at {fp:#x} after {i} of {} known frames; the next is in strand {}", want.len(), want[i].0);
        }
        let (next, pc) = unsafe { (*(fp as *const usize), *((fp + W) as *const usize)) };
        pcs.push(pc);
        if pc == ret {
            if next != want[i].1.pat[1] {
                vio!("C10", "chain-wrong", "known frame {i} of the frame-pointer chain is at {next:#x}, expected {:#x} in strand {}", want[i].1.pat[1], want[i].0);
            }
            i += 1;
        }
        fp = next;
    }
    pcs
}
