//! C16: closures with captured state of every size and alignment.
use crate::chooser::{choose, range};
use crate::profiles::Profile;
use crate::shm::{cnt, K};
use crate::world::{note, w};
use crate::{ev, vio};
use corosensei::stack::{Stack, StackPointer};
use corosensei::{on_stack, Coroutine, CoroutineResult};
use std::hint::black_box;
use std::panic::{catch_unwind, AssertUnwindSafe};

const BELOW: usize = 16 << 10;
const ABOVE: usize = 4096;
const BIG: usize = 128 << 10;
const PAINT: u8 = 0x3D;

static mut MEM: usize = 0;
/// The stack in use: how often it was released.
static mut RELEASED: u32 = 0;
/// The captured value in use: its content's seed, and its drops.
static mut SEED: u64 = 0;
static mut DROPS: u32 = 0;
static mut RUNS: u32 = 0;
static mut MODE: u32 = 0;
static mut BOUNDS: (usize, usize) = (0, 0);

struct Small {
    base: usize,
    limit: usize,
}
impl Drop for Small {
    fn drop(&mut self) {
        unsafe { RELEASED += 1 };
    }
}
unsafe impl Stack for Small {
    fn base(&self) -> StackPointer {
        StackPointer::new(self.base).unwrap()
    }
    fn limit(&self) -> StackPointer {
        StackPointer::new(self.limit).unwrap()
    }
}

/// A stack of `size` bytes whose base is aligned to 16 only; memory below the
/// limit and above the base is painted.
fn small(size: usize, off: usize) -> Small {
    unsafe {
        if MEM == 0 {
            let p = libc::mmap(std::ptr::null_mut(), BELOW + BIG + ABOVE + (64 << 10), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
            assert!(p != libc::MAP_FAILED);
            // The same alignment everywhere, so that runs repeat exactly.
            MEM = (p as usize + 0xffff) & !0xffff;
        }
        let limit = MEM + BELOW;
        let base = limit + size + off * 16;
        std::ptr::write_bytes(MEM as *mut u8, PAINT, BELOW);
        std::ptr::write_bytes(base as *mut u8, PAINT, ABOVE);
        let limit = limit + off * 16;
        std::ptr::write_bytes((MEM + BELOW) as *mut u8, PAINT, off * 16);
        RELEASED = 0;
        Small { base, limit }
    }
}
fn check_outside(base: usize, limit: usize, what: &str) {
    unsafe {
        let below = std::slice::from_raw_parts(MEM as *const u8, limit - MEM);
        if let Some(i) = below.iter().rposition(|&b| b != PAINT) {
            vio!("C16 C13", "outside-stack", "{what}: memory {:#x} below the stack's limit was written", limit - MEM - i);
        }
        let above = std::slice::from_raw_parts(base as *const u8, ABOVE);
        if let Some(i) = above.iter().position(|&b| b != PAINT) {
            vio!("C16 C13", "above-base", "{what}: memory {i:#x} above the stack's base was written");
        }
    }
}

fn byte(i: usize) -> u8 {
    (unsafe { SEED } >> (i % 7 * 8)) as u8 ^ i as u8 ^ (i >> 8) as u8
}

pub trait Payload: Sized + 'static {
    const SIZE: usize;
    const ALIGN: usize;
    fn make() -> Self;
    fn ok(&self) -> Result<(), String>;
}

macro_rules! payload {
    ($($name:ident $a:literal),*) => {$(
        #[repr(C, align($a))]
        pub struct $name<const N: usize>([u8; N]);
        impl<const N: usize> Payload for $name<N> {
            const SIZE: usize = std::mem::size_of::<Self>();
            const ALIGN: usize = $a;
            #[inline(never)]
            fn make() -> Self {
                let mut b = [0; N];
                for i in 0..N {
                    b[i] = byte(i);
                }
                $name(b)
            }
            #[inline(never)]
            fn ok(&self) -> Result<(), String> {
                let at = black_box(self as *const Self as usize);
                if at % $a != 0 {
                    return Err(format!("is at an address not aligned to {}", $a));
                }
                match (0..N).find(|&i| self.0[i] != byte(i)) {
                    Some(i) => Err(format!("has a damaged byte {i} of {N}")),
                    None => Ok(()),
                }
            }
        }
        impl<const N: usize> Drop for $name<N> {
            #[inline(never)]
            fn drop(&mut self) {
                if let Err(e) = self.ok() {
                    vio!("C16 C05", "damaged", "captured state dropped (size {}, alignment {}) {e}", Self::SIZE, Self::ALIGN);
                }
                unsafe { DROPS += 1 };
            }
        }
    )*};
}
payload!(P1 1, P2 2, P4 4, P8 8, P16 16, P32 32, P64 64, P128 128, P256 256, P512 512, P1K 1024, P2K 2048, P4K 4096, P8K 8192, P64K 65536);

fn dropped<P: Payload>(want: u32, what: &str) {
    let n = unsafe { DROPS };
    if n != want {
        vio!("C16 C05", "drops", "{what}: captured state (size {}, alignment {}) was dropped {n} times, not {want}", P::SIZE, P::ALIGN);
    }
}
fn runs<P: Payload>(want: u32, what: &str) {
    let n = unsafe { RUNS };
    if n != want {
        vio!("C16", "runs", "{what}: a closure (size {}, alignment {}) ran {n} times, not {want}", P::SIZE, P::ALIGN);
    }
}
fn released(want: u32, what: &str) {
    let n = unsafe { RELEASED };
    if n != want {
        vio!("C16 C13", "released", "{what}: the stack was released {n} times, not {want}");
    }
}

type Co = Coroutine<u64, u64, u64, Small>;
const BOOM: u64 = 0xB00;

fn enter<P: Payload>(p: &P, base: usize, limit: usize) {
    unsafe { RUNS += 1 };
    if let Err(e) = p.ok() {
        vio!("C16", "damaged", "captured state (size {}, alignment {}) {e} when the closure runs", P::SIZE, P::ALIGN);
    }
    let at = black_box(p as *const P as usize);
    if base != 0 && P::SIZE > 0 && (at < limit || at + P::SIZE > base) {
        vio!("C16", "not-on-stack", "captured state (size {}, alignment {}) is not on the coroutine's stack", P::SIZE, P::ALIGN);
    }
}

/// Creates a coroutine whose closure captures a P; None if it was refused.
fn create<P: Payload>(s: Small, mode: u32) -> Option<Co> {
    let (base, limit) = (s.base, s.limit);
    let p = P::make();
    // Kept out of the closure, which is to capture the payload alone.
    unsafe {
        MODE = mode;
        BOUNDS = (base, limit);
    }
    let r = catch_unwind(AssertUnwindSafe(|| {
        Co::with_stack(s, move |y, x| {
            let p = p;
            let (mode, (base, limit)) = unsafe { (MODE, BOUNDS) };
            enter(&p, base, limit);
            let mut x = x;
            if mode != 1 {
                x = y.suspend(x + 1);
            }
            if mode == 4 {
                std::panic::resume_unwind(Box::new(BOOM));
            }
            enter(&p, base, limit);
            unsafe { RUNS -= 1 };
            drop(p);
            x * 2
        })
    }));
    match r {
        Ok(c) => Some(c),
        Err(_) => {
            if P::SIZE <= 1024 && P::ALIGN <= 256 {
                vio!("C16", "refused", "a closure of {} bytes aligned to {} was refused", P::SIZE, P::ALIGN);
            }
            cnt(K::CapRefused);
            dropped::<P>(1, "after a refused creation");
            runs::<P>(0, "after a refused creation");
            released(1, "after a refused creation");
            check_outside(base, limit, "refused closure");
            None
        }
    }
}

fn in_coroutine<P: Payload>() {
    let mode = choose(6);
    let tiny = mode == 0 || mode == 3;
    let size = if tiny { [4096, 4096, 8192, 32 << 10][choose(4) as usize] } else { [32 << 10, BIG][choose(2) as usize] + if cfg!(debug_assertions) { 64 << 10 } else { 0 } };
    // Unwinding and panics take room.
    let size = size.min(BIG).max(if mode == 4 || mode == 2 { 96 << 10 } else { 0 });
    let s = small(size, choose(64) as usize);
    let (base, limit) = (s.base, s.limit);
    note(80, (P::SIZE as u64) << 20 | P::ALIGN as u64, (size as u64) << 4 | mode as u64);
    ev!("  closure of {} bytes aligned to {} on a stack of {size:#x} bytes, ending {mode}", P::SIZE, P::ALIGN);
    let Some(mut c) = create::<P>(s, mode) else { return };
    cnt(K::Create);
    if P::ALIGN > 16 {
        cnt(K::OveralignCap);
    }
    check_outside(base, limit, "creation");
    dropped::<P>(0, "before the first resume");
    runs::<P>(0, "before the first resume");
    if c.started() || c.done() {
        vio!("C16 C02", "state", "a new coroutine reports started or done");
    }
    // Moving the coroutine does not matter.
    if choose(2) == 1 {
        let b = black_box(Box::new(c));
        c = *b;
    }
    match mode {
        0 => {
            drop(c);
            dropped::<P>(1, "after dropping an unstarted coroutine");
            runs::<P>(0, "after dropping an unstarted coroutine");
            released(1, "after dropping an unstarted coroutine");
        }
        1 => {
            if c.resume(4) != CoroutineResult::Return(8) {
                vio!("C16 C01", "wrong-value", "a closure's result is wrong");
            }
            dropped::<P>(1, "after the closure returned");
            runs::<P>(1, "after the closure returned");
            drop(c);
            dropped::<P>(1, "after the coroutine was dropped");
            released(1, "after the coroutine was dropped");
        }
        2 | 5 => {
            if c.resume(4) != CoroutineResult::Yield(5) {
                vio!("C16 C01", "wrong-value", "a closure's first value is wrong");
            }
            dropped::<P>(0, "while the closure is suspended");
            check_outside(base, limit, "suspension");
            if mode == 2 && cfg!(feature = "unwind") {
                drop(c);
                dropped::<P>(1, "after the closure was unwound");
                runs::<P>(1, "after the closure was unwound");
                released(1, "after the closure was unwound");
            } else {
                if c.resume(7) != CoroutineResult::Return(14) {
                    vio!("C16 C01", "wrong-value", "a closure's result is wrong");
                }
                dropped::<P>(1, "after the closure returned");
                runs::<P>(1, "after the closure returned");
                drop(c.into_stack());
                released(1, "after the stack was taken back and dropped");
            }
        }
        3 => {
            c.force_unwind();
            dropped::<P>(1, "after an unstarted coroutine was force-unwound");
            runs::<P>(0, "after an unstarted coroutine was force-unwound");
            if !c.done() {
                vio!("C16 C05 C02", "state", "a force-unwound coroutine is not done");
            }
            let s = c.into_stack();
            if s.base != base || s.limit != limit {
                vio!("C13 C16", "stack-changed", "the stack handed back is another one");
            }
            released(0, "after the stack was handed back");
            drop(s);
            dropped::<P>(1, "after the stack was dropped");
        }
        _ => {
            if c.resume(4) != CoroutineResult::Yield(5) {
                vio!("C16 C01", "wrong-value", "a closure's first value is wrong");
            }
            if cfg!(feature = "unwind") {
                let r = catch_unwind(AssertUnwindSafe(|| c.resume(1)));
                match r {
                    Err(p) if p.downcast_ref::<u64>() == Some(&BOOM) => {}
                    _ => vio!("C16 C04", "wrong-panic", "a closure's panic did not come out of resume"),
                }
                cnt(K::PanicCross);
                dropped::<P>(1, "after the closure panicked");
                runs::<P>(1, "after the closure panicked");
            } else {
                // A panic would abort; the capture must simply survive.
                unsafe { c.force_reset() };
                dropped::<P>(0, "after a reset");
            }
            drop(c);
            released(1, "after the coroutine was dropped");
        }
    }
    check_outside(base, limit, "end");
}

fn in_on_stack<P: Payload>() {
    let s = small(BIG, choose(64) as usize);
    let (base, limit) = (s.base, s.limit);
    let mode = choose(3);
    note(81, (P::SIZE as u64) << 20 | P::ALIGN as u64, mode as u64);
    unsafe { MODE = mode };
    ev!("  on_stack closure of {} bytes aligned to {}, ending {mode}", P::SIZE, P::ALIGN);
    let p = P::make();
    let r = catch_unwind(AssertUnwindSafe(|| {
        on_stack(s, move || {
            let p = p;
            let mode = unsafe { MODE };
            enter(&p, 0, 0);
            if mode == 2 && cfg!(feature = "unwind") {
                std::panic::resume_unwind(Box::new(BOOM));
            }
            if mode == 1 {
                return Some(p);
            }
            drop(p);
            None
        })
    }));
    released(1, "after on_stack");
    let what = "after an on_stack closure";
    match r {
        Ok(Some(p)) => {
            dropped::<P>(0, what);
            if let Err(e) = p.ok() {
                vio!("C07 C16", "damaged", "a value returned by on_stack (size {}, alignment {}) {e}", P::SIZE, P::ALIGN);
            }
            drop(p);
        }
        Ok(None) => {}
        Err(p) => {
            if p.downcast_ref::<u64>() != Some(&BOOM) {
                if P::SIZE <= 1024 && P::ALIGN <= 256 {
                    vio!("C16 C07", "refused", "an on_stack closure of {} bytes aligned to {} was refused", P::SIZE, P::ALIGN);
                }
                unsafe { RUNS += 1 };
            }
        }
    }
    runs::<P>(1, what);
    dropped::<P>(1, what);
    check_outside(base, limit, "on_stack");
}

fn trial<P: Payload>() {
    unsafe {
        SEED = 0x1357_9BDF_2468 ^ (choose(1 << 16) as u64) << 17;
        DROPS = 0;
        RUNS = 0;
    }
    cnt(K::Steps);
    w().steps += 1;
    // on_stack values live in ordinary frames: keep those reasonable.
    if choose(4) == 1 && P::ALIGN <= 1024 && P::SIZE <= 2048 {
        in_on_stack::<P>();
    } else {
        in_coroutine::<P>();
    }
}

macro_rules! table {
    ($($p:ident [$($n:literal)*])*) => {
        static TABLE: &[fn()] = &[$($(trial::<$p<$n>>,)*)*];
    };
}
table! {
    P1 [0 1 2 3 5 7 8 9 15 16 17 24 31 32 33 47 63 64 65 100 127 128 129 255 256 257 500 511 512 513 767 1000 1007 1008 1009 1015 1016 1017 1022 1023 1024 1025 1026 1040 2000 3500 4000 4080 4096 5000 9000]
    P2 [0 2 6 10 1022 1024 1026]
    P4 [0 4 12 20 1020 1024 1028]
    P8 [0 8 16 24 40 1000 1008 1016 1024 1032 4096]
    P16 [0 16 32 48 496 1008 1024 1040 4096]
    P32 [0 32 64 96 992 1024 1056]
    P64 [0 64 128 960 1024 1088]
    P128 [0 128 256 896 1024 1152]
    P256 [0 256 512 768 1024 1280]
    P512 [0 512 1024 1536]
    P1K [0 1024 2048]
    P2K [0 2048]
    P4K [0 4096]
    P8K [0]
    P64K [0]
}

pub fn work(_: &Profile) {
    for _ in 0..range(1, 12) {
        TABLE[choose(TABLE.len() as u32) as usize]();
    }
}
