//! C03, C07: many local variables of every register class live across each
//! library call, inlined as far as the optimiser likes to, while the other
//! side of the call overwrites every register it may. The same computation
//! around plain calls is the reference.
use crate::chooser::{choose, mix, range};
use crate::profiles::Profile;
use crate::shm::{cnt, K};
use crate::world::{note, w};
use crate::{ev, vio};
#[cfg(target_arch = "x86")]
use core::arch::x86 as simd;
#[cfg(target_arch = "x86_64")]
use core::arch::x86_64 as simd;
use corosensei::stack::{Stack, StackPointer};
use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
#[cfg(not(target_feature = "avx"))]
mod v {
    use super::simd::*;
    pub type V = __m128d;
    pub const LANES: usize = 2;
    pub fn set(a: f64, b: f64) -> V {
        unsafe { _mm_set_pd(a, b) }
    }
    pub fn mix(half: V, v: V, r: V) -> V {
        unsafe { _mm_mul_pd(half, _mm_add_pd(v, _mm_shuffle_pd::<1>(r, r))) }
    }
}
#[cfg(target_feature = "avx")]
mod v {
    use super::simd::*;
    pub type V = __m256d;
    pub const LANES: usize = 4;
    pub fn set(a: f64, b: f64) -> V {
        unsafe { _mm256_set_pd(a, b, a + b, a - b) }
    }
    pub fn mix(half: V, v: V, r: V) -> V {
        unsafe { _mm256_mul_pd(half, _mm256_add_pd(v, _mm256_permute2f128_pd::<1>(r, _mm256_shuffle_pd::<5>(r, r)))) }
    }
}
use v::{LANES, V};
use std::arch::asm;
use std::hint::black_box;

const SIZE: usize = 512 << 10;
static mut MEM: usize = 0;
#[derive(Clone, Copy)]
struct Room(usize);
unsafe impl Stack for Room {
    #[inline]
    fn base(&self) -> StackPointer {
        StackPointer::new(unsafe { MEM } + self.0 * SIZE).unwrap()
    }
    #[inline]
    fn limit(&self) -> StackPointer {
        StackPointer::new(unsafe { MEM } + (self.0 - 1) * SIZE).unwrap()
    }
}
fn rooms() {
    unsafe {
        if MEM == 0 {
            let p = libc::mmap(std::ptr::null_mut(), 3 * SIZE, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
            assert!(p != libc::MAP_FAILED);
            MEM = p as usize;
        }
    }
}

/// Overwrites every register the compiler lets us.
#[inline(always)]
fn trash(x: u64) {
    unsafe {
        #[cfg(all(target_arch = "x86_64", target_feature = "avx"))]
        asm!(
            "vmovq xmm0, {x}", "vpunpcklqdq xmm0, xmm0, xmm0", "vinsertf128 ymm0, ymm0, xmm0, 1",
            "vmovapd ymm1, ymm0", "vmovapd ymm2, ymm0", "vmovapd ymm3, ymm0", "vmovapd ymm4, ymm0", "vmovapd ymm5, ymm0", "vmovapd ymm6, ymm0", "vmovapd ymm7, ymm0",
            "vmovapd ymm8, ymm0", "vmovapd ymm9, ymm0", "vmovapd ymm10, ymm0", "vmovapd ymm11, ymm0", "vmovapd ymm12, ymm0", "vmovapd ymm13, ymm0", "vmovapd ymm14, ymm0", "vmovapd ymm15, ymm0",
            x = in(reg) x,
            out("ymm0") _, out("ymm1") _, out("ymm2") _, out("ymm3") _, out("ymm4") _, out("ymm5") _, out("ymm6") _, out("ymm7") _,
            out("ymm8") _, out("ymm9") _, out("ymm10") _, out("ymm11") _, out("ymm12") _, out("ymm13") _, out("ymm14") _, out("ymm15") _,
            options(nomem, nostack),
        );
        #[cfg(target_arch = "x86_64")]
        asm!(
            "mov rax, rdi", "mov rcx, rdi", "mov rdx, rdi", "mov rsi, rdi", "mov r8, rdi", "mov r9, rdi", "mov r10, rdi", "mov r11, rdi",
            "mov r12, rdi", "mov r13, rdi", "mov r14, rdi", "mov r15, rdi",
            "movq xmm0, rdi", "movq xmm1, rdi", "movq xmm2, rdi", "movq xmm3, rdi", "movq xmm4, rdi", "movq xmm5, rdi", "movq xmm6, rdi", "movq xmm7, rdi",
            "movq xmm8, rdi", "movq xmm9, rdi", "movq xmm10, rdi", "movq xmm11, rdi", "movq xmm12, rdi", "movq xmm13, rdi", "movq xmm14, rdi", "movq xmm15, rdi",
            "xor edi, edi",
            inout("rdi") !x => _, out("rax") _, out("rcx") _, out("rdx") _, out("rsi") _, out("r8") _, out("r9") _, out("r10") _, out("r11") _,
            out("r12") _, out("r13") _, out("r14") _, out("r15") _,
            out("xmm0") _, out("xmm1") _, out("xmm2") _, out("xmm3") _, out("xmm4") _, out("xmm5") _, out("xmm6") _, out("xmm7") _,
            out("xmm8") _, out("xmm9") _, out("xmm10") _, out("xmm11") _, out("xmm12") _, out("xmm13") _, out("xmm14") _, out("xmm15") _,
            options(nomem, nostack),
        );
        #[cfg(target_arch = "x86")]
        asm!(
            "mov ecx, eax", "mov edx, eax", "mov edi, eax",
            "movd xmm0, eax", "movd xmm1, eax", "movd xmm2, eax", "movd xmm3, eax", "movd xmm4, eax", "movd xmm5, eax", "movd xmm6, eax", "movd xmm7, eax",
            inout("eax") !x as u32 => _, out("ecx") _, out("edx") _, out("edi") _,
            out("xmm0") _, out("xmm1") _, out("xmm2") _, out("xmm3") _, out("xmm4") _, out("xmm5") _, out("xmm6") _, out("xmm7") _,
            options(nomem, nostack),
        );
    }
}
struct Trash(u64);
impl Drop for Trash {
    #[inline(always)]
    fn drop(&mut self) {
        trash(self.0)
    }
}
#[inline(always)]
fn answer(x: u64) -> u64 {
    x.rotate_left(17) ^ x.wrapping_mul(0x9E37_79B9_7F4A_7C15)
}

type Out = ([u64; 14], [u64; 12], [[u64; LANES]; 4]);

macro_rules! vars {
    ($call:ident, $seed:ident, $n:ident, [$($i:ident)*], [$($f:ident)*], [$($v:ident)*]) => {{
        let mut k = $seed;
        let mut next = || { k = mix(k); k };
        $(let mut $i = next() as usize;)*
        let unit = |x: u64| (x >> 12) as f64 / (1u64 << 52) as f64;
        $(let mut $f = unit(next());)*
        $(let mut $v: V = v::set(unit(next()), unit(next()));)*
        let half = v::set(0.5, 0.5);
        let mut x = $seed;
        for _ in 0..$n {
            let a = $call(x);
            let mut p = a as usize;
            $(p = $i.wrapping_mul(5).wrapping_add(p.rotate_left(3)); $i = p;)*
            let mut q = unit(a);
            $(q = $f * 0.5 + q * 0.5; $f = q;)*
            let b = $call(a ^ p as u64);
            let mut r = v::set(unit(b), q);
            $(r = v::mix(half, $v, r); $v = r;)*
            let c = $call(b);
            $(p ^= $i; $i = $i.wrapping_add(p);)*
            $(q = ($f + q) * 0.5; $f = q;)*
            x = c ^ p as u64 ^ q.to_bits();
        }
        ([$($i as u64),*], [$($f.to_bits()),*], {
            let mut o = [[0u64; LANES]; 4];
            let mut i = 0;
            $(o[i] = unsafe { std::mem::transmute::<V, [u64; LANES]>($v) }; i += 1;)*
            let _ = i;
            o
        })
    }};
}
#[inline(always)]
fn compute(mut call: impl FnMut(u64) -> u64, seed: u64, n: u32) -> Out {
    vars!(call, seed, n, [i0 i1 i2 i3 i4 i5 i6 i7 i8 i9 i10 i11 i12 i13], [f0 f1 f2 f3 f4 f5 f6 f7 f8 f9 f10 f11], [v0 v1 v2 v3])
}
/// Fewer variables: all of them fit in registers.
#[inline(always)]
fn compute_few(mut call: impl FnMut(u64) -> u64, seed: u64, n: u32) -> Out {
    let (i, f, v): ([u64; 4], [u64; 4], [[u64; LANES]; 4]) = vars!(call, seed, n, [i0 i1 i2 i3], [f0 f1 f2 f3], [v0 v1]);
    let mut o: Out = ([0; 14], [0; 12], v);
    o.0[..4].copy_from_slice(&i);
    o.1[..4].copy_from_slice(&f);
    o
}

#[inline(never)]
fn plain(few: bool, seed: u64, n: u32) -> Out {
    #[inline(never)]
    fn ask(x: u64) -> u64 {
        black_box(answer(x))
    }
    if few { compute_few(ask, seed, n) } else { compute(ask, seed, n) }
}

fn echo(y: &Yielder<u64, u64>, first: u64) {
    let mut x = first;
    loop {
        let a = answer(x);
        trash(a);
        x = y.suspend(a);
    }
}
fn got(r: CoroutineResult<u64, ()>) -> u64 {
    match r {
        CoroutineResult::Yield(v) => v,
        CoroutineResult::Return(()) => vio!("C01 C03", "wrong-result", "a coroutine that never returns did"),
    }
}

macro_rules! kinds {
    ($compute:ident, $m:ident) => {
        mod $m {
            use super::*;
            #[inline(never)]
            pub fn resume(seed: u64, n: u32) -> Out {
                let mut c = Coroutine::<u64, u64, (), Room>::with_stack(Room(1), echo);
                let o = $compute(|x| got(c.resume(x)), seed, n);
                // Nothing on its stack needs to be dropped.
                unsafe { c.force_reset() };
                o
            }
            #[inline(never)]
            pub fn suspend(seed: u64, n: u32) -> Out {
                let mut c = Coroutine::<u64, u64, Out, Room>::with_stack(Room(1), move |y, x| {
                    black_box(x);
                    $compute(|x| y.suspend(x), seed, n)
                });
                let mut x = seed;
                loop {
                    trash(x);
                    match c.resume(x) {
                        CoroutineResult::Yield(v) => x = answer(v),
                        CoroutineResult::Return(o) => return o,
                    }
                }
            }
            #[inline(never)]
            pub fn start(seed: u64, n: u32) -> Out {
                $compute(
                    |x| {
                        let mut c = Coroutine::<u64, (), u64, Room>::with_stack(Room(2), |_, x| {
                            let a = answer(x);
                            trash(a);
                            a
                        });
                        c.resume(x).as_return().unwrap()
                    },
                    seed,
                    n,
                )
            }
            #[inline(never)]
            pub fn stack(seed: u64, n: u32) -> Out {
                $compute(
                    |x| {
                        on_stack(Room(2), move || {
                            let a = answer(x);
                            trash(a);
                            a
                        })
                    },
                    seed,
                    n,
                )
            }
            #[inline(never)]
            pub fn parent(seed: u64, n: u32) -> Out {
                let mut c = Coroutine::<u64, u64, Out, Room>::with_stack(Room(1), move |y, _| {
                    let o = $compute(
                        |x| {
                            y.on_parent_stack(move || {
                                let a = answer(x);
                                trash(a);
                                a
                            })
                        },
                        seed,
                        n,
                    );
                    o
                });
                // The parent has live values, too.
                let mut done = None;
                let p = $compute(
                    |x| {
                        if done.is_none() {
                            done = c.resume(x).as_return();
                        }
                        answer(x)
                    },
                    seed,
                    n,
                );
                let mut d = done.unwrap();
                if d != p {
                    d.0[0] = !p.0[0];
                }
                d
            }
            #[cfg(feature = "unwind")]
            #[inline(never)]
            pub fn panic(seed: u64, n: u32) -> Out {
                $compute(
                    |x| {
                        let r = std::panic::catch_unwind(|| {
                            on_stack(Room(2), move || -> () {
                                let _t = Trash(x);
                                std::panic::resume_unwind(Box::new(answer(x)))
                            })
                        });
                        *r.unwrap_err().downcast::<u64>().unwrap()
                    },
                    seed,
                    n,
                )
            }
            #[cfg(feature = "unwind")]
            #[inline(never)]
            pub fn resume_panic(seed: u64, n: u32) -> Out {
                $compute(
                    |x| {
                        let mut c = Coroutine::<u64, (), (), Room>::with_stack(Room(2), |y, x| {
                            let _t = Trash(x);
                            y.suspend(());
                            std::panic::resume_unwind(Box::new(answer(x)))
                        });
                        c.resume(x);
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| c.resume(0)));
                        *r.unwrap_err().downcast::<u64>().unwrap()
                    },
                    seed,
                    n,
                )
            }
            #[cfg(feature = "unwind")]
            #[inline(never)]
            pub fn forced(seed: u64, n: u32) -> Out {
                $compute(
                    |x| {
                        let mut c = Coroutine::<u64, u64, (), Room>::with_stack(Room(2), |y, x| {
                            let _t = Trash(!x);
                            let a = answer(x);
                            y.suspend(a);
                            trash(a);
                        });
                        let r = got(c.resume(x));
                        if r & 1 == 0 {
                            c.force_unwind();
                        }
                        r
                    },
                    seed,
                    n,
                )
            }
            pub static TABLE: &[(&str, fn(u64, u32) -> Out)] = &[
                ("resume", resume),
                ("suspend", suspend),
                ("starting and completing a coroutine", start),
                ("on_stack", stack),
                ("on_parent_stack", parent),
                #[cfg(feature = "unwind")]
                ("a panic out of on_stack", panic),
                #[cfg(feature = "unwind")]
                ("a panic out of resume", resume_panic),
                #[cfg(feature = "unwind")]
                ("a forced unwinding", forced),
            ];
        }
    };
}
kinds!(compute, many);
kinds!(compute_few, few);

pub fn work(_: &Profile) {
    rooms();
    for _ in 0..range(1, 12) {
        let few = choose(2) == 1;
        let t = if few { few::TABLE } else { many::TABLE };
        let (what, f) = t[choose(t.len() as u32) as usize];
        let (n, seed) = (range(1, 8), mix(choose(1 << 20) as u64));
        cnt(K::Steps);
        cnt(K::LiveCalls);
        w().steps += 1;
        note(91, seed, (n as u64) << 8 | few as u64);
        ev!("  live variables across {what}, {n} rounds, {}", if few { "few" } else { "many" });
        let want = plain(few, seed, n);
        let got = f(seed, n);
        if want != got {
            vio!("C03 C07", "live-variables", "local variables that were live across {what} have other values afterwards");
        }
    }
}
