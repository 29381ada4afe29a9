//! C01, C07: values of every size class and alignment, up to far more than a
//! page, handed through every call that transfers one.
use crate::chooser::{choose, range};
use crate::profiles::Profile;
use crate::shm::{cnt, K};
use crate::world::{note, w};
use crate::{ev, vio};
use corosensei::stack::{Stack, StackPointer};
use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
use std::hint::black_box;
use std::panic::{catch_unwind, AssertUnwindSafe};

const SIZE: usize = 16 << 20;
static mut MEM: usize = 0;
static mut MADE: u32 = 0;
static mut DROPPED: u32 = 0;
static mut SALT: u64 = 0;

/// One of two stacks, large enough for debug builds to copy big values about.
#[derive(Clone, Copy)]
struct Wide(usize);
unsafe impl Stack for Wide {
    fn base(&self) -> StackPointer {
        StackPointer::new(self.limit().get() + SIZE).unwrap()
    }
    fn limit(&self) -> StackPointer {
        StackPointer::new(unsafe { MEM } + self.0 * SIZE).unwrap()
    }
}
fn wide(i: usize) -> Wide {
    unsafe {
        if MEM == 0 {
            let p = libc::mmap(std::ptr::null_mut(), 2 * SIZE + (64 << 10), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
            assert!(p != libc::MAP_FAILED);
            MEM = (p as usize + 0xffff) & !0xffff;
        }
    }
    Wide(i)
}

fn byte(id: u32, i: usize) -> u8 {
    let x = (unsafe { SALT } ^ id as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add((i as u64 >> 3).wrapping_mul(0xD134_2543_DE82_EF95));
    ((x ^ x >> 29) >> (8 * (i % 8))) as u8
}

#[inline(never)]
fn fill(p: *mut u8, n: usize, id: u32) {
    for i in 0..n {
        unsafe { *p.add(i) = byte(id, i) };
    }
}
#[inline(never)]
fn differs(b: &[u8], id: u32) -> Option<usize> {
    (0..b.len()).find(|&i| b[i] != byte(id, i))
}

pub trait Blob: Sized + 'static {
    const SIZE: usize;
    const ALIGN: usize;
    fn make(id: u32) -> Self;
    /// The first wrong byte, if this is not the value `make(id)` returned.
    fn wrong(&self, id: u32) -> Option<String>;
}

macro_rules! blob {
    ($($name:ident $a:literal),*) => {$(
        #[repr(C, align($a))]
        pub struct $name<const N: usize>([std::mem::MaybeUninit<u8>; N]);
        impl<const N: usize> Blob for $name<N> {
            const SIZE: usize = std::mem::size_of::<Self>();
            const ALIGN: usize = $a;
            #[inline(never)]
            fn make(id: u32) -> Self {
                unsafe { MADE += 1 };
                let mut b = std::mem::MaybeUninit::<Self>::uninit();
                unsafe {
                    fill(b.as_mut_ptr() as *mut u8, N, id);
                    b.assume_init()
                }
            }
            #[inline(never)]
            fn wrong(&self, id: u32) -> Option<String> {
                let at = black_box(self as *const Self as usize);
                if at % $a != 0 {
                    return Some(format!("is at an address not aligned to {}", $a));
                }
                let i = differs(unsafe { &*(&self.0 as *const _ as *const [u8; N]) }, id)?;
                Some(format!("is wrong from byte {i} of {N}"))
            }
        }
        impl<const N: usize> Drop for $name<N> {
            #[inline(never)]
            fn drop(&mut self) {
                unsafe { DROPPED += 1 };
            }
        }
    )*};
}

/// The same made of words, for sizes that would keep the compiler busy for minutes.
#[repr(C)]
pub struct W8<const N: usize>([u64; N]);
impl<const N: usize> Blob for W8<N> {
    const SIZE: usize = 8 * N;
    const ALIGN: usize = std::mem::align_of::<u64>();
    #[inline(never)]
    fn make(id: u32) -> Self {
        unsafe { MADE += 1 };
        let mut b = std::mem::MaybeUninit::<Self>::uninit();
        unsafe {
            fill(b.as_mut_ptr() as *mut u8, 8 * N, id);
            b.assume_init()
        }
    }
    #[inline(never)]
    fn wrong(&self, id: u32) -> Option<String> {
        let i = differs(unsafe { std::slice::from_raw_parts(self as *const Self as *const u8, 8 * N) }, id)?;
        Some(format!("is wrong from byte {i} of {}", 8 * N))
    }
}
impl<const N: usize> Drop for W8<N> {
    #[inline(never)]
    fn drop(&mut self) {
        unsafe { DROPPED += 1 };
    }
}
blob!(B1 1, B2 2, B4 4, B8 8, B16 16, B64 64, B512 512, B4K 4096);

#[track_caller]
fn arrived<B: Blob>(b: &B, id: u32, tags: &'static str, what: &str) {
    if let Some(e) = b.wrong(id) {
        vio!(tags, "wrong-value", "{what} ({} bytes aligned to {}) {e}", B::SIZE, B::ALIGN);
    }
}
fn live(want: u32, tags: &'static str, what: &str) {
    let (m, d) = unsafe { (MADE, DROPPED) };
    if m.wrapping_sub(d) != want {
        vio!(tags, "drops", "{what}: {m} values made and {d} dropped, {want} should be live");
    }
}

/// How the body ends after its suspensions.
#[derive(Clone, Copy, PartialEq, Debug)]
enum End {
    Return,
    Panic,
    Dropped,
    Forced,
    Reset,
}

static mut PLAN: (u32, End, u32) = (0, End::Return, 0);

#[inline(never)]
fn through_parent<Y: Blob>(y: &Yielder<impl Sized, Y>, v: Y, id: u32) -> Y {
    struct S<T>(T);
    unsafe impl<T> Send for S<T> {}
    cnt(K::OnParent);
    let s = S(v);
    let r = y.on_parent_stack(move || {
        let s = s;
        arrived(&s.0, id, "C01 C07", "a value captured by an on_parent_stack closure");
        s
    });
    arrived(&r.0, id, "C01 C07", "a value returned by on_parent_stack");
    r.0
}

#[inline(never)]
fn through_stack<Y: Blob>(v: Y, id: u32) -> Y {
    cnt(K::OnStack);
    let r = on_stack(wide(1), move || {
        let v = v;
        arrived(&v, id, "C01 C07", "a value captured by an on_stack closure");
        v
    });
    arrived(&r, id, "C01 C07", "a value returned by on_stack");
    r
}

#[inline(never)]
fn body<I: Blob, Y: Blob, R: Blob>(y: &Yielder<I, Y>, first: I) -> R {
    let (n, end, detours) = unsafe { PLAN };
    arrived(&first, 1000, "C01", "the first input");
    let mut held = first;
    for i in 0..n {
        let mut v = Y::make(2000 + i);
        if detours >> (2 * i) & 1 == 1 {
            v = through_parent(y, v, 2000 + i);
        }
        if detours >> (2 * i) & 2 == 2 {
            v = through_stack(v, 2000 + i);
        }
        cnt(K::Suspend);
        let x = y.suspend(v);
        arrived(&x, 1001 + i, "C01", "an input");
        arrived(&held, 1000 + i, "C01 C03", "an input kept on the coroutine's stack");
        held = x;
    }
    if end == End::Panic {
        std::panic::resume_unwind(Box::new(n));
    }
    drop(held);
    R::make(3000)
}

fn trial<I: Blob, Y: Blob, R: Blob>() {
    let n = choose(5);
    let mut end = [End::Return, End::Panic, End::Dropped, End::Forced, End::Reset][choose(5) as usize];
    if !cfg!(feature = "unwind") && matches!(end, End::Panic | End::Dropped | End::Forced) {
        end = End::Return;
    }
    let detours = choose(1 << (2 * n));
    unsafe {
        PLAN = (n, end, detours);
        SALT = choose(1 << 16) as u64;
        MADE = 0;
        DROPPED = 0;
    }
    cnt(K::Steps);
    cnt(K::Create);
    w().steps += 1;
    note(90, (I::SIZE as u64) << 40 | (Y::SIZE as u64) << 20 | R::SIZE as u64, (n as u64) << 32 | (end as u64) << 16 | detours as u64);
    ev!("  values: input {} bytes, yield {} bytes, return {} bytes; {n} suspensions, detours {detours:#x}, then {end:?}", I::SIZE, Y::SIZE, R::SIZE);
    let mut c = Coroutine::<I, Y, R, Wide>::with_stack(wide(0), body::<I, Y, R>);
    let mut i = 0;
    loop {
        if i == n && matches!(end, End::Dropped | End::Forced | End::Reset) && n > 0 {
            break;
        }
        let input = I::make(1000 + i);
        let r = catch_unwind(AssertUnwindSafe(|| c.resume(input)));
        match r {
            Ok(CoroutineResult::Yield(v)) if i < n => {
                arrived(&v, 2000 + i, "C01", "a yielded value");
                // The kept input and what was yielded.
                live(2, "C01", "after a suspension");
            }
            Ok(CoroutineResult::Return(v)) if i == n && end != End::Panic => {
                arrived(&v, 3000, "C01", "a returned value");
                live(1, "C01", "after the coroutine returned");
                cnt(K::Return);
                drop(v);
                break;
            }
            Err(p) if i == n && end == End::Panic => {
                if p.downcast_ref::<u32>() != Some(&n) {
                    vio!("C04", "wrong-payload", "another panic came out of resume");
                }
                cnt(K::PanicCross);
                break;
            }
            _ => vio!("C01 C02", "wrong-result", "resume number {i} of a body with {n} suspensions gave the wrong kind of result"),
        }
        i += 1;
    }
    if !c.done() {
        live(1, "C01", "while suspended");
        match end {
            End::Forced => {
                cnt(K::ForceSuspended);
                c.force_unwind();
            }
            End::Reset => {
                cnt(K::Reset);
                unsafe { c.force_reset() };
                // The input on the abandoned stack is never dropped.
                live(1, "C01", "after a reset");
                unsafe { DROPPED += 1 };
            }
            _ => {
                cnt(K::DropSuspended);
                drop(c);
                live(0, "C01 C05", "after the coroutine was dropped");
                return;
            }
        }
    }
    live(0, "C01", "after the coroutine ended");
    if !c.done() {
        vio!("C02 C01", "state", "an ended coroutine is not done");
    }
    if choose(2) == 1 {
        cnt(K::RefusedResumeVal);
        let input = I::make(5000);
        if catch_unwind(AssertUnwindSafe(|| c.resume(input))).is_ok() {
            vio!("C02 C01", "resumed-completed", "a completed coroutine was resumed");
        }
        live(0, "C01", "after a refused resume");
    }
    drop(c);
    live(0, "C01", "after the coroutine was dropped");
}

macro_rules! table {
    ($($i:ident $n:literal $y:ident $m:literal $r:ident $o:literal;)*) => {
        static TABLE: &[fn()] = &[$(trial::<$i<$n>, $y<$m>, $r<$o>>,)*];
    };
}
table! {
    B1 0 B64 0 B1 96;
    B1 1 B64 64 B1 31;
    B1 2 B1 17 W8 1025;
    B1 3 B1 23 B1 3;
    B1 4 B8 16 B1 1024;
    B1 5 W8 4096 B1 15;
    B1 6 W8 5001 B8 8;
    B1 7 B4 12 B2 2;
    B1 8 B1 47 W8 5001;
    B1 9 B1 24 B1 1025;
    B1 10 B1 2047 W8 4096;
    B1 11 B1 1 B4 12;
    B1 12 B1 1024 B1 25;
    B1 13 B1 15 B4 4;
    B1 15 B1 2 B1 2047;
    B1 16 B4K 96 B1 5;
    B1 17 B512 512 B512 512;
    B1 20 W8 12501 B1 511;
    B1 23 B1 511 B1 9;
    B1 24 B1 12 B2 6;
    B1 25 B1 32 B1 20;
    B1 31 B1 65 B1 8;
    B1 32 W8 512 B1 63;
    B1 33 B1 25 B1 4;
    B1 40 B1 31 W8 511;
    B1 47 W8 1025 B1 24;
    B1 48 W8 8192 B1 256;
    B1 63 B16 48 B1 10;
    B1 64 B1 9 B1 200;
    B1 65 B1 5 B1 127;
    B1 96 B1 63 B1 13;
    B1 127 B1 1025 W8 513;
    B1 128 B1 129 B1 23;
    B1 129 W8 513 W8 8192;
    B1 200 B1 255 B1 6;
    B1 255 W8 2048 B1 1023;
    B1 256 B1 257 B1 17;
    B1 257 B1 1023 B1 129;
    B1 511 B1 64 B1 513;
    B1 512 B1 513 B16 48;
    B1 513 B1 512 B16 0;
    B1 1023 B1 8 B1 65;
    B1 1024 B1 4 B1 16;
    B1 1025 B8 24 B64 0;
    B1 2047 B16 0 B1 12;
    W8 256 B1 11 B1 512;
    W8 511 B1 20 B1 11;
    W8 512 B1 48 W8 256;
    W8 513 B1 13 B16 16;
    W8 1025 W8 511 B1 64;
    W8 2048 B1 0 B1 0;
    W8 4096 B2 6 B1 257;
    W8 5001 B1 256 B1 40;
    W8 8192 B16 16 B4K 96;
    W8 12501 B1 200 B1 48;
    B2 2 B1 40 W8 2048;
    B2 6 B1 16 B1 255;
    B4 4 B2 2 B1 1;
    B4 12 B1 96 B1 47;
    B8 8 B1 33 W8 12501;
    B8 16 B1 7 B64 64;
    B8 24 B1 10 W8 512;
    B16 0 B4 4 B64 320;
    B16 16 B1 6 B1 2;
    B16 48 B1 127 B1 128;
    B64 0 B8 8 B1 7;
    B64 64 B1 3 B1 32;
    B64 320 B64 320 B8 16;
    B512 512 W8 256 B8 24;
    B4K 96 B1 128 B1 33;
}

pub fn work(_: &Profile) {
    for _ in 0..range(1, 10) {
        TABLE[choose(TABLE.len() as u32) as usize]();
    }
}
