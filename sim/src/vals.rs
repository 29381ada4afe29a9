//! Value types that travel through the library: every size class around the
//! machine word, alignments, niches, and types whose drops are counted.
use crate::chooser::mix;
use crate::world::{val_drop, zst_drop};
use std::num::{NonZeroU32, NonZeroU64, NonZeroU8};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    /// Plain data: only its content can be checked.
    Plain,
    /// Registers its own drop under its id.
    Tracked,
    /// Zero-sized with a counted drop.
    Zst,
}

pub trait Val: Sized + 'static {
    const KIND: Kind;
    fn make(id: u64) -> Self;
    /// True if this is exactly the value `make(id)` returned.
    fn check(&self, id: u64) -> bool;
}

fn byte(id: u64, i: usize) -> u8 {
    (mix(id.wrapping_mul(0x1_0001) ^ (i as u64 / 8)) >> (8 * (i % 8))) as u8
}
fn word(id: u64) -> u64 {
    mix(id ^ 0x5151_0000_0000)
}

macro_rules! plain {
    ($t:ty, $id:ident => $make:expr) => {
        impl Val for $t {
            const KIND: Kind = Kind::Plain;
            #[inline(never)]
            fn make($id: u64) -> Self {
                $make
            }
            #[inline(never)]
            fn check(&self, $id: u64) -> bool {
                let want: $t = $make;
                *self == want
            }
        }
    };
}

plain!((), _id => ());
plain!(u8, id => word(id) as u8);
plain!(bool, id => word(id) & 1 == 1);
plain!(u16, id => word(id) as u16);
plain!(u32, id => word(id) as u32);
plain!(u64, id => word(id));
plain!(u128, id => (word(id) as u128) << 64 | word(!id) as u128);
plain!(usize, id => word(id) as usize);
plain!(char, id => char::from_u32((word(id) % 0xD000) as u32).unwrap());
plain!(Option<NonZeroU32>, id => NonZeroU32::new(if word(id) % 4 == 0 { 0 } else { word(id) as u32 }));
plain!(Option<NonZeroU64>, id => NonZeroU64::new(if word(id) % 4 == 0 { 0 } else { word(id) }));
plain!(NonZeroU8, id => NonZeroU8::new(word(id) as u8 | 1).unwrap());
plain!((u8, u64), id => (byte(id, 0), word(id)));
plain!((u32, u8), id => (word(id) as u32, byte(id, 1)));
plain!((u16, u8, u32), id => (word(id) as u16, byte(id, 3), word(!id) as u32));
plain!(Result<u64, u8>, id => if word(id) % 2 == 0 { Ok(word(!id)) } else { Err(byte(id, 2)) });
plain!(Option<Option<bool>>, id => match word(id) % 4 { 0 => None, 1 => Some(None), 2 => Some(Some(false)), _ => Some(Some(true)) });
plain!(String, id => format!("value {id} {}", word(id)));
plain!(Vec<u32>, id => (0..(word(id) % 9) as u32).map(|i| i ^ word(id) as u32).collect());
plain!(Option<Box<u64>>, id => if word(id) % 4 == 0 { None } else { Some(Box::new(word(id))) });
plain!(Result<u64, String>, id => if word(id) % 2 == 0 { Ok(word(!id)) } else { Err(format!("e{id}")) });

impl Val for f64 {
    const KIND: Kind = Kind::Plain;
    fn make(id: u64) -> Self {
        f64::from_bits(word(id) & !(0x7ff << 52) | 0x3ff << 52)
    }
    fn check(&self, id: u64) -> bool {
        self.to_bits() == f64::make(id).to_bits()
    }
}

impl<const N: usize> Val for [u8; N] {
    const KIND: Kind = Kind::Plain;
    #[inline(never)]
    fn make(id: u64) -> Self {
        let mut a = [0; N];
        for i in 0..N {
            a[i] = byte(id, i);
        }
        a
    }
    #[inline(never)]
    fn check(&self, id: u64) -> bool {
        (0..N).all(|i| self[i] == byte(id, i))
    }
}

/// Every bit pattern is legal, none is initialised from the compiler's point
/// of view.
pub type Mu<const N: usize> = std::mem::MaybeUninit<[u8; N]>;
impl<const N: usize> Val for Mu<N> {
    const KIND: Kind = Kind::Plain;
    fn make(id: u64) -> Self {
        std::mem::MaybeUninit::new(<[u8; N]>::make(id))
    }
    fn check(&self, id: u64) -> bool {
        unsafe { self.assume_init_ref().check(id) }
    }
}

static STATICS: [u64; 64] = {
    let mut a = [0u64; 64];
    let mut i = 0;
    while i < 64 {
        a[i] = i as u64 * 0x0101_0101;
        i += 1;
    }
    a
};
plain!(&'static u64, id => &STATICS[(word(id) % 64) as usize]);
plain!(Option<&'static u64>, id => if word(id) % 4 == 0 { None } else { Some(&STATICS[(word(id) % 64) as usize]) });

/// Zero-sized, drop counted.
pub struct Z;
impl Drop for Z {
    fn drop(&mut self) {
        zst_drop();
    }
}
impl Val for Z {
    const KIND: Kind = Kind::Zst;
    fn make(_: u64) -> Self {
        Z
    }
    fn check(&self, _: u64) -> bool {
        true
    }
}

/// Zero-sized, over-aligned, drop counted; checks its own address.
#[repr(align(64))]
pub struct Za;
impl Drop for Za {
    fn drop(&mut self) {
        if self as *const _ as usize % 64 != 0 {
            crate::vio!("C01 C16", "misaligned", "zero-sized value aligned to 64 dropped at a misaligned address");
        }
        zst_drop();
    }
}
impl Val for Za {
    const KIND: Kind = Kind::Zst;
    fn make(_: u64) -> Self {
        Za
    }
    fn check(&self, _: u64) -> bool {
        self as *const _ as usize % 64 == 0
    }
}

/// 4 + N bytes, drop tracked.
#[repr(C)]
pub struct Tr<const N: usize> {
    id: u32,
    pad: [u8; N],
}
impl<const N: usize> Drop for Tr<N> {
    fn drop(&mut self) {
        val_drop(self.id as u64, self.ok());
    }
}
impl<const N: usize> Tr<N> {
    pub fn id(&self) -> u64 {
        self.id as u64
    }
    fn ok(&self) -> bool {
        (0..N).all(|i| self.pad[i] == byte(self.id as u64, i))
    }
}
impl<const N: usize> Val for Tr<N> {
    const KIND: Kind = Kind::Tracked;
    #[inline(never)]
    fn make(id: u64) -> Self {
        let mut t = Tr { id: id as u32, pad: [0; N] };
        for i in 0..N {
            t.pad[i] = byte(id, i);
        }
        t
    }
    #[inline(never)]
    fn check(&self, id: u64) -> bool {
        self.id as u64 == id && self.ok()
    }
}

macro_rules! aligned {
    ($n:ident, $a:literal) => {
        #[repr(C, align($a))]
        pub struct $n<const N: usize> {
            me: [u8; N],
            t: Tr<4>,
        }
        impl<const N: usize> Val for $n<N> {
            const KIND: Kind = Kind::Tracked;
            fn make(id: u64) -> Self {
                $n { me: <[u8; N]>::make(id), t: Tr::make(id) }
            }
            fn check(&self, id: u64) -> bool {
                std::hint::black_box(self as *const _ as usize) % $a == 0
                    && self.me.check(id)
                    && self.t.check(id)
            }
        }
    };
}
aligned!(A16, 16);
aligned!(A32, 32);
aligned!(A64, 64);
aligned!(A128, 128);
aligned!(A256, 256);

macro_rules! wrap {
    ($t:ty, $id:ident, $s:ident => $make:expr, $check:expr) => {
        impl Val for $t {
            const KIND: Kind = Kind::Tracked;
            fn make($id: u64) -> Self {
                $make
            }
            fn check(&self, $id: u64) -> bool {
                let $s = self;
                $check
            }
        }
    };
}
wrap!(Box<Tr<0>>, id, s => Box::new(Tr::make(id)), (**s).check(id));
wrap!(Option<Tr<0>>, id, s => Some(Tr::make(id)), s.as_ref().map_or(false, |t| t.check(id)));
wrap!(std::sync::Arc<Tr<12>>, id, s => std::sync::Arc::new(Tr::make(id)), (**s).check(id) && std::sync::Arc::strong_count(s) == 1);
wrap!(Result<Tr<0>, u64>, id, s => Ok(Tr::make(id)), s.as_ref().map_or(false, |t| t.check(id)));
wrap!((u8, Tr<1>), id, s => (byte(id, 9), Tr::make(id)), s.0 == byte(id, 9) && s.1.check(id));
wrap!(Box<dyn FnOnce() -> u64 + Send>, id, s => { let t = Tr::<20>::make(id); Box::new(move || { let t = t; t.id as u64 }) }, { let _ = s; true });

/// All types, in the order the combinations in combos.rs refer to.
pub type T00 = ();
pub type T01 = u8;
pub type T02 = Z;
pub type T03 = u64;
pub type T04 = Tr<0>;
pub type T05 = [u8; 9];
pub type T06 = Tr<4>;
pub type T07 = Box<Tr<0>>;
pub type T08 = bool;
pub type T09 = A64<8>;
pub type T10 = u32;
pub type T11 = [u8; 3];
pub type T12 = [u8; 7];
pub type T13 = [u8; 8];
pub type T14 = Za;
pub type T15 = u128;
pub type T16 = Tr<12>;
pub type T17 = String;
pub type T18 = Option<NonZeroU32>;
pub type T19 = [u8; 4];
pub type T20 = [u8; 5];
pub type T21 = (u8, u64);
pub type T22 = Tr<196>;
pub type T23 = A16<4>;
pub type T24 = Option<Tr<0>>;
pub type T25 = f64;
pub type T26 = [u8; 16];
pub type T27 = [u8; 17];
pub type T28 = Result<u64, u8>;
pub type T29 = Vec<u32>;
pub type T30 = A256<16>;
pub type T31 = Option<Box<u64>>;
pub type T32 = Mu<8>;
pub type T33 = [u8; 512];
pub type T34 = std::sync::Arc<Tr<12>>;
pub type T35 = &'static u64;
pub type T36 = (u16, u8, u32);
pub type T37 = A128<8>;
pub type T38 = Option<Option<bool>>;
pub type T39 = Tr<1>;
pub type T40 = Result<u64, String>;
pub type T41 = [u8; 100];
pub type T42 = A32<20>;
pub type T43 = usize;
pub type T44 = Box<dyn FnOnce() -> u64 + Send>;
pub type T45 = Option<&'static u64>;
pub type T46 = [u8; 2048];
pub type T47 = Result<Tr<0>, u64>;
pub type T48 = [u8; 1000];
pub type T49 = char;
pub type T50 = Mu<4>;
pub type T51 = (u8, Tr<1>);
pub type T52 = NonZeroU8;
