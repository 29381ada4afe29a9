//! The single source of every decision. A run is a pure function of the code
//! and of the values produced here.
use crate::shm::{shm, MAX_CHOICES};
use std::sync::atomic::Ordering::*;

pub struct Chooser {
    s: [u64; 4],
    replay: Option<Vec<u32>>,
    n: usize,
    verbose: bool,
}

static mut CH: Chooser = Chooser { s: [1, 2, 3, 4], replay: None, n: 0, verbose: false };

#[allow(static_mut_refs)]
fn ch() -> &'static mut Chooser {
    unsafe { &mut CH }
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn init(seed: u64, replay: Option<Vec<u32>>, verbose: bool) {
    let c = ch();
    let mut z = seed;
    for i in 0..4 {
        z = mix(z ^ (i as u64 + 1));
        c.s[i] = z;
    }
    c.replay = replay;
    c.n = 0;
    c.verbose = verbose;
    shm().n_choices.store(0, SeqCst);
}

pub fn verbose() -> bool {
    ch().verbose
}

fn next() -> u64 {
    let s = &mut ch().s;
    let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
    let t = s[1] << 17;
    s[2] ^= s[0];
    s[3] ^= s[1];
    s[1] ^= s[2];
    s[0] ^= s[3];
    s[2] ^= t;
    s[3] = s[3].rotate_left(45);
    r
}

/// Draws a value in 0..n. 0 is always the simplest alternative, so that
/// shrinking (dropping and zeroing choices) simplifies the run.
pub fn choose(n: u32) -> u32 {
    debug_assert!(n > 0);
    let c = ch();
    let i = c.n;
    c.n += 1;
    let v = match &c.replay {
        Some(r) => {
            if i < r.len() {
                r[i] % n
            } else {
                0
            }
        }
        None => (next() % n as u64) as u32,
    };
    if i < MAX_CHOICES {
        shm().choices[i] = v;
        shm().n_choices.store(i as u32 + 1, Relaxed);
    }
    v
}

pub fn range(lo: u32, hi: u32) -> u32 {
    lo + choose(hi - lo + 1)
}

/// True with probability num/den; false is the simple alternative.
pub fn chance(num: u32, den: u32) -> bool {
    choose(den) >= den - num
}

pub fn exhausted() -> bool {
    ch().n >= MAX_CHOICES - 1024
}

pub fn log_line(s: &str) {
    let mut b = s.as_bytes().to_vec();
    b.push(b'\n');
    unsafe {
        libc::write(1, b.as_ptr() as *const _, b.len());
    }
}

#[macro_export]
macro_rules! ev {
    ($($a:tt)*) => {
        if $crate::chooser::verbose() { $crate::chooser::log_line(&format!($($a)*)); }
    };
}
