//! What each property's check emphasises.
use crate::chooser::{chance, choose, range};
use crate::interp::{Op, NOPS};
use crate::shm::K;
use crate::world::*;
use crate::{interp, simvm, stacks, threads, trap, w_closure, w_live, w_long, w_trap, w_values};
#[cfg(feature = "default-stack")]
use crate::{w_overflow, w_stack};

pub struct Profile {
    pub prop: &'static str,
    pub work: fn(&Profile),
    pub boost: &'static [(Op, u32)],
    pub threads: u32,
    /// One in this many runs may end in an expected abort.
    pub abort: u32,
    /// Counters one of which must move for a run to count as non-trivial.
    pub rel: &'static [K],
    /// Operations this property is about in particular: a violation whose
    /// smallest history still needs one of them counts as one of this property.
    pub needs: &'static [K],
    /// Violations of any kind count: the property says "as if it were not there".
    pub any: bool,
}

const BASE: [(Op, u32); NOPS] = [
    (Op::Leave, 14),
    (Op::Create, 14),
    (Op::Resume, 30),
    (Op::Suspend, 18),
    (Op::SuspendHold, 4),
    (Op::ResumeHold, 4),
    (Op::Guard, 8),
    (Op::Catch, 6),
    (Op::OnStack, 5),
    (Op::OnParent, 5),
    (Op::Regs, 4),
    (Op::Plain, 4),
    (Op::Own, 4),
    (Op::Panic, 4),
    (Op::DropCo, 3),
    (Op::ForceUnwind, 4),
    (Op::IntoStack, 3),
    (Op::IntoStackRefused, 1),
    (Op::Reset, 1),
    (Op::Move, 3),
    (Op::Query, 3),
    (Op::ResumeDone, 1),
    (Op::Trap, 2),
    (Op::Backtrace, 1),
    (Op::Switch, 4),
    (Op::FailCreate, 1),
    (Op::Refused, 1),
    (Op::Bomb, 1),
    (Op::Abort, 6),
    (Op::Step, 0),
    (Op::Forget, 1),
    (Op::Scribble, 2),
    (Op::Strike, 0),
];

macro_rules! profile {
    ($p:literal, $w:expr, [$($o:ident $n:literal),*], $th:literal, $ab:literal, [$($k:ident),*], [$($q:ident),*], $any:literal) => {
        Profile { prop: $p, work: $w, boost: &[$((Op::$o, $n)),*], threads: $th, abort: $ab, rel: &[$(K::$k),*], needs: &[$(K::$q),*], any: $any }
    };
}

pub static PROFILES: &[Profile] = &[
    profile!("C01", values, [Suspend 30, SuspendHold 10, ResumeHold 10, ResumeDone 3, OnStack 3, Trap 1], 2, 0, [Suspend, Return], [], false),
    profile!("C02", histories, [Query 12, ResumeDone 6, IntoStackRefused 4, Reset 4, ForceUnwind 8, Move 6], 2, 0, [GuardProbe, ResumeDone, IntoStackRefused, ForceFail, Reset], [ResumeDone, IntoStackRefused, Reset], false),
    profile!("C03", contexts, [Regs 14, Plain 10, OnStack 8, OnParent 8, Resume 40, Backtrace 0], 2, 0, [Reparent, ForcedNested, OnParent, OnStack, LiveCalls], [], false),
    profile!("C04", histories, [Panic 14, Catch 12, Guard 10, OnStack 6, OnParent 6], 2, 0, [PanicCross, PanicOnStack, PanicOnParent], [Panic], false),
    profile!("C05", histories, [DropCo 10, ForceUnwind 8, Own 10, Guard 14, Bomb 4, OnStack 6], 2, 0, [DropSuspended, ForceSuspended, DropUnstarted, ForceUnstarted, OwnDrop, Bomb], [DropUnstarted, DropSuspended, ForceUnstarted, ForceSuspended, OwnDrop, Bomb], false),
    profile!("C06", core, [ForceUnwind 16, Catch 16, DropCo 6, Guard 8, Abort 20], 2, 12, [ForceFail, CatchForced, AbortDrop], [ForceFail, CatchForced, AbortDrop], false),
    profile!("C07", calls, [OnStack 18, OnParent 18, Panic 6, Plain 6, Regs 6], 2, 0, [OnStack, OnParent, LiveCalls], [OnStack, OnParent], false),
    profile!("C08", traps, [Trap 12, Regs 6, Query 6, Panic 6, IntoStack 10], 2, 0, [Trap], [Trap, AsyncTrap], false),
    profile!("C09", histories, [Backtrace 16, Regs 12, OnStack 8, OnParent 8, Trap 5, Resume 40], 3, 0, [Backtrace], [Backtrace], false),
    profile!("C10", core, [Backtrace 16, Regs 12, OnStack 8, OnParent 8, Trap 5, Resume 40], 3, 0, [FpWalk, FpSwitch], [FpWalk], false),
    #[cfg(feature = "default-stack")]
    profile!("C11", w_stack::work, [], 1, 0, [DefaultStk], [], false),
    #[cfg(feature = "default-stack")]
    profile!("C12", w_stack::work, [], 1, 0, [MmapFail, MprotectFail, OomArena, StackDrop], [MmapFail, MprotectFail, OomArena], false),
    profile!("C13", histories, [IntoStack 14, OnStack 10, DropCo 8, Trap 5, Reset 4, Panic 8, Refused 3], 2, 0, [StackReuse, RefStack, IntoStack], [StackReuse, IntoStack, RefStack], false),
    profile!("C14", core, [Strike 12, Switch 24, OnParent 8, Panic 8, ForceUnwind 6, Backtrace 3], 4, 0, [Migrate, LibSwitch], [], true),
    profile!("C15", histories, [Abort 16, ForceUnwind 8, OnStack 8, OnParent 6, Trap 4], 2, 12, [AbortPanic, AbortDrop, NoUnwindForce], [], true),
    profile!("C16", closures, [DropCo 10, Create 30, Bomb 4], 2, 0, [CapRefused, OveralignCap, DropUnstarted, Create], [CapRefused, OveralignCap], false),
    profile!("C17", core, [Step 10, Create 40, OnStack 6, OnParent 6, Panic 4], 2, 0, [StepWindows], [], true),
    profile!("C22", everything, [Panic 12, Catch 10, Guard 12, DropCo 8, ForceUnwind 8, OnStack 8, OnParent 8, Own 6, Trap 4, Backtrace 2, Regs 6], 2, 12, [PanicCross, PanicOnStack, PanicOnParent, DropSuspended, ForceSuspended, CatchForced, Trap, LiveCalls], [], true),
    #[cfg(feature = "default-stack")]
    profile!("C18", valgrind, [DropCo 8, OnStack 10, IntoStack 8, Panic 8, Reset 3], 1, 0, [VgStacks], [], false),
    #[cfg(feature = "default-stack")]
    profile!("C19", w_overflow::work, [], 1, 0, [Overflow], [Overflow], false),
];

fn traps(p: &Profile) {
    if choose(4) == 1 {
        w_trap::work(p);
    } else {
        core(p);
    }
}
#[cfg(feature = "default-stack")]
fn valgrind(p: &Profile) {
    crate::vg::enable();
    if choose(3) == 1 {
        core(p);
    } else {
        w_stack::work(p);
    }
    crate::vg::check_all("at the end");
    crate::vg::disable();
}
fn values(p: &Profile) {
    match choose(20) {
        1..=4 => w_values::work(p),
        5 => w_long::work(p),
        _ => core(p),
    }
}
fn calls(p: &Profile) {
    match choose(16) {
        1 | 2 => w_values::work(p),
        3 => w_live::work(p),
        4 => w_long::work(p),
        _ => core(p),
    }
}
fn contexts(p: &Profile) {
    match choose(16) {
        1 => w_live::work(p),
        2 => w_long::work(p),
        _ => core(p),
    }
}
fn histories(p: &Profile) {
    if choose(20) == 1 {
        w_long::work(p);
    } else {
        core(p);
    }
}
fn everything(p: &Profile) {
    match choose(24) {
        1 | 2 => w_values::work(p),
        3 => w_long::work(p),
        4 => w_live::work(p),
        5 => w_closure::work(p),
        6 => w_trap::work(p),
        _ => core(p),
    }
}
fn closures(p: &Profile) {
    if choose(4) == 1 {
        core(p);
    } else {
        w_closure::work(p);
    }
}

pub fn find(p: &str) -> Option<&'static Profile> {
    PROFILES.iter().find(|x| x.prop == p)
}

pub fn core(p: &Profile) {
    let w = w();
    let nt = if p.threads > 1 && choose(2) == 1 { range(2, p.threads) } else { 1 } as usize;
    w.max_steps = [40, 100, 250, 600][choose(4) as usize];
    w.chain_max = range(1, 6);
    w.abort_run = p.abort > 0 && chance(1, p.abort);
    let v = simvm::vm();
    v.place = choose(1000);
    w.weights = vec![0; NOPS];
    for (o, n) in BASE {
        w.weights[o as usize] = n;
    }
    for (o, n) in p.boost {
        w.weights[*o as usize] = *n;
    }
    // Swarm: each run has its own mix.
    for o in 0..NOPS {
        let keep = o == Op::Leave as usize || o == Op::Create as usize || o == Op::Resume as usize || o == Op::Suspend as usize || o == Op::Abort as usize || p.boost.iter().any(|b| b.0 as usize == o);
        match choose(4) {
            2 => w.weights[o] *= 3,
            3 if !keep => w.weights[o] = 0,
            _ => {}
        }
    }
    for t in 0..nt {
        let (lo, hi) = threads::bounds(t);
        w.th.push(Th { cur: t, finished: false, lo, hi });
        let mut s = Strand::default();
        s.regions.push(Region { lo, hi });
        s.st = St::Running;
        w.strands.push(Box::new(s));
    }
    stacks::reset();
    trap::reset_strikes();
    interp::run();
    trap::step_off();
    trap::reset_strikes();
}
