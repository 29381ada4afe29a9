//! The workload: every strand (a thread or a coroutine) runs `exec`, which
//! keeps asking the simulation what to do next.
use crate::chooser::{chance, choose, range};
use crate::coro::{self, DynCoro, Port};
use crate::shm::{cnt, shm, K};
use crate::stacks::{self, AnyStack};
use crate::vals::{Kind, Val};
use crate::world::*;
use crate::{bt, ev, simvm, threads, trap, vio, with_combo};
use std::any::Any;
use crate::trap::caught;
use std::panic::{panic_any, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::*;

pub const UNWIND: bool = cfg!(feature = "unwind");
pub const ASM: bool = cfg!(feature = "asm-unwind");

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Normal,
    /// In a destructor while the strand unwinds.
    Cleanup,
}

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(u32)]
pub enum Op {
    Leave,
    Create,
    Resume,
    Suspend,
    SuspendHold,
    ResumeHold,
    Guard,
    Catch,
    OnStack,
    OnParent,
    Regs,
    Plain,
    Own,
    Panic,
    DropCo,
    ForceUnwind,
    IntoStack,
    IntoStackRefused,
    Reset,
    Move,
    Query,
    ResumeDone,
    Trap,
    Backtrace,
    Switch,
    FailCreate,
    Refused,
    Bomb,
    Abort,
    Step,
    Forget,
    Scribble,
    Strike,
    N,
}
pub const NOPS: usize = Op::N as usize;

// ---- frames -----------------------------------------------------------------

/// One live object on a strand, in step with the model's shadow stack.
pub struct FrameGuard {
    s: Sid,
    idx: usize,
    f: Frame,
    region: bool,
    popped: bool,
}
impl FrameGuard {
    pub fn push(s: Sid, f: Frame) -> FrameGuard {
        let t = st(s);
        t.shadow.push(f);
        FrameGuard { s, idx: t.shadow.len() - 1, f, region: false, popped: false }
    }
    pub fn push_region(s: Sid, f: Frame, r: Region) -> FrameGuard {
        let mut g = FrameGuard::push(s, f);
        st(s).regions.push(r);
        g.region = true;
        g
    }
    pub fn idx(&self) -> usize {
        self.idx
    }
    pub fn pop(mut self) {
        self.popped = true;
    }
}
impl Drop for FrameGuard {
    fn drop(&mut self) {
        trap::lib_leave();
        let t = st(self.s);
        if shm().expect_abort.load(SeqCst) == 2 && (w().abort_at.0 != self.s || self.idx.wrapping_add(1) <= w().abort_at.1.wrapping_add(1)) {
            vio!("C15", "no-abort", "a panic went on beyond the point where the process should have aborted");
        }
        if t.shadow.len() != self.idx + 1 || t.shadow[self.idx] != self.f {
            vio!(
                "C04 C05 C03 C08",
                "drop-order",
                "strand {}: {:?} (object {}) goes away out of order; live objects: {:?}",
                self.s, self.f, self.idx, t.shadow
            );
        }
        t.shadow.pop();
        if self.region {
            t.regions.pop();
        }
        if let Frame::OnStack(k) = self.f {
            if w().stacks[k].used != StackUse::Released {
                vio!("C07 C13", "not-released", "on_stack is over but has not released its stack {k} ({:?})", w().stacks[k].used);
            }
            check_unmapped(k);
        }
        if !self.popped && !t.unw.is_empty() {
            trap::lib_unwinds();
        }
    }
}

fn check_unmapped(k: usize) {
    if let Some(m) = w().stacks[k].mapping {
        if simvm::vm().maps[m as usize].live {
            vio!("C12 C13", "still-mapped", "stack {k} was released but its memory is still mapped");
        }
    }
}

fn local() -> usize {
    let x = 0u8;
    std::hint::black_box(&x) as *const u8 as usize
}

/// Control arrived in code of strand `s` on its current stack.
pub fn wake_checks(s: Sid, addr: usize) {
    trap::lib_leave();
    if cur() != s {
        vio!("C03 C02", "wrong-context", "code of strand {s} runs, expected strand {}", cur());
    }
    if !in_region(s, addr) {
        vio!("C03 C07 C08", "wrong-stack", "strand {s} runs at {addr:#x}, outside its stack {:x?}", st(s).regions.last().unwrap());
    }
    expecting_abort();
}
pub fn back_checks(s: Sid, addr: usize) {
    wake_checks(s, addr);
}

fn expecting_abort() {
    match shm().expect_abort.load(SeqCst) {
        // 1: the process will abort once the drop under way has failed.
        0 | 1 => {}
        _ => vio!("C15", "no-abort", "control came back although the process should have aborted"),
    }
}

pub fn before_yield(s: Sid) {
    if st(s).forced == Forced::DropAbort {
        shm().expect_abort.store(1, SeqCst);
    }
}
pub fn body_end(s: Sid) {
    let t = st(s);
    if !t.shadow.is_empty() || !t.unw.is_empty() {
        vio!("C03 C04", "unbalanced", "coroutine {s} ends with {:?} live and {:?} unwinding", t.shadow, t.unw);
    }
}

/// Leaving `resume` by unwinding.
pub struct ResumeWatch {
    pub me: Sid,
    pub by: Sid,
    pub id: u64,
    pub co: Option<*const dyn DynCoro>,
}
impl Drop for ResumeWatch {
    fn drop(&mut self) {
        trap::lib_leave();
        let (me, by) = (self.me, self.by);
        expecting_abort();
        if cur() != me {
            vio!("C03 C04", "wrong-context", "a panic came out of resume of {me} while strand {} was running", cur());
        }
        let u = ended_by_panic(me);
        set_cur(by);
        if !in_region(by, local()) {
            vio!("C04 C03", "wrong-stack", "a panic continues outside the stack of its resumer {by}");
        }
        cnt(K::PanicCross);
        ev!("  [{by}] resume of {me} panics with {u:?}");
        st(by).unw.push(u);
        if let Some(co) = self.co {
            if unsafe { !(*co).done() } {
                vio!("C02 C04", "not-done", "coroutine {me} panicked but does not report done");
            }
        }
        trap::lib_unwinds();
    }
}

/// The coroutine's body is over by a panic: its objects must be gone.
fn ended_by_panic(me: Sid) -> U {
    let t = st(me);
    if t.st != St::Running || !t.started {
        vio!("C04 C02", "stray-panic", "coroutine {me} panicked although it is {:?}", t.st);
    }
    if !t.shadow.is_empty() {
        vio!("C04 C05", "not-unwound", "a panic left coroutine {me} while {:?} are still live on it", t.shadow);
    }
    let Some(u) = t.unw.pop() else {
        vio!("C04 C02", "stray-panic", "coroutine {me} panicked although nothing in it did");
    };
    t.st = St::Done;
    t.out = Out::None;
    expect_gone(me);
    u
}

/// The captured state does not outlive the body. (The frame guard of the
/// body has checked the drop itself.)
fn expect_gone(me: Sid) {
    let v = &w().vals[st(me).cap as usize];
    if v.kind == Kind::Tracked && v.st == ValSt::Live {
        vio!("C05 C16 C04", "capture-not-dropped", "coroutine {me} has ended but its captured state is still alive");
    }
}

/// `resume` returned normally.
pub fn after_return(me: Sid, by: Sid, addr: usize, _id: u64) {
    expecting_abort();
    if cur() != me {
        vio!("C03", "wrong-context", "resume of {me} by {by} returned while strand {} was running", cur());
    }
    let t = st(me);
    match (t.st, t.out) {
        (St::Susp, Out::Yield(_)) => {}
        (St::Running, Out::Ret(_)) => {
            if !t.shadow.is_empty() {
                vio!("C03 C05", "not-unwound", "coroutine {me} returned while {:?} are still live on it", t.shadow);
            }
            t.st = St::Done;
            expect_gone(me);
        }
        x => vio!("C02 C03", "stray-return", "resume of coroutine {me} returned, but the coroutine is {x:?}"),
    }
    set_cur(by);
    if !in_region(by, addr) {
        vio!("C03", "wrong-stack", "strand {by} continues at {addr:#x}, outside its stack {:x?}", st(by).regions.last().unwrap());
    }
}

/// Bookkeeping for control passing from `by` to `me`.
fn enter(me: Sid, by: Sid) {
    let th = w().cur_th;
    let t = st(me);
    if t.started && t.thread != th {
        t.migrations += 1;
        cnt(K::Migrate);
    }
    if t.started && t.resumer != by {
        t.resumers += 1;
        cnt(K::Reparent);
    }
    t.thread = th;
    t.resumer = by;
    t.resumer_sp = local();
    t.st = St::Running;
    w().switches += 1;
    set_cur(me);
}

/// Calls into coroutine `c`, whose object stays where it is.
fn obj(c: Sid) -> *const dyn DynCoro {
    &**st(c).obj.as_ref().unwrap()
}

pub fn check_state(c: Sid) {
    let t = st(c);
    let Some(o) = &t.obj else { return };
    if t.st == St::Running || t.busy {
        return;
    }
    let done = o.done();
    if done != (t.st == St::Done) {
        vio!("C02 C05 C04", "done", "coroutine {c} reports done() == {done} but is {:?}", t.st);
    }
    if t.st != St::Done && o.started() != t.started {
        vio!("C02", "started", "coroutine {c} reports started() == {}, expected {}", o.started(), t.started);
    }
}

// ---- payloads ---------------------------------------------------------------

fn throw(s: Sid) -> ! {
    let id = new_pay();
    cnt(K::Panic);
    st(s).unw.push(U::User(id));
    let how = choose(if UNWIND { 12 } else { 11 });
    w().pay_kind[id as usize] = how as u8;
    ev!("  [{s}] panics with payload {id} ({})", ["resume_unwind", "panic_any", "panic!", "a literal", "a static string", "a large value", "an empty value", "a number", "a boxed payload", "a boxed value", "the unit value", "what another coroutine's forced unwinding raised"][how as usize]);
    let mut it = st(s).shadow.iter().rev();
    match it.find(|f| matches!(f, Frame::OnStack(_) | Frame::OnParent | Frame::Catch)) {
        Some(Frame::OnStack(_)) => cnt(K::PanicOnStack),
        Some(Frame::OnParent) => cnt(K::PanicOnParent),
        _ => {}
    }
    let other = if how == 11 { Some(others_forced(id)) } else { None };
    trap::lib_unwinds();
    match how {
        11 => resume_unwind(other.unwrap()),
        0 => resume_unwind(Box::new(Pay { id })),
        1 => panic_any(Pay { id }),
        2 => panic!("sim panic {id}"),
        3 => panic!("sim literal"),
        4 => panic_any(TEXTS[id as usize % TEXTS.len()]),
        5 => panic_any(PayBig { id, fill: std::array::from_fn(|i| crate::chooser::mix(id + i as u64)) }),
        6 => panic_any(PayEmpty),
        7 => resume_unwind(Box::new(id)),
        8 => resume_unwind(Box::new(Box::new(Pay { id }) as Box<dyn Any + Send>)),
        9 => panic_any(Box::new(Pay { id })),
        _ => resume_unwind(Box::new(())),
    }
}
/// What the body of a coroutine that has nothing to do with the rest caught
/// when it was force-unwound. Its stack is never used for anything else.
fn others_forced(id: u64) -> Box<dyn Any + Send> {
    use corosensei::stack::{Stack, StackPointer};
    const SIZE: usize = 128 << 10;
    static mut MEM: usize = 0;
    static mut GOT: Option<Box<dyn Any + Send>> = None;
    struct Private;
    unsafe impl Stack for Private {
        fn base(&self) -> StackPointer {
            StackPointer::new(unsafe { MEM } + SIZE).unwrap()
        }
        fn limit(&self) -> StackPointer {
            StackPointer::new(unsafe { MEM }).unwrap()
        }
    }
    let _p = trap::Pause::new();
    unsafe {
        if MEM == 0 {
            let a = libc::mmap(std::ptr::null_mut(), SIZE, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
            assert!(a != libc::MAP_FAILED);
            MEM = a as usize;
        }
        let mut c = corosensei::Coroutine::<(), (), (), Private>::with_stack(Private, |y, ()| {
            GOT = std::panic::catch_unwind(AssertUnwindSafe(|| y.suspend(()))).err();
        });
        c.resume(());
        let _ = std::panic::catch_unwind(AssertUnwindSafe(|| c.force_unwind()));
        #[allow(static_mut_refs)]
        let Some(p) = GOT.take() else {
            vio!("C05 C06", "no-unwind", "a force-unwound coroutine was not unwound");
        };
        w().forced_type.insert(id, (*p).type_id());
        p
    }
}

const TEXTS: [&str; 4] = ["sim text a", "", "sim panic 3", "sim text d"];
struct PayEmpty;
#[repr(align(64))]
struct PayBig {
    id: u64,
    fill: [u64; 61],
}

fn check_payload(p: Box<dyn Any + Send>, u: U, s: Sid) -> Box<dyn Any + Send> {
    let kind = if let U::User(id) = u { w().pay_kind[id as usize] } else { u8::MAX };
    let inner = p.downcast_ref::<Box<dyn Any + Send>>().and_then(|b| b.downcast_ref::<Pay>());
    let got = if let Some(p) = p.downcast_ref::<Pay>() {
        (kind <= 1).then_some(p.id)
    } else if let Some(m) = p.downcast_ref::<String>() {
        m.strip_prefix("sim panic ").filter(|_| kind == 2).and_then(|x| x.parse().ok())
    } else if let Some(m) = p.downcast_ref::<PayBig>() {
        let ok = m as *const _ as usize % 64 == 0 && (0..61).all(|i| m.fill[i] == crate::chooser::mix(m.id + i as u64));
        if !ok {
            vio!("C04", "payload", "the contents of a panic payload changed");
        }
        (kind == 5).then_some(m.id)
    } else if let Some(id) = p.downcast_ref::<u64>() {
        (kind == 7).then_some(*id)
    } else if let Some(i) = inner {
        (kind == 8).then_some(i.id)
    } else if let Some(i) = p.downcast_ref::<Box<Pay>>() {
        (kind == 9).then_some(i.id)
    } else if let (Some(m), U::User(id)) = (p.downcast_ref::<&'static str>(), u) {
        (kind == 3 && *m == "sim literal" || kind == 4 && *m == TEXTS[id as usize % TEXTS.len()]).then_some(id)
    } else if let U::User(id) = u {
        (kind == 11 && w().forced_type.get(&id) == Some(&(*p).type_id()) || kind == 6 && p.is::<PayEmpty>() || kind == 10 && p.is::<()>()).then_some(id)
    } else {
        None
    };
    let want = if let U::User(id) = u { Some(id) } else { None };
    if got != want {
        vio!("C04 C06", "payload", "strand {s} caught payload {got:?}, expected {u:?}");
    }
    if let (Some(id), 0 | 1 | 8 | 9) = (want, kind) {
        if w().pays[id as usize] != 0 {
            vio!("C04", "payload", "panic payload {id} was dropped before it was caught");
        }
    }
    p
}

fn drop_payload(p: Box<dyn Any + Send>, u: U) {
    let tracked = matches!(u, U::User(id) if matches!(w().pay_kind[id as usize], 0 | 1 | 8 | 9));
    drop(p);
    if let (true, U::User(id)) = (tracked, u) {
        if w().pays[id as usize] != 1 {
            vio!("C04", "payload", "panic payload {id} was not dropped");
        }
    }
}

/// True if a panic raised here stays inside code that may unwind.
fn can_panic(s: Sid) -> bool {
    if UNWIND {
        return true;
    }
    for f in st(s).shadow.iter().rev() {
        match f {
            Frame::Catch => return true,
            Frame::OnStack(_) | Frame::OnParent => return false,
            _ => {}
        }
    }
    false
}

// ---- the interpreter --------------------------------------------------------

fn room(s: Sid) -> usize {
    local().saturating_sub(st(s).regions.last().unwrap().lo)
}

fn winding_down(s: Sid) -> bool {
    w().ending || st(s).finish || w().steps >= w().max_steps
}

#[inline(never)]
pub fn exec(s: Sid, port: Option<&dyn Port>, depth: u32, mode: Mode) {
    trap::lib_leave();
    // Live data of this frame: must survive whatever happens below.
    let tag = crate::chooser::mix((s as u64) << 32 | depth as u64 | w().next_id << 40);
    let pat = std::hint::black_box([tag, !tag, tag.rotate_left(13), tag ^ 0x55]);
    loop {
        if pat != [tag, !tag, tag.rotate_left(13), tag ^ 0x55] {
            vio!("C03 C07 C17", "locals", "local variables of strand {s} changed while other code ran");
        }
        if winding_down(s) {
            return;
        }
        w().steps += 1;
        cnt(K::Steps);
        progress();
        let here = local();
        wake_checks(s, here);
        check_zst("C01 C05", "between operations");
        let op = pick(s, port.is_some(), depth, mode);
        note(op as u64, s as u64, depth as u64);
        trap::doing(op as u8 + 1);
        if op == Op::Leave {
            return;
        }
        step(op, s, port, depth, mode);
    }
}

struct Menu {
    ops: [(Op, u32); NOPS],
    n: usize,
    total: u32,
}
impl Menu {
    fn add(&mut self, op: Op) {
        let wt = w().weights[op as usize];
        if wt > 0 {
            self.ops[self.n] = (op, wt);
            self.n += 1;
            self.total += wt;
        }
    }
}

fn avail(f: impl Fn(Sid, &Strand) -> bool) -> Vec<Sid> {
    let w = w();
    (0..w.strands.len()).filter(|&c| w.strands[c].coro && w.strands[c].obj.is_some() && !w.strands[c].leaked && !w.strands[c].busy && f(c, &w.strands[c])).collect()
}

fn mine(s: Sid, t: &Strand) -> bool {
    t.owner.map_or(true, |o| o == s)
}
fn here(c: Sid) -> bool {
    pinned(c).map_or(true, |t| t == w().cur_th)
}
fn can_resume(s: Sid, c: Sid, t: &Strand) -> bool {
    mine(s, t) && matches!(t.st, St::Fresh | St::Susp) && here(c)
}
fn can_kill(c: Sid, t: &Strand) -> bool {
    t.owner.is_none() && t.st != St::Running && !no_kill(c) && here(c) && (UNWIND || t.st != St::Susp)
}

fn can_suspend(s: Sid, port: bool) -> bool {
    let t = st(s);
    if !port || t.finish {
        return false;
    }
    if t.cleanup > 0 && ASM {
        return false;
    }
    match t.forced {
        Forced::Drop => false,
        // Only once the unwinding has been stopped, or inside cleanup.
        Forced::DropAbort => true,
        _ => true,
    }
}

fn pick(s: Sid, port: bool, depth: u32, mode: Mode) -> Op {
    let mut m = Menu { ops: [(Op::Leave, 0); NOPS], n: 0, total: 0 };
    let t = st(s);
    let w = w();
    m.add(Op::Leave);
    m.add(Op::Scribble);
    let deep = room(s) < 72 << 10;
    if can_suspend(s, port) && room(s) > 32 << 10 {
        m.add(Op::Suspend);
        m.add(Op::SuspendHold);
    }
    if !deep {
        if depth < 7 {
            m.add(Op::Guard);
            m.add(Op::Catch);
            m.add(Op::Regs);
            m.add(Op::Plain);
            m.add(Op::OnStack);
            if port {
                m.add(Op::OnParent);
            }
            if UNWIND && !avail(|c, t| t.owner.is_none() && t.st != St::Running && !no_kill(c) && here(c)).is_empty() {
                m.add(Op::Own);
            }
        }
        let live = w.strands.iter().filter(|t| t.obj.is_some()).count();
        if live < 10 && w.strands.len() < 60 {
            m.add(Op::Create);
        }
        if chain_len(s) < w.chain_max && !avail(|c, t| can_resume(s, c, t)).is_empty() {
            m.add(Op::Resume);
            m.add(Op::ResumeHold);
        }
        if can_panic(s) && (depth > 0 || t.coro) {
            m.add(Op::Panic);
        }
        if !avail(|c, t| can_kill(c, t)).is_empty() {
            m.add(Op::DropCo);
        }
        if !avail(|c, t| mine(s, t) && t.st != St::Running && !no_kill(c) && here(c)).is_empty() {
            m.add(Op::ForceUnwind);
        }
        if !avail(|_, t| t.owner.is_none() && t.st == St::Done).is_empty() {
            m.add(Op::IntoStack);
        }
        if !avail(|c, t| can_kill(c, t) && t.st != St::Done).is_empty() {
            m.add(Op::IntoStackRefused);
        }
        if !avail(|c, t| mine(s, t) && matches!(t.st, St::Susp | St::Fresh) && !no_kill(c)).is_empty() {
            m.add(Op::Reset);
        }
        if !avail(|_, t| t.st == St::Done).is_empty() {
            m.add(Op::ResumeDone);
        }
        if !avail(|c, t| t.owner.is_none() && t.st != St::Running && !no_kill(c)).is_empty() {
            m.add(Op::Forget);
        }
        if !avail(|_, t| t.st != St::Running).is_empty() {
            m.add(Op::Move);
            m.add(Op::Query);
        }
        if t.coro && t.cleanup == 0 && t.unw.is_empty() && t.forced != Forced::Drop && t.forced != Forced::DropAbort && !t.shadow.iter().any(|f| matches!(f, Frame::OnStack(_) | Frame::OnParent)) {
            m.add(Op::Trap);
        }
        m.add(Op::Backtrace);
        if cfg!(feature = "default-stack") {
            m.add(Op::FailCreate);
        }
        m.add(Op::Refused);
        m.add(Op::Bomb);
        if w.abort_run && mode == Mode::Normal {
            m.add(Op::Abort);
        }
        if w.th.len() > 1 {
            m.add(Op::Switch);
            if !w.abort_run {
                m.add(Op::Strike);
            }
        }
        m.add(Op::Step);
    }
    let want = if w.th.len() > 1 { trap::wanted() } else { 0 };
    if want != 0 && choose(2) == 1 {
        for i in 0..m.n {
            if m.ops[i].0 as u8 + 1 == want {
                return m.ops[i].0;
            }
        }
    }
    let mut x = choose(m.total);
    for i in 0..m.n {
        if x < m.ops[i].1 {
            return m.ops[i].0;
        }
        x -= m.ops[i].1;
    }
    unreachable!()
}

fn one(v: Vec<Sid>) -> Sid {
    v[choose(v.len() as u32) as usize]
}

#[inline(never)]
fn step(op: Op, s: Sid, port: Option<&dyn Port>, depth: u32, mode: Mode) {
    match op {
        Op::Leave | Op::N => {}
        Op::Create => {
            create(s);
        }
        Op::Resume => resume(s, one(avail(|c, t| can_resume(s, c, t))), None),
        Op::ResumeHold => {
            let c = one(avail(|c, t| can_resume(s, c, t)));
            resume(s, c, Some(&mut || exec(s, port, depth + 2, mode)));
        }
        Op::Suspend => {
            ev!("  [{s}] suspends");
            if st(s).cleanup > 0 {
                cnt(K::CleanupSuspend);
            }
            port.unwrap().suspend(s, None)
        }
        Op::SuspendHold => {
            ev!("  [{s}] suspends (and will hold the input)");
            port.unwrap().suspend(s, Some(&mut || exec(s, port, depth + 2, mode)))
        }
        Op::Guard => guard_frame(s, port, depth, mode),
        Op::Catch => catch_frame(s, port, depth, mode),
        Op::Regs => {
            cnt(K::Regs);
            coro::with_regs(s, || exec(s, port, depth + 1, mode));
            back_checks(s, local());
        }
        Op::Plain => match choose(3) {
            0 => plain_frame::<24>(s, port, depth, mode),
            1 => plain_frame::<300>(s, port, depth, mode),
            _ => plain_frame::<2500>(s, port, depth, mode),
        },
        Op::OnStack => on_stack_frame(s, port, depth, mode),
        Op::OnParent => {
            cnt(K::OnParent);
            ev!("  [{s}] on_parent_stack of {}", st(s).resumer);
            port.unwrap().on_parent(s, &mut || exec(s, None, depth + 1, mode));
        }
        Op::Own => {
            let c = one(avail(|c, t| t.owner.is_none() && t.st != St::Running && !no_kill(c) && here(c)));
            own_frame(s, c, port, depth, mode);
        }
        Op::Panic => throw(s),
        Op::DropCo => {
            let c = one(avail(|c, t| can_kill(c, t)));
            ev!("  [{s}] drops {c} ({:?})", st(c).st);
            drop_coro(s, c, DropHow::Drop);
        }
        Op::ForceUnwind => {
            let c = one(avail(|c, t| mine(s, t) && t.st != St::Running && !no_kill(c) && here(c)));
            force_unwind(s, c);
        }
        Op::IntoStack => {
            let c = one(avail(|_, t| t.owner.is_none() && t.st == St::Done));
            cnt(K::IntoStack);
            ev!("  [{s}] into_stack of {c}");
            let k = st(c).stack;
            let o = st(c).obj.take().unwrap();
            let x = o.into_stack();
            if w().stacks[k].default && x.k != k {
                vio!("C13", "wrong-stack", "into_stack handed back a different stack");
            }
            stacks::idle(x);
        }
        Op::IntoStackRefused => {
            let c = one(avail(|c, t| can_kill(c, t) && t.st != St::Done));
            cnt(K::IntoStackRefused);
            ev!("  [{s}] into_stack of the incomplete {c}");
            drop_coro(s, c, DropHow::IntoStack);
        }
        Op::Reset => {
            let c = one(avail(|c, t| mine(s, t) && matches!(t.st, St::Susp | St::Fresh) && !no_kill(c)));
            cnt(K::Reset);
            ev!("  [{s}] force_reset of {c}");
            unsafe { (*obj(c)).force_reset() };
            if st(c).st == St::Fresh {
                discard(st(c).cap);
            }
            discard_strand(c);
            st(c).st = St::Done;
            check_state(c);
        }
        Op::Forget => {
            let c = one(avail(|c, t| t.owner.is_none() && t.st != St::Running && !no_kill(c)));
            ev!("  [{s}] forgets {c}");
            leak(c);
        }
        Op::Move => {
            let c = one(avail(|_, t| t.st != St::Running));
            cnt(K::Move);
            ev!("  [{s}] moves {c}");
            let o = st(c).obj.take().unwrap();
            st(c).obj = Some(o.relocate());
            check_state(c);
        }
        Op::Query => {
            let c = one(avail(|_, t| t.st != St::Running));
            query(c);
        }
        Op::ResumeDone => {
            let c = one(avail(|_, t| t.st == St::Done));
            cnt(K::ResumeDone);
            ev!("  [{s}] resumes the completed {c}");
            unsafe { (*obj(c)).resume_done(c) };
            back_checks(s, local());
            check_state(c);
        }
        Op::Trap => trap_op(s),
        Op::Backtrace => {
            cnt(K::Backtrace);
            coro::with_regs(s, || {
                trap::lib_leave();
                bt::check(s)
            });
        }
        Op::Switch => {
            let n = w().th.len() as u32;
            let t = (w().cur_th as u32 + 1 + choose(n - 1)) % n;
            cnt(K::ThreadSwitch);
            ev!("  [{s}] baton to thread {t}");
            let me = w().cur_th;
            threads::pass(t as usize);
            if w().cur_th != me {
                vio!("harness", "harness", "baton");
            }
            ev!("  [{s}] baton back at thread {me}");
            back_checks(s, local());
        }
        Op::FailCreate => fail_create(),
        Op::Refused => refused(),
        Op::Bomb => bomb(s),
        Op::Abort => abort_op(s, port),
        Op::Step => {
            let n = [30, 150, 800][choose(3) as usize];
            if choose(8) == 7 {
                ev!("  [{s}] signals at each of the next {n} instructions");
                trap::step_window(n);
            } else {
                ev!("  [{s}] signals at each of the next {n} instructions of library calls");
                trap::arm_window(n);
            }
        }
        Op::Strike => {
            let n = 1 + choose([12, 80, 600][choose(3) as usize]);
            let k = match choose(12) {
                0..=4 => trap::Strike::Call(n),
                5..=8 => trap::Strike::Calls(n),
                _ => trap::Strike::Unwind { entries: range(1, 2), n: 1 + choose([60, 250][choose(2) as usize]) },
            };
            match k {
                trap::Strike::Unwind { entries, n } => {
                    ev!("  [{s}] its thread will be stopped {n} instructions after code entered for the {entries}. time during unwinding");
                    trap::want(Op::Panic as u8 + 1);
                }
                trap::Strike::Calls(_) => ev!("  [{s}] its thread will be stopped {n} instructions into its next library calls"),
                _ => ev!("  [{s}] its thread will be stopped {n} instructions into its next library call"),
            }
            trap::arm_strike(k);
        }
        Op::Scribble => scribble(choose(4)),
    }
}

/// Overwrites what lies below the current frame.
#[inline(never)]
fn scribble(n: u32) {
    let mut a = [0u8; 1024];
    std::hint::black_box(&mut a);
    a.fill(0xEE);
    std::hint::black_box(&mut a);
    if n > 0 {
        scribble(n - 1);
    }
    std::hint::black_box(&mut a);
}

#[inline(never)]
fn plain_frame<const N: usize>(s: Sid, port: Option<&dyn Port>, depth: u32, mode: Mode) {
    let id = w().next_id + 77;
    let a = std::hint::black_box(<[u8; N]>::make(id));
    let (x, y, z) = std::hint::black_box((id * 3, id as f64 * 0.5, id as u128 * 0x1_0000_0001));
    exec(s, port, depth + 1, mode);
    let (x2, y2, z2) = std::hint::black_box((x, y, z));
    if !a.check(id) || x2 != id * 3 || y2 != id as f64 * 0.5 || z2 != id as u128 * 0x1_0000_0001 {
        vio!("C03 C07 C17", "locals", "local variables of strand {s} changed while other code ran");
    }
}

struct Guard<'a> {
    s: Sid,
    fr: Option<FrameGuard>,
    pat: [u64; 3],
    id: u64,
    port: Option<&'a dyn Port>,
    depth: u32,
    normal: bool,
}
impl Drop for Guard<'_> {
    fn drop(&mut self) {
        trap::lib_leave();
        let s = self.s;
        if self.pat != [self.id, !self.id, self.id * 31] {
            vio!("C03 C04 C05", "locals", "an object of strand {s} changed before its drop");
        }
        if shm().expect_abort.load(SeqCst) == 0 {
            wake_checks(s, local());
        }
        self.fr.take().unwrap().pop();
        ev!("    [{s}] guard {} dropped ({})", self.id, if self.normal { "normally" } else { "unwinding" });
        let quiet = shm().expect_abort.load(SeqCst) != 0 || w().steps >= w().max_steps || room(s) < 72 << 10 || choose(4) != 3;
        if quiet {
        } else if self.normal {
            exec(s, self.port, self.depth + 1, Mode::Normal);
        } else {
            cnt(K::CleanupResume);
            st(s).cleanup += 1;
            catch_frame(s, self.port, self.depth + 1, Mode::Cleanup);
            st(s).cleanup -= 1;
        }
        if !self.normal {
            trap::lib_unwinds();
        }
    }
}

#[inline(never)]
fn guard_frame(s: Sid, port: Option<&dyn Port>, depth: u32, mode: Mode) {
    cnt(K::Frames);
    let w = w();
    w.next_id += 1;
    let id = w.next_id;
    let fr = FrameGuard::push(s, Frame::Guard(id));
    let mut g = Guard { s, fr: Some(fr), pat: std::hint::black_box([id, !id, id * 31]), id, port, depth, normal: false };
    exec(s, port, depth + 1, mode);
    g.normal = true;
}

#[inline(never)]
fn catch_frame(s: Sid, port: Option<&dyn Port>, depth: u32, mode: Mode) {
    let fr = FrameGuard::push(s, Frame::Catch);
    let cleanup = st(s).cleanup;
    let r = caught(AssertUnwindSafe(|| exec(s, port, depth + 1, mode)));
    let t = st(s);
    match r {
        Ok(()) => fr.pop(),
        Err(p) => {
            wake_checks(s, local());
            if t.shadow.len() != fr.idx() + 1 {
                vio!("C04 C05", "not-unwound", "strand {s} caught a panic but {:?} are still live", &t.shadow[fr.idx() + 1..]);
            }
            let Some(u) = t.unw.pop() else {
                vio!("C04", "stray-panic", "strand {s} caught a panic nobody raised");
            };
            t.cleanup = cleanup;
            let p = check_payload(p, u, s);
            fr.pop();
            cnt(K::Catch);
            // 0: swallow, 1: rethrow, 2: replace
            let act = if mode == Mode::Cleanup {
                if st(s).cleanup > 0 { 0 } else { 1 }
            } else if u == U::Forced(s) && t.forced != Forced::No {
                cnt(K::CatchForced);
                match t.forced {
                    Forced::Drop => 1,
                    Forced::DropAbort => {
                        shm().expect_abort.store(1, SeqCst);
                        [0, 2][choose(2) as usize]
                    }
                    _ => [1, 1, 0, 2][choose(4) as usize],
                }
            } else if can_panic(s) {
                choose(3)
            } else {
                0
            };
            ev!("  [{s}] catches {u:?}: {}", ["swallows", "rethrows", "replaces"][act as usize]);
            match act {
                0 => {
                    cnt(K::Swallow);
                    drop_payload(p, u);
                }
                1 => {
                    cnt(K::Rethrow);
                    st(s).unw.push(u);
                    resume_unwind(p);
                }
                _ => {
                    cnt(K::Replace);
                    drop_payload(p, u);
                    throw(s);
                }
            }
        }
    }
}

#[inline(never)]
fn on_stack_frame(s: Sid, port: Option<&dyn Port>, depth: u32, mode: Mode) {
    let Some(stack) = stacks::pick() else { return };
    cnt(K::OnStack);
    let k = choose(crate::combos::NCOMBOS);
    ev!("  [{s}] on_stack (stack {}, types {k})", stack.k);
    let mut f = || exec(s, port, depth + 1, mode);
    with_combo!(k, C => coro::call_on_stack::<C>(s, stack, &mut f));
}

struct OwnFrame {
    s: Sid,
    c: Sid,
    fr: Option<FrameGuard>,
}
impl Drop for OwnFrame {
    fn drop(&mut self) {
        trap::lib_leave();
        wake_checks(self.s, local());
        ev!("    [{}] drops its own coroutine {}", self.s, self.c);
        cnt(K::OwnDrop);
        // Other objects of this strand are gone, this one is going.
        self.fr.take().unwrap().pop();
        st(self.c).owner = None;
        if no_kill(self.c) {
            finish(self.s, self.c);
        }
        drop_coro(self.s, self.c, DropHow::Drop);
    }
}

#[inline(never)]
fn own_frame(s: Sid, c: Sid, port: Option<&dyn Port>, depth: u32, mode: Mode) {
    ev!("  [{s}] takes {c} onto its stack");
    st(c).owner = Some(s);
    let _o = OwnFrame { s, c, fr: Some(FrameGuard::push(s, Frame::Own(c))) };
    exec(s, port, depth + 1, mode);
}

// ---- coroutine operations ---------------------------------------------------

pub fn new_strand(combo: u32) -> Sid {
    let w = w();
    let mut t = Strand::default();
    t.coro = true;
    t.combo = combo;
    w.strands.push(Box::new(t));
    w.strands.len() - 1
}

#[inline(never)]
pub fn create(by: Sid) -> Option<Sid> {
    let mut k = choose(crate::combos::NCOMBOS);
    if w().weights[Op::Step as usize] > 0 && choose(3) == 1 {
        // Captured state that does not fit in what signal handlers spare.
        while with_combo!(k, C => std::mem::size_of::<<C as coro::Combo>::Cap>()) < 192 {
            k = (k + 1) % crate::combos::NCOMBOS;
        }
    }
    let c;
    let direct = cfg!(feature = "default-stack") && choose(8) == 7;
    let kind = with_combo!(k, C => coro::kinds::<C>()).3;
    if direct {
        #[cfg(feature = "default-stack")]
        {
            c = new_strand(k);
            st(c).cap = new_val(kind);
            let cap = st(c).cap;
            let o = with_combo!(k, C => coro::create_new::<C>(c, cap));
            let m = simvm::vm().maps.iter().rev().find(|m| m.live && m.stack.is_none()).cloned();
            let Some(m) = m else { vio!("C11 C12", "no-mapping", "Coroutine::new made no mapping") };
            st(c).stack = stacks::register(m.start + m.len, m.start, true, Some(m.id), None);
            st(c).obj = Some(o);
        }
        #[cfg(not(feature = "default-stack"))]
        return None;
    } else {
        let stack = stacks::pick()?;
        c = new_strand(k);
        st(c).cap = new_val(kind);
        st(c).stack = stack.k;
        let cap = st(c).cap;
        let o = coro::with_regs(by, || with_combo!(k, C => coro::create::<C>(c, stack, cap)));
        st(c).obj = Some(o);
    }
    cnt(K::Create);
    let t = st(c);
    let info = &mut w().stacks[t.stack];
    info.used = StackUse::Coro(c);
    t.regions.push(Region { lo: info.limit, hi: info.base });
    t.trap = Some(t.obj.as_ref().unwrap().trap());
    ev!("  [{by}] creates coroutine {c} (types {k}, stack {}{})", t.stack, if direct { ", Coroutine::new" } else { "" });
    expect_live(t.cap, "C16 C01", "captured state after creation");
    check_state(c);
    Some(c)
}

#[inline(never)]
pub fn resume(by: Sid, c: Sid, after: Option<coro::Cb>) {
    cnt(K::Resume);
    ev!("  [{by}] resumes {c}");
    enter(c, by);
    unsafe { (*obj(c)).resume(c, by, after) };
    wake_checks(by, local());
    check_state(c);
}

/// Runs `c` to its end without any further activity of its own.
pub fn finish(by: Sid, c: Sid) {
    st(c).finish = true;
    for _ in 0..1000 {
        if st(c).st == St::Done {
            return;
        }
        let n = st(by).unw.len();
        let cleanup = st(by).cleanup;
        let fr = FrameGuard::push(by, Frame::Catch);
        let r = caught(AssertUnwindSafe(|| resume(by, c, None)));
        fr.pop();
        st(by).cleanup = cleanup;
        if let Err(p) = r {
            let Some(u) = st(by).unw.pop() else { vio!("C04", "stray-panic", "resume of {c} panicked although nothing in it did") };
            drop_payload(check_payload(p, u, by), u);
        }
        if st(by).unw.len() != n {
            vio!("C04", "stray-panic", "unbalanced panics in {by}");
        }
    }
    vio!("C03 C05", "no-end", "coroutine {c} does not come to an end");
}

#[derive(Clone, Copy, PartialEq)]
pub enum DropHow {
    Drop,
    IntoStack,
}

/// Drops a coroutine whose cleanup the simulation keeps from failing.
#[inline(never)]
pub fn drop_coro(by: Sid, c: Sid, how: DropHow) {
    let o = st(c).obj.take().unwrap();
    let was = st(c).st;
    begin_unwind(by, c, Forced::Drop);
    match how {
        DropHow::Drop => coro::with_regs(by, || o.drop_box()),
        DropHow::IntoStack => {
            let r = caught(AssertUnwindSafe(|| o.into_stack()));
            match r {
                Ok(x) => {
                    std::mem::forget(x);
                    vio!("C02", "stack-extracted", "into_stack of the incomplete coroutine {c} succeeded");
                }
                Err(p) => {
                    if p.downcast_ref::<Pay>().is_some() {
                        vio!("C02 C04", "stray-panic", "into_stack raised an old panic");
                    }
                }
            }
        }
    }
    end_unwind_clean(by, c, was);
    let k = st(c).stack;
    if w().stacks[k].used != StackUse::Released {
        vio!("C13", "not-released", "coroutine {c} is gone but its stack {k} is {:?}", w().stacks[k].used);
    }
    check_unmapped(k);
    cnt(K::StackDrop);
    back_checks(by, local());
}

fn begin_unwind(by: Sid, c: Sid, f: Forced) {
    match st(c).st {
        St::Susp => {
            enter(c, by);
            let t = st(c);
            t.unw.push(U::Forced(c));
            t.forced = f;
            t.out = Out::None;
            cnt(if f == Forced::Unwind { K::ForceSuspended } else { K::DropSuspended });
            if t.shadow.iter().any(|f| matches!(f, Frame::OnStack(_))) {
                cnt(K::ForcedOnStack);
            }
            if chain_len(by) > 0 {
                cnt(K::ForcedNested);
            }
        }
        St::Fresh => {
            // Nothing of the body may run: any attempt finds it completed.
            st(c).st = St::Done;
            cnt(if f == Forced::Unwind { K::ForceUnstarted } else { K::DropUnstarted });
        }
        _ => cnt(if f == Forced::Unwind { K::ForceDone } else { K::DropDone }),
    }
}

fn end_unwind_clean(by: Sid, c: Sid, was: St) {
    expecting_abort();
    let t = st(c);
    match was {
        St::Fresh => expect_dropped(t.cap, "C05 C16", "captured state of a coroutine that never ran"),
        St::Susp => {
            if cur() != c {
                vio!("C03 C05", "wrong-context", "unwinding of {c} returned while strand {} was running", cur());
            }
            if t.st != St::Running || !t.shadow.is_empty() || t.unw != [U::Forced(c)] || t.out != Out::None {
                vio!("C05 C06", "not-unwound", "coroutine {c} was unwound, but it is {:?} with {:?} live, unwinding {:?}, result {:?}", t.st, t.shadow, t.unw, t.out);
            }
            t.unw.clear();
            t.forced = Forced::No;
            t.st = St::Done;
            expect_gone(c);
            set_cur(by);
        }
        _ => {}
    }
}

#[inline(never)]
pub fn force_unwind(by: Sid, c: Sid) {
    let was = st(c).st;
    ev!("  [{by}] force_unwind of {c} ({was:?})");
    if was == St::Susp && !UNWIND {
        // Must panic and change nothing.
        cnt(K::NoUnwindForce);
        st(c).busy = true;
        let r = caught(AssertUnwindSafe(|| unsafe { (*obj(c)).force_unwind(by) }));
        st(c).busy = false;
        if r.is_ok() {
            vio!("C15", "force-unwind-succeeded", "force_unwind of a suspended coroutine returned without the unwind feature");
        }
        back_checks(by, local());
        check_state(c);
        return;
    }
    begin_unwind(by, c, Forced::Unwind);
    let fr = FrameGuard::push(by, Frame::Catch);
    st(c).busy = true;
    let r = caught(AssertUnwindSafe(|| unsafe { (*obj(c)).force_unwind(by) }));
    st(c).busy = false;
    fr.pop();
    if !in_region(by, local()) {
        vio!("C05 C03", "wrong-stack", "force_unwind returned outside the stack of its caller {by}");
    }
    if was != St::Susp {
        if r.is_err() {
            vio!("C05", "stray-panic", "force_unwind of {c} ({was:?}) panicked");
        }
        end_unwind_clean(by, c, was);
        check_state(c);
        return;
    }
    let t = st(c);
    let clean = t.st == St::Running && t.out == Out::None && t.shadow.is_empty() && t.unw == [U::Forced(c)];
    if clean {
        if let Err(p) = r {
            let _ = p;
            vio!("C05", "stray-panic", "force_unwind of {c} panicked although the coroutine was unwound completely");
        }
        end_unwind_clean(by, c, was);
    } else {
        // The body stopped the unwinding.
        if cur() != c {
            vio!("C03 C06", "wrong-context", "force_unwind of {c} returned while strand {} was running", cur());
        }
        cnt(K::ForceFail);
        let Err(p) = r else {
            vio!("C06", "failure-hidden", "force_unwind of {c} reported success, but it is {:?} with {:?} live, unwinding {:?}, result {:?}", t.st, t.shadow, t.unw, t.out);
        };
        t.forced = Forced::No;
        set_cur(by);
        match (t.st, t.out) {
            (St::Susp, Out::Yield(v)) => {
                ev!("  [{by}] force_unwind of {c} fails: it yielded");
                t.out = Out::None;
                not_user(&p, c);
                expect_dropped(v, "C01 C06", "value yielded by a coroutine that was to be unwound");
            }
            (St::Running, Out::Ret(v)) => {
                ev!("  [{by}] force_unwind of {c} fails: it returned");
                t.out = Out::None;
                if !t.shadow.is_empty() {
                    vio!("C05 C06", "not-unwound", "coroutine {c} returned with {:?} live", t.shadow);
                }
                t.st = St::Done;
                not_user(&p, c);
                expect_dropped(v, "C01 C06", "value returned by a coroutine that was to be unwound");
            }
            (St::Running, _) => {
                let u = ended_by_panic(c);
                ev!("  [{by}] force_unwind of {c} fails: {u:?}");
                drop_payload(check_payload(p, u, by), u);
            }
            x => vio!("C06 C02", "stray-return", "force_unwind of {c} failed with the coroutine {x:?}"),
        }
    }
    back_checks(by, local());
    check_state(c);
}

fn not_user(p: &Box<dyn Any + Send>, c: Sid) {
    if p.downcast_ref::<Pay>().is_some() {
        vio!("C06 C04", "payload", "failed force_unwind of {c} raised a user panic that was already handled");
    }
}

fn query(c: Sid) {
    cnt(K::GuardProbe);
    check_state(c);
    let t = st(c);
    let h = t.obj.as_ref().unwrap().trap();
    let r = t.regions[0];
    let x = r.lo + choose((r.hi - r.lo) as u32) as usize;
    for (a, want) in [
        (r.lo, true),
        (r.lo - 1, false),
        (r.hi - 1, true),
        (r.hi, false),
        (x, true),
        (0, false),
        (usize::MAX, false),
        (r.hi + 4096, false),
        (r.lo - 4096, false),
        (r.lo + 4096, true),
    ] {
        if h.in_bounds(a) != want {
            vio!("C08 C19", "bounds", "stack_ptr_in_bounds(base - {:#x}) is {} for a stack of {:#x} bytes", r.hi.wrapping_sub(a), !want, r.hi - r.lo);
        }
    }
}

fn trap_op(s: Sid) {
    cnt(K::Trap);
    ev!("  [{s}] traps");
    if st(s).resumers > 0 || st(s).migrations > 0 {
        cnt(K::TrapOnReparent);
    }
    if !crate::stacks::probe_in_bounds(s, local()) {
        vio!("C08", "bounds", "the stack pointer of running coroutine {s} is not in its trap handler's bounds");
    }
    trap::raise(s);
}

/// The operating system refuses a new stack.
#[inline(never)]
fn fail_create() {
    #[cfg(feature = "default-stack")]
    {
        use corosensei::stack::DefaultStack;
        let v = simvm::vm();
        let errno = [libc::ENOMEM, libc::EAGAIN, libc::EPERM, libc::EACCES, libc::EINVAL, libc::ENFILE, libc::EOVERFLOW][choose(7) as usize];
        let which = choose(2);
        v.fired = None;
        if which == 0 {
            v.fail_mmap = Some((0, errno));
        } else {
            v.fail_mprotect = Some((0, errno));
        }
        v.clobber = choose(2) == 1;
        let maps = v.maps.len();
        ev!("  the system will refuse a new stack ({}, errno {errno})", ["mmap", "mprotect"][which as usize]);
        if choose(2) == 0 {
            let r = simvm::with_sim(|| DefaultStack::new(100_000));
            match (r, v.fired.take()) {
                (Err(e), Some(f)) => {
                    if e.raw_os_error() != Some(f) {
                        vio!("C12 C11", "errno", "the system refused with errno {f}, but the error reported is {e:?}");
                    }
                }
                (Ok(s), None) => drop(s),
                (Ok(_), Some(f)) => vio!("C12 C11", "failure-ignored", "a default stack was made although the system refused with errno {f}"),
                (Err(e), None) => vio!("C12 C11", "spurious-failure", "creating a stack failed with {e} although nothing was refused"),
            }
        } else {
            let cap = new_val(Kind::Tracked);
            let t = crate::vals::Tr::<20>::make(cap);
            let r = caught(AssertUnwindSafe(|| {
                simvm::with_sim(|| corosensei::Coroutine::new(move |_: &corosensei::Yielder<(), ()>, ()| std::mem::forget(t)))
            }));
            match (r, v.fired.take()) {
                (Err(_), Some(_)) => {}
                (Ok(c), None) => drop(c),
                (Ok(_), Some(f)) => vio!("C12 C11", "failure-ignored", "Coroutine::new returned although the system refused with errno {f}"),
                (Err(_), None) => vio!("C12 C11", "spurious-failure", "Coroutine::new panicked although nothing was refused"),
            }
            expect_dropped(cap, "C16 C12 C05", "captured state of a coroutine that could not be created");
        }
        v.fail_mmap = None;
        v.fail_mprotect = None;
        v.clobber = false;
        if let Some(m) = v.maps[maps..].iter().find(|m| m.live) {
            vio!("C12", "leaked-mapping", "mapping {} is still there after its stack's creation failed or the stack was dropped", m.id);
        }
    }
}

/// A closure too large for the library.
#[inline(never)]
fn refused() {
    let Some(stack) = stacks::custom().or_else(stacks::default) else { return };
    cnt(K::CapRefused);
    let k = stack.k;
    let cap = new_val(Kind::Tracked);
    let t = crate::vals::Tr::<1021>::make(cap);
    let r = caught(AssertUnwindSafe(|| {
        corosensei::Coroutine::with_stack(stack, move |_: &corosensei::Yielder<u32, u8>, _: u32| {
            let t = t;
            t.check(0)
        })
    }));
    match r {
        // Accepting it is fine, as long as it is delivered.
        Ok(c) => drop(c),
        Err(p) => drop(p),
    }
    expect_dropped(cap, "C16 C05", "captured state of a refused closure");
    if w().stacks[k].used != StackUse::Released {
        vio!("C16 C13", "not-released", "a refused closure's stack was not released");
    }
    check_unmapped(k);
}

struct Exploding(crate::vals::Tr<4>);
impl Drop for Exploding {
    fn drop(&mut self) {
        trap::lib_leave();
        let _ = &self.0;
        panic!("destructor of captured state");
    }
}

/// The captured state of an unstarted coroutine panics in its destructor.
#[inline(never)]
fn bomb(by: Sid) {
    let Some(stack) = stacks::pick() else { return };
    cnt(K::Bomb);
    let k = stack.k;
    let cap = new_val(Kind::Tracked);
    let extra = new_val(Kind::Tracked);
    let b = (Exploding(crate::vals::Tr::make(cap)), crate::vals::Tr::<8>::make(extra));
    ev!("  [{by}] unwinds an unstarted coroutine whose captured state panics when dropped");
    let mut co = corosensei::Coroutine::with_stack(stack, move |_: &corosensei::Yielder<u32, u8>, _: u32| {
        let b = b;
        vio!("C05 C02", "ran-after-unwind", "an unwound coroutine runs");
        #[allow(unreachable_code)]
        drop(b)
    });
    let c = new_strand(0);
    st(c).st = St::Done;
    st(c).stack = k;
    let info = &mut w().stacks[k];
    info.used = StackUse::Coro(c);
    st(c).regions.push(Region { lo: info.limit, hi: info.base });
    let r = caught(AssertUnwindSafe(|| co.force_unwind()));
    if r.is_ok() {
        vio!("C05 C06", "failure-hidden", "force_unwind hid a panic of a destructor");
    }
    expect_dropped(cap, "C05", "captured state whose destructor panics");
    expect_dropped(extra, "C05", "captured state next to one whose destructor panics");
    if !co.done() {
        vio!("C05 C02", "not-done", "a coroutine is not completed after its captured state was dropped");
    }
    match choose(4) {
        0 => {}
        1 => {
            let r = caught(AssertUnwindSafe(|| co.force_unwind()));
            if r.is_err() {
                vio!("C05", "second-unwind", "a second force_unwind did something");
            }
        }
        2 => {
            let r = caught(AssertUnwindSafe(|| drop(co.resume(1))));
            if r.is_ok() {
                vio!("C02 C05", "resumed-completed", "resuming an unwound coroutine returned");
            }
        }
        _ => {
            stacks::idle(co.into_stack());
            return;
        }
    }
    drop(co);
    if w().stacks[k].used != StackUse::Released {
        vio!("C13 C05", "not-released", "stack {k} was not released");
    }
}

/// Something that must end the process.
#[inline(never)]
fn abort_op(s: Sid, port: Option<&dyn Port>) {
    let _ = port;
    if UNWIND {
        // A suspended coroutine with a handler that will stop the unwinding.
        let v = avail(|c, t| can_kill(c, t) && t.st == St::Susp && t.shadow.contains(&Frame::Catch));
        if v.is_empty() {
            return;
        }
        let c = one(v);
        ev!("  [{s}] drops {c}, whose unwinding will be stopped: must abort");
        begin_unwind(s, c, Forced::DropAbort);
        let o = st(c).obj.take().unwrap();
        let watch = AbortWatch("C06");
        cnt(K::AbortDrop);
        o.drop_box();
        std::mem::forget(watch);
        // Some frames rethrow nothing: reaching this point is the violation
        // unless the unwinding was never stopped.
        if shm().expect_abort.load(SeqCst) == 0 && st(c).unw == [U::Forced(c)] && st(c).shadow.is_empty() {
            end_unwind_clean(s, c, St::Susp);
            return;
        }
        vio!("C06", "no-abort", "dropping coroutine {c} returned although its cleanup did not complete ({:?}, {:?})", st(c).st, st(c).unw);
    } else {
        match choose(2) {
            0 => {
                let v = avail(|c, t| t.owner.is_none() && t.st == St::Susp && !no_kill(c) && here(c));
                if v.is_empty() {
                    return;
                }
                let c = one(v);
                ev!("  [{s}] drops the suspended {c}: must abort");
                cnt(K::AbortDrop);
                shm().expect_abort.store(2, SeqCst);
                w().abort_at = (usize::MAX, 0);
                let o = st(c).obj.take().unwrap();
                let _watch = AbortWatch("C15");
                o.drop_box();
                vio!("C15", "no-abort", "dropping the suspended coroutine {c} returned");
            }
            _ => {
                if can_panic(s) {
                    return;
                }
                let at = st(s).shadow.iter().rposition(|f| matches!(f, Frame::OnStack(_) | Frame::OnParent));
                if at.is_none() && !st(s).coro {
                    return;
                }
                // usize::MAX: nothing of the strand is off limits.
                w().abort_at = (s, at.unwrap_or(usize::MAX));
                ev!("  [{s}] lets a panic escape: must abort");
                cnt(K::AbortPanic);
                shm().expect_abort.store(2, SeqCst);
                st(s).unw.push(U::User(u64::MAX));
                resume_unwind(Box::new(5u8));
            }
        }
    }
}

/// Leaving a drop that must not return at all.
struct AbortWatch(&'static str);
impl Drop for AbortWatch {
    fn drop(&mut self) {
        trap::lib_leave();
        vio!(self.0, "no-abort", "a drop that should have aborted the process panicked instead");
    }
}

// ---- a whole run ------------------------------------------------------------

fn root(t: Sid) {
    let w = w();
    loop {
        let fr = FrameGuard::push(t, Frame::Catch);
        let r = caught(AssertUnwindSafe(|| coro::with_regs(t, || exec(t, None, 0, Mode::Normal))));
        if st(t).shadow.len() != fr.idx() + 1 {
            vio!("C04", "not-unwound", "thread {t} caught a panic but {:?} are still live", st(t).shadow);
        }
        fr.pop();
        st(t).cleanup = 0;
        if let Err(p) = r {
            wake_checks(t, local());
            let Some(u) = st(t).unw.pop() else { vio!("C04", "stray-panic", "thread {t} caught a panic nobody raised") };
            drop_payload(check_payload(p, u, t), u);
        }
        if !st(t).unw.is_empty() || !st(t).shadow.is_empty() {
            vio!("C04", "unbalanced", "thread {t} ends with {:?} unwinding and {:?} live", st(t).unw, st(t).shadow);
        }
        if w.ending || w.steps >= w.max_steps {
            return;
        }
        if t == 0 {
            if chance(1, 3) {
                return;
            }
        } else {
            threads::pass(0);
        }
    }
}

/// What remains on this thread and must not be unwound has to run to its end.
fn finish_pinned(t: Sid) {
    loop {
        let v = avail(|c, x| x.owner.is_none() && x.st == St::Susp && here(c) && (no_kill(c) || !UNWIND));
        let Some(&c) = v.first() else { return };
        if !UNWIND && !no_kill(c) && t != 0 {
            // Thread 0 sees to these.
            let v: Vec<_> = v.into_iter().filter(|&c| no_kill(c)).collect();
            let Some(&c) = v.first() else { return };
            finish(t, c);
            continue;
        }
        finish(t, c);
    }
}

pub fn thread_job(t: usize) {
    root(t);
    trap::step_off();
    finish_pinned(t);
    w().th[t].finished = true;
}

/// Everything is over: conservation of values, objects and memory.
pub fn run() {
    let w = w();
    root(0);
    w.ending = true;
    trap::step_off();
    ev!("-- winding down");
    for t in 1..w.th.len() {
        let mut n = 0;
        while !w.th[t].finished && n < 1000 {
            // One that waited for a lock may need more than one turn.
            threads::pass(t);
            n += 1;
        }
        if !w.th[t].finished {
            vio!("harness", "harness", "thread {t} did not finish");
        }
    }
    finish_pinned(0);
    loop {
        let v = avail(|_, t| t.owner.is_none());
        let Some(&c) = v.first() else { break };
        if no_kill(c) {
            finish(0, c);
        }
        if UNWIND && choose(2) == 1 {
            force_unwind_end(c);
        }
        if st(c).st == St::Susp && (no_kill(c) || !UNWIND) {
            finish(0, c);
        }
        drop_coro(0, c, DropHow::Drop);
    }
    while let Some(s) = w.idle.pop() {
        drop(s);
    }
    conservation();
}

fn force_unwind_end(c: Sid) {
    if !no_kill(c) {
        force_unwind(0, c);
    }
}

fn conservation() {
    let w = w();
    check_zst("C01 C05", "at the end of the run");
    for (i, v) in w.vals.iter().enumerate().skip(1) {
        if v.st == ValSt::Live && v.kind != Kind::Plain {
            vio!("C01 C05 C16", "lost-value", "value {i} was never dropped");
        }
    }
    for (i, s) in w.strands.iter().enumerate() {
        if !s.leaked && (!s.shadow.is_empty() || s.coro && s.obj.is_some()) {
            vio!("C05 C04", "left-over", "strand {i} still has {:?} live", s.shadow);
        }
    }
    for (k, s) in w.stacks.iter().enumerate() {
        match s.used {
            StackUse::Released => check_unmapped(k),
            StackUse::Leaked | StackUse::Lent => {}
            u => vio!("C13 C12", "not-released", "stack {k} was never released ({u:?})"),
        }
    }
    for m in &simvm::vm().maps {
        if m.live && m.stack.map_or(true, |k| !matches!(w.stacks[k].used, StackUse::Leaked | StackUse::Lent)) {
            vio!("C12", "leaked-mapping", "mapping {} is still there at the end", m.id);
        }
        if !m.live && m.stack.map_or(false, |k| matches!(w.stacks[k].used, StackUse::Leaked)) {
            vio!("C12 C13", "early-unmap", "mapping {} of a stack that must stay was released", m.id);
        }
    }
}

pub type _Unused = AnyStack;
