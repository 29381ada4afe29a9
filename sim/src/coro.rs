//! The glue between the untyped simulation and the library's generic types:
//! one instance per combination of types. Everything that touches a typed
//! value, and checks it, is here.
use crate::interp;
use crate::regs;
use crate::shm::{cnt, K};
use crate::stacks::AnyStack;
use crate::vals::{Kind, Val};
use crate::world::{self, *};
use crate::{ev, vio};
use corosensei::stack::Stack;
use corosensei::trap::{CoroutineTrapHandler, TrapHandlerRegs};
use corosensei::{on_stack, Coroutine, CoroutineResult, Yielder};
use std::cell::UnsafeCell;
use crate::trap::caught;
use std::panic::AssertUnwindSafe;

pub trait Combo: 'static {
    type I: Val;
    type Y: Val;
    type R: Val;
    type Cap: Val;
}

pub type Cb<'a> = &'a mut dyn FnMut();

/// What code running on a coroutine can do with its yielder.
pub trait Port {
    fn suspend(&self, s: Sid, hold: Option<Cb>);
    fn on_parent(&self, s: Sid, f: Cb);
}

pub trait DynCoro {
    /// Resumes; `after` runs while the received value is still held.
    fn resume(&self, me: Sid, by: Sid, after: Option<Cb>);
    /// Resumes a completed coroutine, which must panic.
    fn resume_done(&self, me: Sid);
    fn done(&self) -> bool;
    fn started(&self) -> bool;
    fn force_unwind(&self, by: Sid);
    fn force_reset(&self);
    fn into_stack(self: Box<Self>) -> AnyStack;
    fn relocate(self: Box<Self>) -> Box<dyn DynCoro>;
    fn trap(&self) -> Box<dyn DynTrap>;
    fn bounds(&self) -> (usize, usize);
    fn drop_box(self: Box<Self>);
}

pub trait DynTrap {
    fn in_bounds(&self, a: usize) -> bool;
    fn setup(&self, me: Sid) -> TrapHandlerRegs;
}

pub trait IntoAny: Stack + 'static {
    fn into_any(self, k: usize) -> AnyStack;
}
impl IntoAny for AnyStack {
    fn into_any(self, _: usize) -> AnyStack {
        self
    }
}
#[cfg(feature = "default-stack")]
impl IntoAny for corosensei::stack::DefaultStack {
    fn into_any(self, k: usize) -> AnyStack {
        AnyStack { k, inner: crate::stacks::Inner::Def(self) }
    }
}

/// Runs a library call with known callee-saved registers.
#[inline(always)]
pub fn with_regs<R>(by: Sid, f: impl FnOnce() -> R) -> R {
    let w = w();
    w.next_id += 1;
    let id = w.next_id;
    let mut b = regs::Block::new(id);
    let p = &mut b as *mut regs::Block;
    let fr = interp::FrameGuard::push(by, Frame::Regs(p as u64));
    let mut r = None;
    let bad = regs::regs_call(p, || {
        crate::trap::lib_enter();
        r = Some(f());
        crate::trap::lib_leave();
    });
    if let Some(n) = bad {
        vio!("C03 C07 C17 C08", "register", "callee-saved register {n} was changed by a library call");
    }
    fr.pop();
    r.unwrap()
}

fn addr_of_local() -> usize {
    let x = 0u8;
    std::hint::black_box(&x) as *const u8 as usize
}

/// Set right before control enters the library and cleared when it is back in
/// code of the simulation.
struct Hold {
    s: Sid,
    id: u64,
    fr: Option<interp::FrameGuard>,
    tags: &'static str,
}
impl Hold {
    fn new(s: Sid, id: u64, tags: &'static str) -> Hold {
        Hold { s, id, fr: Some(interp::FrameGuard::push(s, Frame::Hold(id))), tags }
    }
}
impl Drop for Hold {
    fn drop(&mut self) {
        crate::trap::lib_leave();
        // Declared before the value, so it runs right after the value's drop.
        expect_dropped(self.id, self.tags, "a received value going out of scope");
        self.fr.take().unwrap().pop();
        let t = st(self.s);
        if !t.unw.is_empty() && t.cleanup == 0 {
            crate::trap::lib_unwinds();
        }
    }
}

fn check_val<T: Val>(v: &T, id: u64, what: &str) {
    if !v.check(id) {
        vio!("C01", "value-changed", "{what}: the value received is not value {id} ({})", std::any::type_name::<T>());
    }
    expect_live(id, "C01", what);
}

pub struct Co<C: Combo, S: IntoAny>(pub UnsafeCell<Coroutine<C::I, C::Y, C::R, S>>, pub Sid);

struct P<'a, C: Combo>(&'a Yielder<C::I, C::Y>);

/// Notices when a library call that should return unwinds instead.
struct SuspWatch(Sid);
impl Drop for SuspWatch {
    fn drop(&mut self) {
        crate::trap::lib_leave();
        let t = st(self.0);
        if t.forced == Forced::No || t.st != St::Running || t.unw.last() != Some(&U::Forced(self.0)) {
            vio!("C04 C05 C02", "stray-unwind", "suspend of coroutine {} unwinds although nobody forced it to ({:?}, {:?})", self.0, t.forced, t.st);
        }
        ev!("  [{}] suspend unwinds", self.0);
        interp::wake_checks(self.0, addr_of_local());
    }
}

impl<'a, C: Combo> Port for P<'a, C> {
    #[inline(never)]
    fn suspend(&self, s: Sid, hold: Option<Cb>) {
        cnt(K::Suspend);
        let id = new_val(C::Y::KIND);
        let t = st(s);
        t.out = Out::Yield(id);
        t.st = St::Susp;
        interp::before_yield(s);
        let watch = SuspWatch(s);
        let v = C::Y::make(id);
        let i = with_regs(s, || self.0.suspend(v));
        std::mem::forget(watch);
        let t = st(s);
        if t.st != St::Running || t.forced != Forced::No && t.unw.last() == Some(&U::Forced(s)) && t.cleanup == 0 {
            vio!("C05 C02", "not-unwound", "suspend returned in coroutine {s} which is {:?} and must unwind ({:?})", t.st, t.forced);
        }
        interp::wake_checks(s, addr_of_local());
        let id = t.exp_in;
        let _h = Hold::new(s, id, "C01");
        let i = i;
        check_val(&i, id, "input received by suspend");
        if let Some(f) = hold {
            f();
            check_val(&i, id, "input held across other activity");
        }
    }
    #[inline(never)]
    fn on_parent(&self, s: Sid, f: Cb) {
        let cv = new_val(C::Cap::KIND);
        let region = *st(st(s).resumer).regions.last().unwrap();
        let mut rv = 0;
        let fr = interp::FrameGuard::push_region(s, Frame::OnParent, region);
        let cap = SendCap(C::Cap::make(cv));
        let job = Job(f, &mut rv);
        let r = with_regs(s, || {
            self.0.on_parent_stack(move || -> C::R {
                let (job, cap) = (job, cap);
                // The captured state is part of this closure's frame.
                run_captured::<C::Cap, C::R>(s, cap.0, cv, job)
            })
        });
        fr.pop();
        finish_call(s, r, rv, "on_parent_stack");
    }
}

struct SendCap<T>(T);
unsafe impl<T> Send for SendCap<T> {}

struct Job<'a>(Cb<'a>, *mut u64);
unsafe impl Send for Job<'_> {}

fn run_captured<Cap: Val, R: Val>(s: Sid, cap: Cap, cv: u64, job: Job) -> R {
    crate::trap::lib_leave();
    // 0: has not run; u64::MAX: runs; else the id of its result.
    if unsafe { std::mem::replace(&mut *job.1, u64::MAX) } != 0 {
        vio!("C07", "not-once", "a closure ran more than once");
    }
    let a = addr_of_local();
    if !in_region(s, a) {
        vio!("C07", "wrong-stack", "the closure of strand {s} runs at {a:#x}, outside {:x?}", st(s).regions.last());
    }
    if st(s).shadow.iter().rev().find(|f| !matches!(f, Frame::Regs(_))) == Some(&Frame::OnParent) && a >= st(s).resumer_sp {
        vio!("C07 C03", "parent-overlap", "on_parent_stack runs above the live data of its parent");
    }
    check_align("C07 C03");
    {
        let _h = Hold::new(s, cv, "C07 C01 C16");
        let cap = cap;
        if !cap.check(cv) {
            vio!("C07 C16", "capture-changed", "captured state of a closure changed on its way to the new stack");
        }
        (job.0)();
        if !cap.check(cv) {
            vio!("C07 C03", "capture-changed", "captured state of a closure changed while it ran");
        }
    }
    let rv = new_val(R::KIND);
    unsafe { *job.1 = rv };
    let r = R::make(rv);
    crate::trap::lib_enter();
    r
}

fn finish_call<R: Val>(s: Sid, r: R, rv: u64, what: &'static str) {
    if rv == 0 || rv == u64::MAX {
        vio!("C07", "not-once", "{what} returned without its closure having completed");
    }
    interp::back_checks(s, addr_of_local());
    {
        let _h = Hold::new(s, rv, "C07 C01");
        let r = r;
        if !r.check(rv) {
            vio!("C07 C01", "result-changed", "{what} did not return its closure's value");
        }
        expect_live(rv, "C07 C01", what);
    }
}

/// The ABI promises a 16-byte aligned stack pointer at every call.
#[inline(never)]
pub fn check_align(tags: &str) {
    #[repr(align(16))]
    struct A([u8; 16]);
    let a = A([0; 16]);
    let p = std::hint::black_box(&a) as *const A as usize;
    if p % 16 != 0 || a.0[3] != 0 {
        vio!(tags, "stack-misaligned", "the stack is misaligned: a 16-byte aligned local is at {p:#x}");
    }
}

/// on_stack with the combination's types.
#[inline(never)]
pub fn call_on_stack<C: Combo>(s: Sid, stack: AnyStack, f: Cb) {
    let cv = new_val(C::Cap::KIND);
    let k = stack.k;
    let info = &w().stacks[k];
    let region = Region { lo: info.limit, hi: info.base };
    let mut rv = 0;
    let fr = interp::FrameGuard::push_region(s, Frame::OnStack(k), region);
    w().stacks[k].used = StackUse::Call(s, fr.idx());
    let cap = C::Cap::make(cv);
    let job = Job(f, &mut rv);
    let r = with_regs(s, || on_stack(stack, move || -> C::R {
        let job = job;
        run_captured::<C::Cap, C::R>(s, cap, cv, job)
    }));
    fr.pop();
    finish_call(s, r, rv, "on_stack");
}

fn body<C: Combo>(s: Sid, cap: C::Cap, y: &Yielder<C::I, C::Y>, first: C::I) -> C::R {
    crate::trap::lib_leave();
    let t = st(s);
    if t.st != St::Running || t.started && t.combo != u32::MAX {
        vio!("C02 C16", "ran-unexpectedly", "the body of coroutine {s} runs although it is {:?} (started: {})", t.st, t.started);
    }
    t.started = true;
    interp::wake_checks(s, addr_of_local());
    check_align("C03");
    {
        let _h = Hold::new_cap(s, t.cap, "C05 C16 C01");
        let cap = cap;
        if !cap.check(t.cap) {
            vio!("C16", "capture-changed", "captured state {} of coroutine {s} changed before it ran ({})", t.cap, std::any::type_name::<C::Cap>());
        }
        expect_live(t.cap, "C16", "captured state");
        let id = t.exp_in;
        let mut first = Some(first);
        {
            let _h = Hold::new(s, id, "C01");
            let first = first.take().unwrap();
            check_val(&first, id, "first input");
            if crate::chooser::choose(4) == 3 {
                interp::exec(s, Some(&P::<C>(y)), 1, interp::Mode::Normal);
                check_val(&first, id, "first input held across other activity");
            }
        }
        interp::exec(s, Some(&P::<C>(y)), 0, interp::Mode::Normal);
        if !cap.check(st(s).cap) {
            vio!("C03 C16", "capture-changed", "captured state of coroutine {s} changed while it ran");
        }
    }
    interp::body_end(s);
    let rv = new_val(C::R::KIND);
    st(s).out = Out::Ret(rv);
    ev!("  [{s}] returns value {rv}");
    let r = C::R::make(rv);
    crate::trap::lib_enter();
    r
}

impl Hold {
    fn new_cap(s: Sid, id: u64, tags: &'static str) -> Hold {
        Hold { s, id, fr: Some(interp::FrameGuard::push(s, Frame::Cap(id))), tags }
    }
}

impl<C: Combo, S: IntoAny> DynCoro for Co<C, S> {
    #[inline(never)]
    fn resume(&self, me: Sid, by: Sid, after: Option<Cb>) {
        let id = new_val(C::I::KIND);
        st(me).exp_in = id;
        let v = C::I::make(id);
        let co = self.0.get();
        let watch = interp::ResumeWatch { me, by, id, co: Some(self as &dyn DynCoro as *const dyn DynCoro) };
        let r = with_regs(by, || unsafe { (*co).resume(v) });
        std::mem::forget(watch);
        interp::after_return(me, by, addr_of_local(), id);
        // Nothing below touches self: `after` may move or drop the coroutine.
        let t = st(me);
        match (r, std::mem::replace(&mut t.out, Out::None)) {
            (CoroutineResult::Yield(y), Out::Yield(id)) => {
                ev!("  [{by}] resume of {me} yields value {id}");
                let _h = Hold::new(by, id, "C01");
                let y = y;
                check_val(&y, id, "yielded value");
                if let Some(f) = after {
                    f();
                    check_val(&y, id, "yielded value held across other activity");
                }
            }
            (CoroutineResult::Return(r), Out::Ret(id)) => {
                ev!("  [{by}] resume of {me} returns value {id}");
                let _h = Hold::new(by, id, "C01 C08");
                let r = r;
                if !r.check(id) {
                    vio!("C01 C08", "value-changed", "the value returned by coroutine {me} is not value {id} ({})", std::any::type_name::<C::R>());
                }
                expect_live(id, "C01", "returned value");
                if let Some(f) = after {
                    f();
                    check_val(&r, id, "returned value held across other activity");
                }
            }
            (CoroutineResult::Yield(_), o) => {
                vio!("C02", "yield-or-return", "resume of coroutine {me} answered Yield, expected {o:?}")
            }
            (CoroutineResult::Return(_), o) => {
                vio!("C02", "yield-or-return", "resume of coroutine {me} answered Return, expected {o:?}")
            }
        }
    }
    fn resume_done(&self, me: Sid) {
        let id = new_val(C::I::KIND);
        let v = C::I::make(id);
        st(me).exp_in = id;
        let co = self.0.get();
        let r = caught(AssertUnwindSafe(|| unsafe { std::mem::forget((*co).resume(v)) }));
        match r {
            Ok(()) => vio!("C02", "resumed-completed", "resuming the completed coroutine {me} returned"),
            Err(p) => {
                if p.downcast_ref::<Pay>().is_some() {
                    vio!("C02 C04", "resumed-completed", "resuming the completed coroutine {me} raised an old panic");
                }
            }
        }
        cnt(K::RefusedResumeVal);
        expect_dropped(id, "C01 C02", "input of a refused resume");
    }
    fn done(&self) -> bool {
        unsafe { (*self.0.get()).done() }
    }
    fn started(&self) -> bool {
        unsafe { (*self.0.get()).started() }
    }
    fn force_unwind(&self, by: Sid) {
        let co = self.0.get();
        with_regs(by, || unsafe { (*co).force_unwind() })
    }
    fn force_reset(&self) {
        unsafe { (*self.0.get()).force_reset() }
    }
    fn into_stack(self: Box<Self>) -> AnyStack {
        let k = st(self.1).stack;
        let c = self.0.into_inner();
        c.into_stack().into_any(k)
    }
    fn relocate(self: Box<Self>) -> Box<dyn DynCoro> {
        let old = &*self as *const Self as *mut u8;
        let b = Box::new(unsafe { std::ptr::read(&*self) });
        // Whoever still refers to the old place will notice.
        unsafe { std::ptr::write_bytes(old, 0x6b, std::mem::size_of::<Self>()) };
        drop(unsafe { std::mem::transmute::<Box<Self>, Box<std::mem::ManuallyDrop<Self>>>(self) });
        b
    }
    fn trap(&self) -> Box<dyn DynTrap> {
        Box::new(Tp::<C>(unsafe { (*self.0.get()).trap_handler() }))
    }
    fn bounds(&self) -> (usize, usize) {
        // The stack is private to the coroutine; its bounds come from the model.
        let k = &w().stacks[st(self.1).stack];
        (k.limit, k.base)
    }
    fn drop_box(self: Box<Self>) {
        drop(self)
    }
}

pub struct Tp<C: Combo>(CoroutineTrapHandler<C::R>);
impl<C: Combo> DynTrap for Tp<C> {
    fn in_bounds(&self, a: usize) -> bool {
        self.0.stack_ptr_in_bounds(a)
    }
    fn setup(&self, me: Sid) -> TrapHandlerRegs {
        let id = new_val(C::Cap::KIND);
        let cap = C::Cap::make(id);
        unsafe {
            self.0.setup_trap_handler(move || -> C::R {
                crate::trap::lib_leave();
                check_align("C08");
                interp::wake_checks(me, addr_of_local());
                {
                    let _h = Hold::new_cap(me, id, "C08 C01");
                    let cap = cap;
                    if !cap.check(id) {
                        vio!("C08", "capture-changed", "captured state of a trap handler changed before it ran ({})", std::any::type_name::<C::Cap>());
                    }
                    interp::exec(me, None, 0, interp::Mode::Normal);
                    if !cap.check(id) {
                        vio!("C08", "capture-changed", "captured state of a trap handler changed while it ran");
                    }
                }
                interp::body_end(me);
                let rv = new_val(C::R::KIND);
                st(me).out = Out::Ret(rv);
                let r = C::R::make(rv);
                crate::trap::lib_enter();
                r
            })
        }
    }
}

/// Creates a coroutine of the combination's types on the given stack, or with
/// `Coroutine::new` on a default one.
pub fn create<C: Combo>(s: Sid, stack: AnyStack, cap: u64) -> Box<dyn DynCoro> {
    let cap = C::Cap::make(cap);
    let co = Coroutine::with_stack(stack, move |y: &Yielder<C::I, C::Y>, i: C::I| body::<C>(s, cap, y, i));
    Box::new(Co::<C, AnyStack>(UnsafeCell::new(co), s))
}
#[cfg(feature = "default-stack")]
pub fn create_new<C: Combo>(s: Sid, cap: u64) -> Box<dyn DynCoro> {
    let cap = C::Cap::make(cap);
    let co = crate::simvm::with_sim(|| {
        Coroutine::new(move |y: &Yielder<C::I, C::Y>, i: C::I| body::<C>(s, cap, y, i))
    });
    Box::new(Co::<C, corosensei::stack::DefaultStack>(UnsafeCell::new(co), s))
}

pub fn kinds<C: Combo>() -> (Kind, Kind, Kind, Kind) {
    (C::I::KIND, C::Y::KIND, C::R::KIND, C::Cap::KIND)
}
#[allow(unused_imports)]
use world as _;
