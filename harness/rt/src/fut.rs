//! C10: futures and executors. Scripted futures keep a log of their polls, wakers and drops; a hand-written
//! executor with faults and tokio run them; every output is counted from its making to its drop.
use crate::ledger::{self, tracked, untracked};
use crate::prng::Rng;
use crate::report::{self, ev, fold, seen_parts};
use crate::Opts;
use safer_ffi::dyn_traits::futures::{FfiFuture, FfiFutureExecutor, PollFuture};
use safer_ffi::dyn_traits::{DropGlue, ImplDropGlue};
use safer_ffi::prelude::*;
use std::collections::VecDeque;
use std::ffi::c_void;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::*};
use std::sync::{mpsc, Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

safer_ffi::ffi_export_future_helpers!();
extern "C" {
    fn rust_future_task_context_wake(cx: *const c_void);
    fn rust_future_task_context_get_waker(cx: *const c_void) -> ArcFn;
}
#[repr(C)]
pub struct ArcFn { env: *mut c_void, call: Option<unsafe extern "C" fn(*mut c_void)>, release: Option<unsafe extern "C" fn(*mut c_void)>, retain: Option<unsafe extern "C" fn(*mut c_void)> }

macro_rules! ck { ($c:expr, $($t:tt)*) => { if !$c { untracked(|| report::violation(&format!($($t)*))) } } }

/// whether a panic may unwind through the library's `extern "C"` table entries here (rustc before 1.81 only)
const PANICS: bool = ledger::ON;

// ------------------------------------------------------------ scripted futures
#[derive(Clone, Copy, PartialEq, Debug)]
enum Act { Now, NowOwned, Later, LaterTwice, Ready, Panic }

#[derive(Default)]
pub struct Fate { polls: AtomicU64, live: AtomicI64, done: AtomicU64, outs: AtomicI64, made: AtomicU64, panicked: AtomicBool, wakes: AtomicU64 }
type Sink = Arc<Mutex<Vec<Waker>>>;

struct Out { id: u64, fate: Arc<Fate>, heap: Box<u64> }
impl Out { fn new(id: u64, fate: &Arc<Fate>) -> Out { fate.outs.fetch_add(1, SeqCst); fate.made.fetch_add(1, SeqCst); Out { id, fate: untracked(|| fate.clone()), heap: Box::new(!id) } } }
impl Drop for Out { fn drop(&mut self) { ck!(*self.heap == !self.id, "an output was corrupt when dropped"); self.fate.outs.fetch_sub(1, SeqCst); } }

struct Script { id: u64, canary: Box<u64>, plan: Vec<Act>, pos: usize, over: bool, addr: usize, fate: Arc<Fate>, sink: Sink, _pin: std::marker::PhantomPinned }
impl Script {
    fn new(id: u64, plan: &[Act], fate: &Arc<Fate>, sink: &Sink) -> Script {
        fate.live.fetch_add(1, SeqCst);
        Script { id, canary: Box::new(!id), plan: untracked(|| plan.to_vec()), pos: 0, over: false, addr: 0, fate: untracked(|| fate.clone()), sink: untracked(|| sink.clone()), _pin: std::marker::PhantomPinned }
    }
}
impl Drop for Script {
    fn drop(&mut self) {
        ck!(*self.canary == !self.id, "a future was already gone when it was dropped");
        ck!(self.addr == 0 || self.addr == self as *const _ as usize, "a pinned future was moved before it was dropped");
        *self.canary = 0;
        self.fate.live.fetch_sub(1, SeqCst);
        untracked(|| { self.plan = vec![]; self.sink = Arc::new(Mutex::new(vec![])); })
    }
}
impl Future for Script {
    type Output = Out;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Out> {
        let me = unsafe { self.get_unchecked_mut() };
        ck!(*me.canary == !me.id, "a future was polled after it was dropped");
        ck!(!me.over, "a future was polled after it had completed");
        ck!(me.addr == 0 || me.addr == me as *const _ as usize, "a pinned future was moved between two polls");
        me.addr = me as *const _ as usize;
        me.fate.polls.fetch_add(1, SeqCst);
        let a = me.plan[me.pos];
        me.pos += 1;
        match a {
            Act::Now => { me.fate.wakes.fetch_add(1, SeqCst); cx.waker().wake_by_ref(); Poll::Pending }
            Act::NowOwned => { me.fate.wakes.fetch_add(1, SeqCst); let w = cx.waker().clone(); let w2 = w.clone(); drop(w); w2.wake(); Poll::Pending }
            Act::Later => { me.fate.wakes.fetch_add(1, SeqCst); let w = cx.waker().clone(); untracked(|| me.sink.lock().unwrap().push(w)); Poll::Pending }
            Act::LaterTwice => { me.fate.wakes.fetch_add(2, SeqCst); let w = cx.waker().clone(); let x = w.clone(); untracked(|| me.sink.lock().unwrap().extend([w, x])); Poll::Pending }
            Act::Ready => { me.over = true; me.fate.done.fetch_add(1, SeqCst); Poll::Ready(Out::new(me.id, &me.fate)) }
            Act::Panic => { me.over = true; me.fate.panicked.store(true, SeqCst); std::panic::panic_any(me.id) }
        }
    }
}
fn plan(r: &mut Rng, panics: bool) -> Vec<Act> {
    let n = match r.below(4) { 0 => 0, 1 => 1, _ => r.below(7) };
    let mut p: Vec<Act> = (0..n).map(|_| match r.below(4) { 0 => Act::Now, 1 => Act::NowOwned, 2 => Act::Later, _ => Act::LaterTwice }).collect();
    p.push(if panics && r.chance(1, 5) { Act::Panic } else { Act::Ready });
    p
}
/// a future with no output that leaves its output in a slot
struct Unit { inner: Script, slot: Arc<Mutex<Option<Out>>> }
impl Future for Unit {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let me = unsafe { self.get_unchecked_mut() };
        unsafe { Pin::new_unchecked(&mut me.inner) }.poll(cx).map(|o| { let old = me.slot.lock().unwrap().replace(o); ck!(old.is_none(), "a future completed twice"); })
    }
}

/// a task's waker that counts
struct Count { wakes: AtomicU64 }
impl Wake for Count {
    fn wake(self: Arc<Self>) { self.wakes.fetch_add(1, SeqCst); }
    fn wake_by_ref(self: &Arc<Self>) { self.wakes.fetch_add(1, SeqCst); }
}

// ------------------------------------------------------------ one future, polled by hand in every way
#[derive(Clone, Copy, PartialEq)]
enum How { Dyn, Raw, Await }
fn by_hand(r: &mut Rng) {
    let fate = untracked(|| Arc::new(Fate::default()));
    let sink: Sink = untracked(Default::default);
    let slot = untracked(|| Arc::new(Mutex::new(None)));
    let id = r.next();
    let how = match r.below(3) { 0 => How::Dyn, 1 if !cfg!(miri) => How::Raw, _ => How::Await };
    let p = plan(r, PANICS);
    let kind = r.below(4);
    let unit = tracked(|| Unit { inner: Script::new(id, &p, &fate, &sink), slot: untracked(|| slot.clone()) });
    let stop = if r.chance(1, 3) { r.below(p.len() + 1) } else { usize::MAX };
    match kind {
        0 => { let v: VirtualPtr<dyn 'static + FfiFuture> = tracked(|| Box::pin(unit).into()); drive(r, v, how, &p, stop, &fate, &sink, &slot, id) }
        1 => { let v: VirtualPtr<dyn 'static + Send + FfiFuture> = tracked(|| Box::pin(unit).into()); drive(r, v, how, &p, stop, &fate, &sink, &slot, id) }
        2 => {
            let mut b = tracked(|| Box::pin(unit));
            { let v: VirtualPtr<dyn '_ + FfiFuture> = tracked(|| b.as_mut().into()); drive(r, v, how, &p, stop, &fate, &sink, &slot, id) }
            ck!(fate.live.load(SeqCst) == 1, "dropping a lent future destroyed it");
            tracked(|| drop(b));
        }
        _ => {
            let mut b = tracked(|| Box::pin(unit));
            { let v: VirtualPtr<dyn '_ + Send + FfiFuture> = tracked(|| b.as_mut().into()); drive(r, v, how, &p, stop, &fate, &sink, &slot, id) }
            ck!(fate.live.load(SeqCst) == 1, "dropping a lent future destroyed it");
            tracked(|| drop(b));
        }
    }
    ck!(fate.live.load(SeqCst) == 0, "after the last handle of a future was dropped, {} of it are alive", fate.live.load(SeqCst));
    tracked(|| drop(slot.lock().unwrap().take()));
    ck!(fate.outs.load(SeqCst) == 0, "an output was lost or dropped twice");
    ev("future");
    seen_parts(&[1, how as u64, kind as u64, p.len() as u64, fold(&p.iter().map(|a| *a as u64).collect::<Vec<_>>()), stop.min(99) as u64]);
}

trait IntoFut { fn fut(self) -> Pin<Box<dyn Future<Output = ()>>>; }
// the two `into_future`s are inherent methods of two types
trait Handle<'a>: Sized { fn poll_dyn(&mut self, cx: &mut Context<'_>) -> PollFuture; fn fut(self) -> Pin<Box<dyn Future<Output = ()> + 'a>>; }
impl<'a> Handle<'a> for VirtualPtr<dyn 'a + FfiFuture> {
    fn poll_dyn(&mut self, cx: &mut Context<'_>) -> PollFuture { Pin::new(self).dyn_poll(cx) }
    fn fut(self) -> Pin<Box<dyn Future<Output = ()> + 'a>> { Box::pin(self.into_future()) }
}
impl<'a> Handle<'a> for VirtualPtr<dyn 'a + Send + FfiFuture> {
    fn poll_dyn(&mut self, cx: &mut Context<'_>) -> PollFuture { Pin::new(self).dyn_poll(cx) }
    fn fut(self) -> Pin<Box<dyn Future<Output = ()> + 'a>> { fn send<T: Send>(t: T) -> T { t } Box::pin(send(self.into_future())) }
}
fn drive<'a, H: Handle<'a> + 'a>(r: &mut Rng, h: H, how: How, p: &[Act], stop: usize, fate: &Arc<Fate>, sink: &Sink, slot: &Arc<Mutex<Option<Out>>>, id: u64) {
    let cnt = untracked(|| Arc::new(Count { wakes: AtomicU64::new(0) }));
    let waker: Waker = untracked(|| cnt.clone().into());
    let mut cx = Context::from_waker(&waker);
    let mut h = Some(h);
    let mut f = if how == How::Await { Some(tracked(|| h.take().unwrap().fut())) } else { None };
    ck!(fate.polls.load(SeqCst) == 0, "a future was polled before anybody polled its handle");
    let mut raw_fns: Vec<ArcFn> = vec![];
    for i in 0..p.len() {
        if i == stop { break }
        let wakes0 = cnt.wakes.load(SeqCst);
        let res = tracked(|| catch_unwind(AssertUnwindSafe(|| match how {
            How::Dyn => h.as_mut().unwrap().poll_dyn(&mut cx) == PollFuture::Completed,
            How::Await => f.as_mut().unwrap().as_mut().poll(&mut cx).is_ready(),
            How::Raw => unsafe {
                let w: [*mut c_void; 3] = std::mem::transmute_copy(h.as_ref().unwrap());
                let f: unsafe extern "C" fn(*mut c_void, *mut c_void) -> i8 = std::mem::transmute(w[2]);
                match f(w[0], &mut cx as *mut _ as *mut c_void) { 0 => true, -1 => false, x => untracked(|| report::violation(&format!("polling through the table returned {x}"))) }
            },
        })));
        ev("poll");
        ck!(fate.polls.load(SeqCst) == i as u64 + 1, "one poll of a handle polled the future {} times", fate.polls.load(SeqCst) - i as u64);
        match (p[i], res) {
            (Act::Ready, Ok(true)) => { let g = slot.lock().unwrap(); ck!(matches!(&*g, Some(o) if o.id == id), "a completed future left no output or a wrong one") }
            (Act::Panic, Err(e)) => { ck!(e.downcast_ref::<u64>() == Some(&id), "a panicking future raised something else"); untracked(|| drop(e)); ev("future_panicked") }
            (a, Ok(done)) => ck!(!done && !matches!(a, Act::Ready | Act::Panic), "polling a future whose step was {a:?} said {}", if done { "completed" } else { "pending" }),
            (a, Err(_)) => ck!(false, "polling a future whose step was {a:?} panicked"),
        }
        let now = match p[i] { Act::Now | Act::NowOwned => 1, _ => 0 };
        ck!(cnt.wakes.load(SeqCst) - wakes0 == now, "a step that wakes its task {now} times woke it {} times", cnt.wakes.load(SeqCst) - wakes0);
        let mut later: Vec<Waker> = untracked(|| std::mem::take(&mut *sink.lock().unwrap()));
        let n = later.len() as u64;
        let wakes1 = cnt.wakes.load(SeqCst);
        if r.chance(1, 3) && !later.is_empty() { untracked(|| { let l = later; std::thread::spawn(move || for w in l { w.wake() }).join().unwrap() }) } else { for w in later.drain(..) { w.wake() } }
        ck!(cnt.wakes.load(SeqCst) - wakes1 == n, "{n} stored wakers woke the task {} times", cnt.wakes.load(SeqCst) - wakes1);
        // what C does with a task context
        if r.chance(1, 3) && !cfg!(miri) {
            let w0 = cnt.wakes.load(SeqCst);
            let c = &cx as *const _ as *const c_void;
            unsafe {
                rust_future_task_context_wake(c);
                ck!(cnt.wakes.load(SeqCst) == w0 + 1, "waking through the exported helper woke the task {} times", cnt.wakes.load(SeqCst) - w0);
                let k = tracked(|| rust_future_task_context_get_waker(c));
                (k.call.unwrap())(k.env);
                ck!(cnt.wakes.load(SeqCst) == w0 + 2, "the exported waker did not wake the task");
                if r.chance(1, 2) { (k.retain.unwrap())(k.env); (k.call.unwrap())(k.env); (k.release.unwrap())(k.env) }
                if r.chance(1, 2) { untracked(|| raw_fns.push(k)) } else { tracked(|| (k.release.unwrap())(k.env)) }
            }
            ev("exported_waker");
        }
        seen_parts(&[2, how as u64, p[i] as u64, i as u64]);
    }
    if stop < p.len() { ev("dropped_early") }
    tracked(|| { drop(h.take()); drop(f.take()) });
    for k in raw_fns { unsafe { let w = cnt.wakes.load(SeqCst); (k.call.unwrap())(k.env); ck!(cnt.wakes.load(SeqCst) == w + 1, "an exported waker died with its future"); tracked(|| (k.release.unwrap())(k.env)) } }
    drop(waker);
    ck!(Arc::strong_count(&cnt) == 1, "{} references to a waker were leaked", Arc::strong_count(&cnt) - 1);
}

// ------------------------------------------------------------ a hand-written executor, stepped by the harness
type Task = VirtualPtr<dyn 'static + Send + FfiFuture>;
#[derive(Default)]
struct Done { over: AtomicBool, waker: Mutex<Option<Waker>> }
struct Join(Arc<Done>, Arc<AtomicI64>);
impl Future for Join {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let mut g = self.0.waker.lock().unwrap();
        if self.0.over.load(SeqCst) { Poll::Ready(()) } else { *g = Some(cx.waker().clone()); Poll::Pending }
    }
}
impl Drop for Join { fn drop(&mut self) { self.1.fetch_sub(1, SeqCst); } }
enum Job { Fut(Pin<Box<dyn Future<Output = ()> + Send>>), Act(repr_c::Box<dyn 'static + Send + FnMut()>) }
struct TaskWake { ready: AtomicBool }
impl Wake for TaskWake { fn wake(self: Arc<Self>) { self.ready.store(true, SeqCst) } }
struct Queued { job: Option<Job>, wake: Arc<TaskWake>, done: Arc<Done> }
#[derive(Default)]
struct Core { queue: VecDeque<Queued>, spawned: u64, sink: Option<Sink> }
#[derive(Clone)]
struct Exec { core: Arc<Mutex<Core>>, alive: Arc<AtomicI64>, joins: Arc<AtomicI64>, entered: Arc<AtomicI64> }
struct Entered(Arc<AtomicI64>);
impl Drop for Entered { fn drop(&mut self) { self.0.fetch_sub(1, SeqCst); } }
struct ExecObj(Exec);
impl Clone for ExecObj { fn clone(&self) -> Self { self.0.alive.fetch_add(1, SeqCst); ExecObj(self.0.clone()) } }
impl Drop for ExecObj { fn drop(&mut self) { self.0.alive.fetch_sub(1, SeqCst); } }
impl Exec {
    fn push(&self, job: Job) -> Task {
        let done = untracked(|| Arc::new(Done::default()));
        untracked(|| { let mut c = self.core.lock().unwrap(); c.spawned += 1; c.queue.push_back(Queued { job: Some(job), wake: Arc::new(TaskWake { ready: AtomicBool::new(true) }), done: done.clone() }) });
        self.joins.fetch_add(1, SeqCst);
        Box::pin(Join(done, untracked(|| self.joins.clone()))).into()
    }
    /// runs or forgets one queued job; false: nothing can run
    fn step(&self, r: &mut Rng, faults: bool) -> bool {
        let mut q = untracked(|| { let mut c = self.core.lock().unwrap(); let n = c.queue.len(); if n == 0 { return None } let i = r.below(n); c.queue.remove(i) });
        let Some(mut q) = q.take() else { return false };
        if faults && r.chance(1, 8) {
            // the executor goes away with the task
            ev("task_lost");
            tracked(|| drop(q.job.take()));
        } else {
            let w: Waker = untracked(|| q.wake.clone().into());
            let mut cx = Context::from_waker(&w);
            match q.job.as_mut().unwrap() {
                Job::Fut(f) => {
                    if !q.wake.ready.swap(false, SeqCst) { untracked(|| self.core.lock().unwrap().queue.push_back(q)); return true }
                    if tracked(|| f.as_mut().poll(&mut cx)).is_pending() { untracked(|| self.core.lock().unwrap().queue.push_back(q)); return true }
                }
                Job::Act(a) => tracked(|| a.call()),
            }
            ev("task_ran");
            tracked(|| drop(q.job.take()));
        }
        let w = { let mut g = q.done.waker.lock().unwrap(); q.done.over.store(true, SeqCst); g.take() };
        if let Some(w) = w { w.wake() }
        untracked(|| drop(q));
        true
    }
}
impl FfiFutureExecutor for ExecObj {
    fn dyn_spawn(&self, future: Task) -> Task { self.0.push(Job::Fut(Box::pin(future.into_future()))) }
    fn dyn_spawn_blocking(&self, action: repr_c::Box<dyn 'static + Send + FnMut()>) -> Task { self.0.push(Job::Act(action)) }
    fn dyn_block_on(&self, future: VirtualPtr<dyn '_ + FfiFuture>) {
        let mut f = Box::pin(future.into_future());
        let tw = untracked(|| Arc::new(TaskWake { ready: AtomicBool::new(true) }));
        let w: Waker = untracked(|| tw.clone().into());
        let mut cx = Context::from_waker(&w);
        let mut r = Rng::for_history(7, 7, 7);
        loop {
            if tw.ready.swap(false, SeqCst) { if f.as_mut().poll(&mut cx).is_ready() { return } }
            else {
                let sink = untracked(|| self.0.core.lock().unwrap().sink.clone());
                let ws = untracked(|| sink.map(|s| std::mem::take(&mut *s.lock().unwrap())).unwrap_or_default());
                let any = !ws.is_empty();
                for w in ws { w.wake() }
                let stepped = self.0.step(&mut r, false);
                ck!(any || stepped || tw.ready.load(SeqCst), "a future that was blocked on can never be woken any more");
            }
        }
    }
    fn dyn_enter(&self) -> VirtualPtr<dyn '_ + DropGlue> {
        self.0.entered.fetch_add(1, SeqCst);
        Box::new(ImplDropGlue(Entered(untracked(|| self.0.entered.clone())))).into()
    }
}

/// the methods are inherent on two types
trait Ex { fn spawn_(&self, f: Script) -> Pin<Box<dyn Future<Output = Out>>>; fn spawn_blocking_(&self, f: Box<dyn FnOnce() -> Out + Send>) -> Pin<Box<dyn Future<Output = Result<Out, ()>>>>; fn block_on_<'a>(&self, f: Pin<Box<dyn Future<Output = Out> + 'a>>) -> Out; fn enter_<'a>(&'a self) -> Box<dyn FnOnce() + 'a>; fn within_(&self, f: Script) -> Pin<Box<dyn Future<Output = Out>>>; fn block_within_<'a>(&self, f: Pin<Box<dyn Future<Output = Out> + 'a>>) -> Out; fn dup(&self) -> Box<dyn Ex>; }
macro_rules! ex { ($($t:ty),*) => { $(impl Ex for $t {
    fn spawn_(&self, f: Script) -> Pin<Box<dyn Future<Output = Out>>> { Box::pin(self.spawn(f)) }
    fn spawn_blocking_(&self, f: Box<dyn FnOnce() -> Out + Send>) -> Pin<Box<dyn Future<Output = Result<Out, ()>>>> { let f = self.spawn_blocking(f); Box::pin(async move { f.await.map_err(|_| ()) }) }
    fn block_on_<'a>(&self, f: Pin<Box<dyn Future<Output = Out> + 'a>>) -> Out { self.block_on(f) }
    fn enter_<'a>(&'a self) -> Box<dyn FnOnce() + 'a> { let g = self.enter(); Box::new(move || drop(g)) }
    fn within_(&self, f: Script) -> Pin<Box<dyn Future<Output = Out>>> { Box::pin(self.spawn_within_tokio_reactor(f)) }
    fn block_within_<'a>(&self, f: Pin<Box<dyn Future<Output = Out> + 'a>>) -> Out { self.block_on_within_tokio_reactor(f) }
    fn dup(&self) -> Box<dyn Ex> { Box::new(self.clone()) }
})* } }
ex! { VirtualPtr<dyn 'static + FfiFutureExecutor>, VirtualPtr<dyn 'static + FfiFutureExecutor + Send + Sync> }

fn make<E: FfiFutureExecutor + Clone + Send + Sync + 'static>(r: &mut Rng, e: E) -> Box<dyn Ex> {
    match r.below(4) {
        0 => { let v: VirtualPtr<dyn 'static + FfiFutureExecutor> = tracked(|| Box::new(e).into()); Box::new(v) }
        1 => { let v: VirtualPtr<dyn 'static + FfiFutureExecutor> = tracked(|| Arc::new(e).into()); Box::new(v) }
        2 => { let v: VirtualPtr<dyn 'static + FfiFutureExecutor + Send + Sync> = tracked(|| Box::new(e).into()); Box::new(v) }
        _ => { let v: VirtualPtr<dyn 'static + FfiFutureExecutor + Send + Sync> = tracked(|| Arc::new(e).into()); Box::new(v) }
    }
}

/// what was asked of an executor and what came of it
struct Asked { id: u64, plan: Vec<Act>, fate: Arc<Fate>, blocking: bool, h: Option<Pin<Box<dyn Future<Output = Result<Out, ()>>>>>, got: bool }
fn settle(a: &Asked, runs: u64) {
    let f = &a.fate;
    ck!(f.live.load(SeqCst) == 0, "a task given to an executor was not dropped exactly once ({} left)", f.live.load(SeqCst));
    ck!(f.outs.load(SeqCst) == 0, "an output of a task was lost or dropped twice ({} left)", f.outs.load(SeqCst));
    ck!(f.made.load(SeqCst) <= 1 && f.done.load(SeqCst) <= 1, "a task ran {} times", f.done.load(SeqCst));
    ck!(!a.got || f.made.load(SeqCst) == 1, "an output was delivered that no task made");
    if runs == 1 && !f.panicked.load(SeqCst) { ck!(f.done.load(SeqCst) == 1, "a task given to an executor never ran") }
}
fn executor(r: &mut Rng) {
    let sink: Sink = untracked(Default::default);
    let core = untracked(|| Arc::new(Mutex::new(Core { sink: Some(sink.clone()), ..Core::default() })));
    let exec = Exec { core, alive: Default::default(), joins: Default::default(), entered: Default::default() };
    exec.alive.fetch_add(1, SeqCst);
    let mut hs: Vec<Box<dyn Ex>> = vec![make(r, ExecObj(exec.clone()))];
    let faults = r.chance(1, 3);
    let mut asked: Vec<Asked> = vec![];
    let mut lost_possible = faults;
    let cnt = untracked(|| Arc::new(Count { wakes: AtomicU64::new(0) }));
    let waker: Waker = untracked(|| cnt.clone().into());
    let mut cx = Context::from_waker(&waker);
    let mut seq = 0u64;
    for _ in 0..3 + r.below(12) {
        if hs.is_empty() { break }
        let i = r.below(hs.len());
        let op = r.below(10);
        seq = fold(&[seq, op as u64]);
        match op {
            0 | 1 => {
                let fate = untracked(|| Arc::new(Fate::default()));
                let (id, p) = (r.next(), plan(r, false));
                let within = r.chance(1, 4) && !cfg!(miri);
                let h = tracked(|| { let s = Script::new(id, &p, &fate, &sink); let f = if within { hs[i].within_(s) } else { hs[i].spawn_(s) }; Box::pin(async move { Ok(f.await) }) as Pin<Box<dyn Future<Output = Result<Out, ()>>>> });
                ev("spawn");
                asked.push(Asked { id, plan: p, fate, blocking: false, h: Some(h), got: false });
            }
            2 | 3 => {
                let fate = untracked(|| Arc::new(Fate::default()));
                let id = r.next();
                let f2 = fate.clone();
                let h = tracked(|| { fate.live.fetch_add(1, SeqCst); struct L(Arc<Fate>); impl Drop for L { fn drop(&mut self) { self.0.live.fetch_sub(1, SeqCst); } } let l = L(f2); hs[i].spawn_blocking_(Box::new(move || { let l = l; l.0.done.fetch_add(1, SeqCst); Out::new(id, &l.0) })) });
                ev("spawn_blocking");
                asked.push(Asked { id, plan: vec![Act::Ready], fate, blocking: true, h: Some(h), got: false });
            }
            4 => {
                // block on a borrowed, thread-bound future
                let fate = untracked(|| Arc::new(Fate::default()));
                let (id, p) = (r.next(), plan(r, false));
                let local = std::rc::Rc::new(std::cell::Cell::new(0u32));
                let within = r.chance(1, 4) && !cfg!(miri);
                let o = tracked(|| { let s = Script::new(id, &p, &fate, &sink); let l = &local; let f = Box::pin(async move { let o = s.await; l.set(l.get() + 1); o }); if within { hs[i].block_within_(f) } else { hs[i].block_on_(f) } });
                ck!(o.id == id && local.get() == 1, "blocking on a future returned something else than its output");
                ck!(fate.polls.load(SeqCst) == p.len() as u64, "a future with {} steps was polled {} times", p.len(), fate.polls.load(SeqCst));
                tracked(|| drop(o));
                settle(&Asked { id, plan: p, fate, blocking: false, h: None, got: true }, 1);
                ev("block_on");
            }
            5 => {
                let n = exec.entered.load(SeqCst);
                let g = tracked(|| hs[i].enter_());
                ck!(exec.entered.load(SeqCst) == n + 1, "entering an executor entered it {} times", exec.entered.load(SeqCst) - n);
                tracked(|| g());
                ck!(exec.entered.load(SeqCst) == n, "leaving an executor's context left it {} times", n + 1 - exec.entered.load(SeqCst));
                ev("enter");
            }
            6 => { let c = tracked(|| hs[i].dup()); hs.push(c); ev("clone"); }
            7 => { let h = hs.swap_remove(i); tracked(|| drop(h)); ev("drop") }
            8 if !asked.is_empty() => {
                // poll or abandon a handle
                let k = r.below(asked.len());
                let a = &mut asked[k];
                if r.chance(1, 4) { tracked(|| drop(a.h.take())); ev("handle_dropped") } else { poll_handle(a, &mut cx, lost_possible) }
            }
            _ => { for _ in 0..1 + r.below(4) { exec.step(r, faults); } for w in untracked(|| std::mem::take(&mut *sink.lock().unwrap())) { w.wake() } }
        }
    }
    while let Some(h) = hs.pop() { tracked(|| drop(h)); }
    ck!(exec.alive.load(SeqCst) == 0, "after its last handle was dropped, {} executors are alive", exec.alive.load(SeqCst));
    // run everything to its end, then every handle must have something to say
    let abandon = r.chance(1, 6);
    if abandon { lost_possible = true; loop { let q = untracked(|| exec.core.lock().unwrap().queue.pop_front()); let Some(mut q) = q else { break }; tracked(|| drop(q.job.take())); let w = { let mut g = q.done.waker.lock().unwrap(); q.done.over.store(true, SeqCst); g.take() }; if let Some(w) = w { w.wake() } ; ev("task_lost"); untracked(|| drop(q)) } }
    let mut guard = 0;
    while exec.step(r, faults) { for w in untracked(|| std::mem::take(&mut *sink.lock().unwrap())) { w.wake() } guard += 1; ck!(guard < 10_000, "a task that can progress was never woken"); }
    for mut a in asked {
        if a.h.is_some() { poll_handle(&mut a, &mut cx, lost_possible); ck!(a.h.is_none(), "a handle says its task is pending although it is over"); }
        settle(&a, !lost_possible as u64);
        if a.fate.done.load(SeqCst) == 1 && !a.blocking { ck!(a.fate.polls.load(SeqCst) == a.plan.len() as u64, "a task with {} steps was polled {} times", a.plan.len(), a.fate.polls.load(SeqCst)) }
    }
    ck!(exec.joins.load(SeqCst) == 0, "{} handles given out by an executor were leaked", exec.joins.load(SeqCst));
    untracked(|| { exec.core.lock().unwrap().queue.clear() });
    ev("executor");
    seen_parts(&[3, seq, faults as u64, abandon as u64]);
}
fn poll_handle(a: &mut Asked, cx: &mut Context<'_>, lost: bool) {
    let Some(h) = &mut a.h else { return };
    let done = a.fate.done.load(SeqCst) == 1;
    match tracked(|| catch_unwind(AssertUnwindSafe(|| h.as_mut().poll(cx)))) {
        Ok(Poll::Pending) => {}
        Ok(Poll::Ready(Ok(o))) => { ck!(done && o.id == a.id, "a handle delivered an output that is not its task's"); a.got = true; tracked(|| drop(o)); a.h = None; ev("delivered") }
        Ok(Poll::Ready(Err(()))) => { ck!(lost && a.blocking && !done, "a handle says its work was cancelled although it {}", if done { "ran" } else { "was not" }); a.h = None; ev("cancelled") }
        Err(e) => { let s = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())); ck!(lost && !a.blocking && !done, "awaiting a handle panicked: {s:?}"); untracked(|| drop(e)); tracked(|| a.h = None); ev("lost_reported") }
    }
}

// ------------------------------------------------------------ tokio
fn tokio_history(r: &mut Rng, threads: usize) {
    let sink: Sink = Default::default();
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(threads).max_blocking_threads(2).build().unwrap();
    let h = make(r, rt.handle().clone());
    // another thread wakes what asked to be woken later
    let stop = Arc::new(AtomicBool::new(false));
    let waker = { let (s, st) = (sink.clone(), stop.clone()); std::thread::spawn(move || loop { let ws = std::mem::take(&mut *s.lock().unwrap()); if ws.is_empty() { if st.load(SeqCst) { break } std::thread::yield_now(); } for w in ws { w.wake() } }) };
    let mut kept: Vec<(u64, Vec<Act>, Arc<Fate>)> = vec![];
    let n = if cfg!(miri) { 2 } else { 1 + r.below(6) };
    let mut tasks: Vec<(u64, Vec<Act>, Arc<Fate>, Pin<Box<dyn Future<Output = Out>>>)> = vec![];
    let mut blocking: Vec<(u64, Arc<Fate>, Pin<Box<dyn Future<Output = Result<Out, ()>>>>, bool)> = vec![];
    for _ in 0..n {
        let fate = Arc::new(Fate::default());
        let id = r.next();
        match r.below(3) {
            0 | 1 => { let p = plan(r, PANICS); let s = Script::new(id, &p, &fate, &sink); let f = if r.chance(1, 5) && !cfg!(miri) { h.within_(s) } else { h.spawn_(s) }; ev("spawn"); if r.chance(1, 4) { drop(f); ev("handle_dropped"); kept.push((id, p, fate)) } else { tasks.push((id, p, fate, f)) } }
            _ => { let f2 = fate.clone(); let boom = PANICS && r.chance(1, 4); let f = h.spawn_blocking_(Box::new(move || { f2.done.fetch_add(1, SeqCst); if boom { std::panic::panic_any(id) } Out::new(id, &f2) })); ev("spawn_blocking"); blocking.push((id, fate, f, boom)) }
        }
    }
    if r.chance(1, 2) {
        let g = h.enter_();
        let t = tokio::runtime::Handle::try_current();
        ck!(t.is_ok(), "inside `enter` there is no current runtime");
        drop(t);
        g();
        ck!(tokio::runtime::Handle::try_current().is_err(), "after leaving `enter` there still is a current runtime");
        ev("enter");
    }
    let mut results = vec![];
    {
        let (tasks, blocking) = (&mut tasks, &mut blocking);
        let results = &mut results;
        let bid = r.next();
        let bf = Arc::new(Fate::default());
        let bp = plan(r, false);
        let bs = Script::new(bid, &bp, &bf, &sink);
        struct Catch<'a>(Pin<&'a mut (dyn Future<Output = Out>)>);
        let out = h.block_on_(Box::pin(async move {
            for (id, p, fate, f) in tasks.iter_mut() {
                let res = std::future::poll_fn(|cx| match catch_unwind(AssertUnwindSafe(|| f.as_mut().poll(cx))) { Ok(Poll::Pending) => Poll::Pending, Ok(Poll::Ready(o)) => Poll::Ready(Ok(o)), Err(e) => Poll::Ready(Err(e)) }).await;
                results.push((*id, p.clone(), fate.clone(), res));
            }
            for (id, fate, f, boom) in blocking.iter_mut() {
                let res = std::future::poll_fn(|cx| match catch_unwind(AssertUnwindSafe(|| f.as_mut().poll(cx))) { Ok(Poll::Pending) => Poll::Pending, Ok(Poll::Ready(o)) => Poll::Ready(Ok(o)), Err(e) => Poll::Ready(Err(e)) }).await;
                match res {
                    Ok(Ok(o)) => { ck!(!*boom && o.id == *id, "a blocking action's handle delivered a wrong output"); ev("delivered") }
                    Ok(Err(())) => ck!(false, "a blocking action was reported as cancelled"),
                    Err(e) => { ck!(*boom && e.downcast_ref::<u64>() == Some(id), "awaiting a blocking action raised a wrong panic"); ev("panic_delivered") }
                }
                ck!(fate.done.load(SeqCst) == 1, "a blocking action ran {} times", fate.done.load(SeqCst));
                ck!(fate.outs.load(SeqCst) == 0, "the output of a blocking action was lost or dropped twice");
            }
            bs.await
        }));
        ck!(out.id == bid, "blocking on a future returned something else than its output");
        drop(out);
        ck!(bf.live.load(SeqCst) == 0 && bf.outs.load(SeqCst) == 0 && bf.done.load(SeqCst) == 1, "a future that was blocked on was not run and dropped exactly once");
        ev("block_on");
    }
    for (id, p, fate, res) in results {
        match res {
            Ok(o) => { ck!(p[p.len() - 1] == Act::Ready && o.id == id, "a task's handle delivered a wrong output"); drop(o); ev("delivered") }
            Err(e) => { ck!(p[p.len() - 1] == Act::Panic && e.downcast_ref::<u64>() == Some(&id), "awaiting a task raised a wrong panic"); ev("panic_delivered") }
        }
        ck!(fate.polls.load(SeqCst) >= p.len() as u64, "a task completed in fewer polls than it has steps");
        kept.push((id, p, fate));
    }
    drop(tasks);
    drop(blocking);
    // abandoned tasks still run: wait for them, or let the runtime go and see them cancelled
    let cancel = r.chance(1, 3);
    if !cancel {
        let t0 = std::time::Instant::now();
        while kept.iter().any(|(_, _, f)| f.live.load(SeqCst) != 0) { std::thread::yield_now(); ck!(t0.elapsed().as_secs() < 60, "a task whose handle was dropped never completed"); }
        for (_, p, f) in &kept { ck!(f.done.load(SeqCst) + f.panicked.load(SeqCst) as u64 == 1, "a task whose handle was dropped did not run to its end") }
    }
    drop(h);
    drop(rt);
    stop.store(true, SeqCst);
    waker.join().unwrap();
    for (_, p, f) in &kept {
        ck!(f.live.load(SeqCst) == 0, "a task was not dropped exactly once ({} left after its runtime is gone)", f.live.load(SeqCst));
        ck!(f.outs.load(SeqCst) == 0, "an output of a task was lost or dropped twice");
        ck!(f.made.load(SeqCst) <= 1, "a task produced {} outputs", f.made.load(SeqCst));
    }
    ev("tokio_history");
    seen_parts(&[4, threads as u64, n as u64, cancel as u64, fold(&kept.iter().map(|(_, p, _)| fold(&p.iter().map(|a| *a as u64).collect::<Vec<_>>())).collect::<Vec<_>>())]);
}

async fn async_compat_warm() {}
fn futures_block<F: Future<Output = ()> + Send + 'static>(f: F) {
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let v: VirtualPtr<dyn 'static + FfiFutureExecutor> = Box::new(rt.handle().clone()).into();
    v.block_on_within_tokio_reactor(f)
}
pub fn run(o: &Opts) {
    std::panic::set_hook(Box::new(|_| {}));
    // `async_compat` keeps one runtime for the whole process: have it made before counting
    if !cfg!(miri) { futures_block(async_compat_warm()) }
    o.histories(10, |mut r, i| {
        let live0 = ledger::live();
        untracked(|| if r.chance(1, 2) { by_hand(&mut r) } else { executor(&mut r) });
        ck!(!ledger::ON || ledger::live() == live0, "a history of futures leaked {} blocks", ledger::live() - live0);
        if let Some(e) = ledger::error() { report::violation(&format!("allocator ledger: {e}")) }
        report::sample(|| format!("history {i}: {} tracked blocks live before and after", live0));
    });
}
pub fn run_mt(o: &Opts) {
    std::panic::set_hook(Box::new(|_| {}));
    o.histories(11, |mut r, i| {
        let t = 1 + r.below(if cfg!(miri) { 1 } else { 3 });
        tokio_history(&mut r, t);
        if let Some(e) = ledger::error() { report::violation(&format!("allocator ledger: {e}")) }
    });
}
