#![allow(warnings)]
// Virtual objects, futures and executors that cross the boundary in both directions: virtual.c has implementations of its own of every trait here.
use ::safer_ffi::prelude::*;
use ::safer_ffi::prelude::Out;
use ::safer_ffi::closure::*;
use ::safer_ffi::dyn_traits::VirtualPtr;
use ::safer_ffi::dyn_traits::futures::{FfiFuture, FfiFutureExecutor};
use ::safer_ffi::layout::{ReprC, CLayoutOf};
use ::std::future::Future;
use ::std::pin::Pin;
use ::std::sync::{Arc, Mutex, Condvar, atomic::{AtomicI64, AtomicU64, AtomicBool, Ordering::SeqCst}};
use ::std::task::{Context, Poll, Wake, Waker};
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/support.rs"));
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/monitor.rs"));
::safer_ffi::ffi_export_future_helpers!();

#[derive_ReprC] #[repr(C)] #[derive(Clone, Copy, Debug, PartialEq)]
pub struct Reading { a: u64, b: f64, c: u8, d: [u16; 5] }

// ---- a shared trait
#[derive_ReprC(dyn, Clone)]
pub trait Meter: Send + Sync {
    fn put(&self, x: u32) -> u64;
    fn total(&self) -> u64;
    fn reading(&self, base: Reading, scale: f32) -> Reading;
    fn each(&self, upto: u32, f: RefDynFnMut1<'_, (), u64>);
    fn fill(&self, out: c_slice::Mut<'_, u64>) -> usize;
    fn label(&self, suffix: char_p::Ref<'_>) -> Option<char_p::Box>;
    fn try_div(&self, by: i64, out: Out<'_, i64>) -> bool;
}
pub type DynMeter = VirtualPtr<dyn 'static + Meter>;
/// kept behind an `Arc`: every handle is the same meter
struct Shared { t: Tracked, k: u32, sum: AtomicU64 }
impl Shared { fn new(k: u32) -> Self { Shared { t: Tracked::new(), k, sum: AtomicU64::new(0) } } }
impl Clone for Shared { fn clone(&self) -> Self { self.t.check(); Shared { t: Tracked::new(), k: self.k, sum: AtomicU64::new(self.sum.load(SeqCst)) } } }
impl Meter for Shared {
    fn put(&self, x: u32) -> u64 { self.t.check(); self.sum.fetch_add(x as u64 + self.k as u64, SeqCst) + x as u64 + self.k as u64 }
    fn total(&self) -> u64 { self.t.check(); self.sum.load(SeqCst) }
    fn reading(&self, r: Reading, scale: f32) -> Reading { self.t.check(); let mut d = r.d; d.reverse(); Reading { a: r.a.wrapping_add(self.k as u64), b: r.b * scale as f64, c: !r.c, d } }
    fn each(&self, upto: u32, mut f: RefDynFnMut1<'_, (), u64>) { self.t.check(); for i in 0..upto { f.call(i as u64 * self.k as u64) } }
    fn fill(&self, mut out: c_slice::Mut<'_, u64>) -> usize { self.t.check(); for (i, o) in out.iter_mut().enumerate() { *o = i as u64 ^ self.k as u64 } out.len() }
    fn label(&self, s: char_p::Ref<'_>) -> Option<char_p::Box> { self.t.check(); if self.k % 5 == 0 { None } else { Some(format!("{}{}", self.k, s.to_str()).try_into().unwrap()) } }
    fn try_div(&self, by: i64, out: Out<'_, i64>) -> bool { self.t.check(); match (self.k as i64).checked_div(by) { Some(v) => { out.write(v); true } None => false } }
}
#[ffi_export] fn meter_shared(k: u32) -> DynMeter { Arc::new(Shared::new(k)).into() }
#[ffi_export] fn meter_own(k: u32) -> DynMeter { Box::new(Shared::new(k)).into() }
#[ffi_export] fn meter_clone(m: &DynMeter) -> DynMeter { m.clone() }
#[ffi_export] fn meter_free(m: Option<DynMeter>) { drop(m) }
#[ffi_export] fn meter_put(m: &DynMeter, x: u32) -> u64 { m.put(x) }
#[ffi_export] fn meter_total(m: &DynMeter) -> u64 { m.total() }
#[ffi_export] fn meter_reading(m: &DynMeter, r: Reading, scale: f32) -> Reading { m.reading(r, scale) }
#[ffi_export] fn meter_each(m: &DynMeter, upto: u32, f: RefDynFnMut1<'_, (), u64>) { m.each(upto, f) }
#[ffi_export] fn meter_fill(m: &DynMeter, out: c_slice::Mut<'_, u64>) -> usize { m.fill(out) }
#[ffi_export] fn meter_label(m: &DynMeter, s: char_p::Ref<'_>) -> Option<char_p::Box> { m.label(s) }
#[ffi_export] fn meter_try_div(m: &DynMeter, by: i64, out: Out<'_, i64>) -> bool { m.try_div(by, out) }
#[ffi_export] fn text_copy(s: char_p::Ref<'_>) -> char_p::Box { s.to_owned() }
#[ffi_export] fn text_free(s: Option<char_p::Box>) { drop(s) }
/// every thread has a handle of its own, and makes and drops more
#[ffi_export] fn meter_threads(m: &DynMeter, n: u32, k: u32) -> u64 {
    (0..n).map(|t| { let m = m.clone(); ::std::thread::spawn(move || { for i in 0..k { let h = m.clone(); h.put(t * 1000 + i); } m }) }).collect::<Vec<_>>().into_iter().map(|j| j.join().unwrap().total()).max().unwrap_or(0)
}
/// a virtual object made of one: C's, behind a Rust one, behind C's again…
struct Through(DynMeter, Tracked);
impl Clone for Through { fn clone(&self) -> Self { Through(self.0.clone(), Tracked::new()) } }
impl Meter for Through {
    fn put(&self, x: u32) -> u64 { self.0.put(x) }
    fn total(&self) -> u64 { self.0.total() }
    fn reading(&self, r: Reading, scale: f32) -> Reading { self.0.reading(r, scale) }
    fn each(&self, upto: u32, f: RefDynFnMut1<'_, (), u64>) { self.0.each(upto, f) }
    fn fill(&self, out: c_slice::Mut<'_, u64>) -> usize { self.0.fill(out) }
    fn label(&self, s: char_p::Ref<'_>) -> Option<char_p::Box> { self.0.label(s) }
    fn try_div(&self, by: i64, out: Out<'_, i64>) -> bool { self.0.try_div(by, out) }
}
#[ffi_export] fn meter_wrap(m: DynMeter, shared: bool) -> DynMeter { let t = Through(m, Tracked::new()); if shared { Arc::new(t).into() } else { Box::new(t).into() } }

#[derive_ReprC] #[repr(opaque)] pub struct Shelf(Vec<DynMeter>);
#[ffi_export] fn shelf_new() -> repr_c::Box<Shelf> { Box::new(Shelf(vec![])).into() }
#[ffi_export] fn shelf_add(s: &mut Shelf, m: Option<DynMeter>) -> usize { s.0.extend(m); s.0.len() }
#[ffi_export] fn shelf_take(s: &mut Shelf, i: usize) -> Option<DynMeter> { if i < s.0.len() { Some(s.0.remove(i)) } else { None } }
#[ffi_export] fn shelf_get(s: &Shelf, i: usize) -> Option<&DynMeter> { s.0.get(i) }
#[ffi_export] fn shelf_total(s: &Shelf) -> u64 { s.0.iter().map(|m| m.total()).sum() }
#[ffi_export] fn shelf_all(s: &Shelf) -> c_slice::Ref<'_, DynMeter> { s.0.as_slice().into() }
#[ffi_export] fn shelf_free(s: repr_c::Box<Shelf>) { drop(s) }

// ---- an exclusive trait
#[derive_ReprC(dyn)]
pub trait Machine {
    fn step(&mut self, x: i32) -> i32;
    fn peek(&self) -> i64;
    fn swap(&mut self, other: &mut Reading) -> bool;
}
struct Counter { t: Tracked, n: i64, r: Reading }
impl Machine for Counter {
    fn step(&mut self, x: i32) -> i32 { self.t.check(); self.n += x as i64; x.wrapping_mul(2) }
    fn peek(&self) -> i64 { self.t.check(); self.n }
    fn swap(&mut self, o: &mut Reading) -> bool { self.t.check(); ::core::mem::swap(&mut self.r, o); self.r == *o }
}
pub type DynMachine = VirtualPtr<dyn 'static + Machine>;
#[ffi_export] fn machine_new(n: i64, r: Reading) -> DynMachine { Box::new(Counter { t: Tracked::new(), n, r }).into() }
#[ffi_export] fn machine_step(m: &mut DynMachine, x: i32) -> i32 { m.step(x) }
#[ffi_export] fn machine_peek(m: &DynMachine) -> i64 { m.peek() }
#[ffi_export] fn machine_swap(m: &mut DynMachine, r: &mut Reading) -> bool { m.swap(r) }
#[ffi_export] fn machine_run(mut m: DynMachine, xs: c_slice::Ref<'_, i32>) -> i64 { for &x in xs.iter() { m.step(x); } m.peek() }
#[ffi_export] fn machine_free(m: DynMachine) { drop(m) }

// ---- a pinned trait
#[derive_ReprC(dyn)]
pub trait Stays { fn go(self: Pin<&mut Self>, x: u8) -> u16; fn at(&self) -> usize; }
struct Here { t: Tracked, me: AtomicU64, n: u16, _p: ::core::marker::PhantomPinned }
impl Stays for Here {
    fn go(self: Pin<&mut Self>, x: u8) -> u16 {
        self.t.check();
        let p = &*self as *const Here as u64;
        let first = self.me.compare_exchange(0, p, SeqCst, SeqCst);
        assert!(first.is_ok() || first == Err(p), "a pinned object moved");
        unsafe { let s = self.get_unchecked_mut(); s.n = s.n.wrapping_add(x as u16); s.n }
    }
    fn at(&self) -> usize { self.t.check(); self.me.load(SeqCst) as usize }
}
pub type DynStays = VirtualPtr<dyn 'static + Stays>;
#[ffi_export] fn stays_new(n: u16) -> DynStays { Box::pin(Here { t: Tracked::new(), me: AtomicU64::new(0), n, _p: ::core::marker::PhantomPinned }).into() }
#[ffi_export] fn stays_go(s: &mut DynStays, x: u8) -> u16 { Pin::new(s).go(x) }
#[ffi_export] fn stays_at(s: &DynStays) -> usize { s.at() }
#[ffi_export] fn stays_free(s: DynStays) { drop(s) }

// ---- futures
pub type Fut = VirtualPtr<dyn 'static + Send + FfiFuture>;
pub type Exe = VirtualPtr<dyn 'static + FfiFutureExecutor>;
struct Park(Mutex<bool>, Condvar, AtomicU64);
impl Wake for Park { fn wake(self: Arc<Self>) { self.2.fetch_add(1, SeqCst); *self.0.lock().unwrap() = true; self.1.notify_all() } }
/// polls only when woken; a future that is not woken within a minute is lost
fn park_on(mut fut: Fut) -> i64 {
    let p = Arc::new(Park(Mutex::new(true), Condvar::new(), AtomicU64::new(0)));
    let w: Waker = p.clone().into();
    let mut fut = ::std::boxed::Box::pin(fut.into_future());
    let mut polls = 0;
    loop {
        { let mut g = p.0.lock().unwrap(); while !*g { let (h, t) = p.1.wait_timeout(g, ::std::time::Duration::from_secs(60)).unwrap(); g = h; if t.timed_out() && !*g { return -1000000 } } *g = false; }
        polls += 1;
        if fut.as_mut().poll(&mut Context::from_waker(&w)).is_ready() { return polls }
    }
}
#[ffi_export] fn future_drive(f: Fut, how: u32) -> i64 {
    match how % 5 {
        0 => park_on(f),
        1 => { ::futures::executor::block_on(f.into_future()); 0 }
        2 => ::std::thread::spawn(move || park_on(f)).join().unwrap(),
        3 => { let mut pool = ::futures::executor::LocalPool::new(); pool.run_until(async move { let g = async move { f.into_future().await }; ::futures::future::join(g, async {}).await; }); 0 }
        _ => { let exe: Exe = Arc::new(Pool::default()).into(); exe.block_on(async move { f.into_future().await; 0 }) }
    }
}
/// polls at most n times, whether woken or not, and gives the future up
#[ffi_export] fn future_poll(mut f: Fut, n: u32, wakes: Out<'_, u64>) -> i64 {
    let p = Arc::new(Park(Mutex::new(true), Condvar::new(), AtomicU64::new(0)));
    let w: Waker = p.clone().into();
    let mut fut = ::std::boxed::Box::pin(f.into_future());
    let mut r = -1;
    for k in 0..n { if fut.as_mut().poll(&mut Context::from_waker(&w)).is_ready() { r = k as i64; break } }
    drop(fut);
    wakes.write(p.2.load(SeqCst));
    r
}
struct Yield(u32, Tracked, u32);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        self.1.check();
        if self.0 == 0 { return Poll::Ready(()) }
        self.0 -= 1;
        let w = cx.waker().clone();
        if self.2 & 1 == 0 { w.wake() } else { ::std::thread::spawn(move || w.wake()); }
        Poll::Pending
    }
}
#[ffi_export] fn future_rust(n: u32, how: u32, hits: &'static AtomicHits) -> Fut { ::std::boxed::Box::pin(async move { Yield(n, Tracked::new(), how).await; hits.0.fetch_add(1, SeqCst); }).into() }
#[derive_ReprC] #[repr(opaque)] pub struct AtomicHits(AtomicI64);
#[ffi_export] fn hits_new() -> repr_c::Box<AtomicHits> { Box::new(AtomicHits(AtomicI64::new(0))).into() }
#[ffi_export] fn hits_get(h: &AtomicHits) -> i64 { h.0.load(SeqCst) }
#[ffi_export] fn hits_free(h: repr_c::Box<AtomicHits>) { drop(h) }
/// a future around one: C's within Rust's
#[ffi_export] fn future_wrap(f: Fut) -> Fut { let t = Tracked::new(); ::std::boxed::Box::pin(async move { t.check(); f.into_future().await; t.check(); }).into() }
#[ffi_export] fn future_free(f: Fut) { drop(f) }

// ---- executors: one thread per task
#[derive(Default)] struct Pool { t: Option<Tracked>, entered: Arc<AtomicI64> }
struct Done { flag: Mutex<(bool, Option<Waker>)> }
struct Join(Arc<Done>);
impl Future for Join { type Output = (); fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> { let mut g = self.0.flag.lock().unwrap(); if g.0 { Poll::Ready(()) } else { g.1 = Some(cx.waker().clone()); Poll::Pending } } }
fn task(f: impl 'static + Send + FnOnce()) -> Fut {
    let d = Arc::new(Done { flag: Mutex::new((false, None)) });
    let e = d.clone();
    ::std::thread::spawn(move || { f(); let w = { let mut g = e.flag.lock().unwrap(); g.0 = true; g.1.take() }; if let Some(w) = w { w.wake() } });
    ::std::boxed::Box::pin(Join(d)).into()
}
struct Entered(Arc<AtomicI64>);
impl Drop for Entered { fn drop(&mut self) { self.0.fetch_sub(1, SeqCst); } }
impl FfiFutureExecutor for Pool {
    fn dyn_spawn(&self, f: Fut) -> Fut { task(move || { park_on(f); }) }
    fn dyn_spawn_blocking(&self, mut f: repr_c::Box<dyn 'static + Send + FnMut()>) -> Fut { task(move || f.call()) }
    fn dyn_block_on(&self, f: VirtualPtr<dyn '_ + FfiFuture>) { ::futures::executor::block_on(f.into_future()) }
    fn dyn_enter(&self) -> VirtualPtr<dyn '_ + ::safer_ffi::dyn_traits::DropGlue> { self.entered.fetch_add(1, SeqCst); Box::new(::safer_ffi::dyn_traits::ImplDropGlue(Entered(self.entered.clone()))).into() }
}
#[ffi_export] fn exe_new() -> Exe { Arc::new(Pool { t: Some(Tracked::new()), entered: Default::default() }).into() }
#[ffi_export] fn exe_clone(e: &Exe) -> Exe { e.clone() }
#[ffi_export] fn exe_free(e: Exe) { drop(e) }
/// spawns tasks that spawn tasks, through whatever executor this is
#[ffi_export] fn exe_sum(e: &Exe, n: u32) -> u64 {
    let t = Tracked::new();
    let g = e.enter();
    let r = e.block_on(async {
        let mut hs = vec![];
        for i in 0..n {
            let f = e.clone();
            hs.push(e.spawn(async move { let a = f.spawn_blocking(move || i as u64 * 3).await.unwrap(); let b = f.spawn(async move { Yield(i % 3, Tracked::new(), i).await; i as u64 }).await; a + b }));
        }
        let mut s = 0;
        for h in hs { s += h.await }
        t.check();
        s
    });
    drop(g);
    r
}
/// runs a (C) future as a task of a (C) executor
#[ffi_export] fn exe_run(e: &Exe, f: Fut) -> u32 { e.block_on(async { e.spawn(async move { f.into_future().await; 41u32 }).await + 1 }) }
/// gives up what it spawned
#[ffi_export] fn exe_forget(e: &Exe, f: Fut) { drop(e.dyn_spawn(f)) }
