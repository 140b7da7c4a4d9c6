// Included by programs with exported async functions: executors, suspending futures and their event log.
use ::core::{future::Future, pin::Pin, task::{Context, Poll, Waker}};
use ::std::sync::{atomic::{AtomicU32, Ordering::SeqCst}, Arc};
use ::safer_ffi::dyn_traits::futures::{FfiFuture, FfiFutureExecutor};

#[repr(C)] pub struct Aux { pub susp: u32, pub wake: u32, pub early: u32, pub n: AtomicU32, pub log: [u8; 4080] }
static mut AUX: *mut Aux = 0 as *mut Aux;
#[no_mangle] pub unsafe extern "C" fn vf_set_aux(a: *mut Aux) -> usize { AUX = a; mem::size_of::<Aux>() }
fn aux() -> &'static mut Aux { unsafe { &mut *AUX } }
fn alog(e: u8) { let a = aux(); let i = a.n.fetch_add(1, SeqCst) as usize; if i < a.log.len() { a.log[i] = e } }
fn early() -> bool { aux().early != 0 }
fn apanic(at: u32) { unsafe { if at != 0 && rec().panic == at { panic!("VFMSG at {}", at) } } }
/// says when it is dropped
pub struct Guard(u8, u32);
impl Drop for Guard { fn drop(&mut self) { alog(self.0); if !::std::thread::panicking() { apanic(self.1) } } }
/// pending as often as asked for
pub struct Suspend { left: u32, wake: u32, kept: Vec<Waker> }
fn suspend() -> Suspend { Suspend { left: aux().susp, wake: aux().wake, kept: vec![] } }
impl Future for Suspend {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.left == 0 { alog(b'r'); return Poll::Ready(()) }
        self.left -= 1;
        alog(b's');
        let w = cx.waker().clone();
        match self.wake {
            0 => w.wake_by_ref(),
            1 => { ::std::thread::spawn(move || { ::std::thread::yield_now(); w.wake() }); }
            2 => { w.wake_by_ref(); let v = w.clone(); ::std::thread::spawn(move || v.wake()); w.wake(); }
            3 => { self.kept.push(w.clone()); ::std::thread::spawn(move || { ::std::thread::sleep(::std::time::Duration::from_micros(200)); w.wake_by_ref(); drop(w) }); }
            _ => { self.kept.push(w); let v = self.kept[0].clone(); v.wake() }
        }
        Poll::Pending
    }
}
/// the future an export awaits, with its polls logged
struct Logged<F>(F);
impl<F: Future> Future for Logged<F> {
    type Output = F::Output;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        alog(b'p');
        let r = unsafe { self.map_unchecked_mut(|it| &mut it.0) }.poll(cx);
        alog(if r.is_ready() { b'd' } else { b'q' });
        r
    }
}
struct Parked(::std::thread::Thread);
impl ::std::task::Wake for Parked { fn wake(self: Arc<Self>) { self.0.unpark() } }
pub fn ex_park<F: Future>(f: F) -> F::Output {
    alog(b'B');
    let mut f = Box::pin(Logged(f));
    let w: Waker = Arc::new(Parked(::std::thread::current())).into();
    let mut cx = Context::from_waker(&w);
    let r = loop { if let Poll::Ready(r) = f.as_mut().poll(&mut cx) { break r } ::std::thread::park(); };
    drop(f);
    alog(b'R');
    r
}
/// polls without having been woken
pub fn ex_spin<F: Future>(f: F) -> F::Output {
    alog(b'B');
    let f = Logged(f);
    ::futures::pin_mut!(f);
    let w = ::futures::task::noop_waker();
    let mut cx = Context::from_waker(&w);
    let r = loop { if let Poll::Ready(r) = f.as_mut().poll(&mut cx) { break r } ::std::thread::yield_now(); };
    alog(b'R');
    r
}
struct Ex;
impl FfiFutureExecutor for Ex {
    fn dyn_spawn(&self, _: VirtualPtr<dyn 'static + Send + FfiFuture>) -> VirtualPtr<dyn 'static + Send + FfiFuture> { unreachable!() }
    fn dyn_spawn_blocking(&self, _: repr_c::Box<dyn 'static + Send + FnMut()>) -> VirtualPtr<dyn 'static + Send + FfiFuture> { unreachable!() }
    fn dyn_block_on(&self, future: VirtualPtr<dyn '_ + FfiFuture>) { ex_park(future.into_future()) }
}
pub fn ex_virtual<F: Future>(f: F) -> F::Output {
    let v: VirtualPtr<dyn 'static + FfiFutureExecutor + Send + Sync> = ::std::sync::Arc::new(Ex).into();
    v.clone().block_on(f)
}
pub fn ex_futures<F: Future>(f: F) -> F::Output { ::futures::executor::block_on(f) }
pub fn ex_pool<F: Future>(f: F) -> F::Output { ::futures::executor::LocalPool::new().run_until(f) }
pub mod inner { pub mod executors { pub use super::super::{ex_futures, ex_park, ex_pool, ex_spin, ex_virtual}; } }
