//! C09: virtual objects. Every trait shape (receivers, Clone, thread-safety) over every pointer kind it can be
//! made from, next to the log the objects keep of the methods that ran and a count of live values.
use crate::ledger::{self, tracked, untracked};
use crate::prng::Rng;
use crate::report::{self, ev, fold, seen_parts};
use crate::Opts;
use safer_ffi::dyn_traits::DynDrop;
use safer_ffi::layout::{from_raw_unchecked, into_raw, CLayoutOf};
use safer_ffi::prelude::*;
use std::cell::RefCell;
use std::ffi::c_void;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::*};
use std::sync::Arc;

macro_rules! ck { ($c:expr, $($t:tt)*) => { if !$c { report::violation(&format!($($t)*)) } } }

thread_local! { static LOG: RefCell<Vec<[u64; 4]>> = const { RefCell::new(Vec::new()) }; }
fn log(e: [u64; 4]) { untracked(|| LOG.with(|l| l.borrow_mut().push(e))) }
fn logged() -> Vec<[u64; 4]> { untracked(|| LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))) }

#[derive_ReprC]
#[repr(C)]
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Wide { a: u64, b: u8, c: f64, d: u16 }

pub struct Fate { live: AtomicI64, made: AtomicU64, runs: AtomicU64, dropped_by: AtomicU64 }
fn fate() -> Arc<Fate> { untracked(|| Arc::new(Fate { live: AtomicI64::new(0), made: AtomicU64::new(0), runs: AtomicU64::new(0), dropped_by: AtomicU64::new(0) })) }
/// the object behind the pointers; `K` selects its size and alignment
pub struct Obj<P> { id: u64, canary: u64, val: AtomicU64, heap: Vec<u8>, fate: Arc<Fate>, pad: P }
#[repr(align(32))]
#[derive(Clone, Default)]
pub struct Over(u64);
#[derive(Clone, Default)]
pub struct Small;
fn obj<P: Default>(r: &mut Rng, fate: &Arc<Fate>) -> Obj<P> {
    let id = r.next();
    fate.live.fetch_add(1, SeqCst);
    fate.made.fetch_add(1, SeqCst);
    Obj { id, canary: !id, val: AtomicU64::new(id >> 7), heap: id.to_le_bytes()[..1 + r.below(7)].to_vec(), fate: fate.clone(), pad: P::default() }
}
impl<P> Drop for Obj<P> { fn drop(&mut self) { if self.canary != !self.id { report::violation("an object was already gone when it was destroyed") } self.canary = 0; self.fate.live.fetch_sub(1, SeqCst); } }
impl<P: Clone> Clone for Obj<P> {
    fn clone(&self) -> Self {
        self.fate.live.fetch_add(1, SeqCst);
        self.fate.made.fetch_add(1, SeqCst);
        Obj { id: self.id, canary: self.canary, val: AtomicU64::new(self.val.load(Relaxed)), heap: self.heap.clone(), fate: self.fate.clone(), pad: self.pad.clone() }
    }
}
impl<P> Obj<P> {
    /// method `m` ran with these arguments; it answers with the returned number
    fn ran(&self, m: u64, args: u64) -> u64 {
        if self.canary != !self.id || self.heap[0] != self.id as u8 { report::violation("a method ran on an object that is corrupt or already destroyed") }
        if self as *const Self as usize % std::mem::align_of::<Self>() != 0 { report::violation("a method ran on a misaligned object") }
        self.fate.runs.fetch_add(1, Relaxed);
        let v = self.val.load(Relaxed);
        log([self.id, m, args, v]);
        fold(&[self.id, m, args, v])
    }
}

/// A model of one value: its identity and its mutable part.
#[derive(Clone)]
pub struct Model { id: u64, val: Arc<AtomicU64>, heap: Vec<u8>, addr: usize }
impl Model {
    fn of<P>(o: &Obj<P>) -> Model { untracked(|| Model { id: o.id, val: Arc::new(AtomicU64::new(o.val.load(Relaxed))), heap: o.heap.clone(), addr: 0 }) }
    fn v(&self) -> u64 { self.val.load(Relaxed) }
    fn copy(&self) -> Model { untracked(|| Model { id: self.id, val: Arc::new(AtomicU64::new(self.v())), heap: self.heap.clone(), addr: 0 }) }
}

pub const METHODS: usize = 10;
pub trait AnyV {
    /// calls method `m` with fresh arguments and checks what it returns; -> the entry it must have logged
    fn call(&mut self, r: &mut Rng, m: usize, raw: bool, model: &mut Model) -> [u64; 4];
    fn end(self: Box<Self>, how: usize);
    fn dbg(&self) -> String;
}

/// a wrapper for what may go to another thread
struct Other<T>(T);
unsafe impl<T> Send for Other<T> {}

macro_rules! traits { (mod $m:ident; name $name:expr; has_clone $hc:expr; recv1 ($($r1:tt)*); recv2 ($($r2:tt)*); this $self:ident; call1 |$h1:ident| $c1:expr; call2 |$h2:ident| $c2:expr) => {
pub mod $m {
    use super::*;
    pub use crate::dynt_traits::$m::Tr;
    impl<P> Tr for Obj<P> {
        fn m0($($r1)*, x: u32, y: u8) -> u64 { $self.ran(0, fold(&[x as u64, y as u64])) }
        fn m1($($r2)*, x: u32, y: u8) -> u64 { $self.ran(1, fold(&[x as u64, y as u64])) }
        fn m2($($r1)*, x: u32, y: u8) -> u64 { $self.ran(2, fold(&[x as u64, y as u64])) }
        fn m3($($r2)*, a: u8, b: Wide, c: f64, d: repr_c::Box<u64>, e: c_slice::Ref<'_, u8>, f: f32, g: i16) -> Wide {
            let v = $self.ran(3, fold(&[a as u64, b.a, b.b as u64, b.c.to_bits(), b.d as u64, c.to_bits(), *d, e.as_ptr() as u64, e.len() as u64, f.to_bits() as u64, g as u64]));
            Wide { a: v, b: a, c, d: b.d }
        }
        fn m4($($r1)*) { $self.ran(4, 0); }
        fn m5($($r2)*, d: u64) -> u64 { $self.ran(5, d); $self.val.fetch_add(d, Relaxed).wrapping_add(d) }
        fn m6($($r1)*, v: repr_c::Vec<u16>, k: bool) -> Option<repr_c::Box<u64>> {
            let a = fold(&v.iter().map(|x| *x as u64).chain([k as u64]).collect::<Vec<_>>());
            let x = $self.ran(6, a);
            if k { Some(Box::new(x).into()) } else { None }
        }
        fn m7($($r2)*) -> c_slice::Raw<u8> { $self.ran(7, 0); let s: c_slice::Ref<'_, u8> = $self.heap[..].into(); s.into() }
        fn m8($($r1)*) -> usize { $self.ran(8, 0); &*$self as *const Obj<P> as usize }
    }
    const FIRST: usize = 2 + ($hc as usize);
    pub struct H<D: ?Sized + safer_ffi::dyn_traits::ReprCTrait>(pub VirtualPtr<D>);
    impl<D: ?Sized + safer_ffi::dyn_traits::ReprCTrait> AnyV for H<D> where VirtualPtr<D>: Tr + ReprC + Unpin {
        fn call(&mut self, r: &mut Rng, m: usize, raw: bool, o: &mut Model) -> [u64; 4] {
            let w: [*mut c_void; FIRST + METHODS] = unsafe { std::mem::transmute_copy(&self.0) };
            let h = &mut self.0;
            macro_rules! h1 { () => { { let $h1 = &mut *h; $c1 } } }
            macro_rules! h2 { () => { { let $h2 = &mut *h; $c2 } } }
            let before = o.v();
            let raw = raw && !cfg!(miri);
            let (args, what) = match m {
                0 | 1 | 2 => {
                    let (x, y) = (r.next() as u32, r.byte());
                    let got = tracked(|| if raw { let f: unsafe extern "C" fn(*mut c_void, u32, u8) -> u64 = unsafe { std::mem::transmute(w[FIRST + m]) }; unsafe { f(w[0], x, y) } }
                        else { match m { 0 => h1!().m0(x, y), 1 => h2!().m1(x, y), _ => h1!().m2(x, y) } });
                    let a = fold(&[x as u64, y as u64]);
                    (a, got == fold(&[o.id, m as u64, a, before]))
                }
                3 => {
                    let (a, b, c, dv, f, g) = (r.byte(), Wide { a: r.next(), b: r.byte(), c: r.next() as f64, d: r.next() as u16 }, r.next() as f64, r.next(), r.byte() as f32, r.next() as i16);
                    let d: repr_c::Box<u64> = tracked(|| Box::new(dv).into());
                    let s = [1u8, 2, 3, 4, 5];
                    let n = r.below(6);
                    let e: c_slice::Ref<'_, u8> = s[..n].into();
                    let fp = fold(&[a as u64, b.a, b.b as u64, b.c.to_bits(), b.d as u64, c.to_bits(), dv, s.as_ptr() as u64, n as u64, f.to_bits() as u64, g as u64]);
                    let got = tracked(|| if raw { unsafe {
                        let p: unsafe extern "C" fn(*mut c_void, u8, CLayoutOf<Wide>, f64, CLayoutOf<repr_c::Box<u64>>, CLayoutOf<c_slice::Raw<u8>>, f32, i16) -> CLayoutOf<Wide> = std::mem::transmute(w[FIRST + m]);
                        let sr: c_slice::Raw<u8> = e.into();
                        from_raw_unchecked::<Wide>(p(w[0], a, into_raw(b), c, into_raw(d), into_raw(sr), f, g))
                    } } else { h2!().m3(a, b, c, d, e, f, g) });
                    (fp, got == Wide { a: fold(&[o.id, 3, fp, before]), b: a, c, d: b.d })
                }
                4 => { tracked(|| if raw { unsafe { let p: unsafe extern "C" fn(*mut c_void) = std::mem::transmute(w[FIRST + m]); p(w[0]) } } else { h1!().m4() }); (0, true) }
                5 => {
                    let d = r.next();
                    let got = tracked(|| if raw { unsafe { let p: unsafe extern "C" fn(*mut c_void, u64) -> u64 = std::mem::transmute(w[FIRST + m]); p(w[0], d) } } else { h2!().m5(d) });
                    o.val.store(before.wrapping_add(d), Relaxed);
                    (d, got == before.wrapping_add(d))
                }
                6 => {
                    let v: Vec<u16> = { let n = r.below(4); (0..n).map(|_| r.next() as u16).collect() };
                    let k = r.chance(1, 2);
                    let fp = fold(&v.iter().map(|x| *x as u64).chain([k as u64]).collect::<Vec<_>>());
                    let v: repr_c::Vec<u16> = tracked(|| v.clone().into());
                    let got: Option<repr_c::Box<u64>> = tracked(|| if raw { unsafe { let p: unsafe extern "C" fn(*mut c_void, CLayoutOf<repr_c::Vec<u16>>, u8) -> CLayoutOf<Option<repr_c::Box<u64>>> = std::mem::transmute(w[FIRST + m]); from_raw_unchecked::<Option<repr_c::Box<u64>>>(p(w[0], into_raw(v), k as u8)) } } else { h1!().m6(v, k) });
                    let ok = match &got { None => !k, Some(b) => k && **b == fold(&[o.id, 6, fp, before]) };
                    tracked(|| drop(got));
                    (fp, ok)
                }
                7 => {
                    let got: c_slice::Raw<u8> = tracked(|| if raw { unsafe { let p: unsafe extern "C" fn(*mut c_void) -> CLayoutOf<c_slice::Raw<u8>> = std::mem::transmute(w[FIRST + m]); from_raw_unchecked::<c_slice::Raw<u8>>(p(w[0])) } } else { h2!().m7() });
                    (0, unsafe { got.as_ref() }.as_slice() == &o.heap[..])
                }
                8 => {
                    let got = tracked(|| if raw { unsafe { let p: unsafe extern "C" fn(*mut c_void) -> usize = std::mem::transmute(w[FIRST + m]); p(w[0]) } } else { h1!().m8() });
                    let ok = (o.addr == 0 || o.addr == got) && got == w[0] as usize;
                    o.addr = got;
                    (0, ok)
                }
                _ => {
                    let (x, y, z) = (r.next() as i64, r.next() as i64, r.next() as i64);
                    let got = tracked(|| if raw { unsafe { let p: unsafe extern "C" fn(*mut c_void, i64, i64, i64) -> i64 = std::mem::transmute(w[FIRST + m]); p(w[0], x, y, z) } } else { h2!().m9(x, y, z) });
                    ck!(got == x.wrapping_mul(3).wrapping_sub(y) ^ z, "{}: a default method returned {got} for {x}, {y}, {z}", $name);
                    return [0; 4];
                }
            };
            ck!(what, "{}: method {m} of a virtual object returned a wrong value (called {})", $name, if raw { "through its table" } else { "from Rust" });
            [o.id, m as u64, args, before]
        }
        fn end(self: Box<Self>, how: usize) {
            let H(h) = untracked(|| *self);
            tracked(|| match how {
                0 => drop(h),
                1 => unsafe { let w: [*mut c_void; FIRST + METHODS] = std::mem::transmute_copy(&h); std::mem::forget(h); let p: unsafe extern "C" fn(*mut c_void) = std::mem::transmute(w[1]); p(w[0]) },
                _ => unsafe { let c = into_raw(h); drop(from_raw_unchecked::<VirtualPtr<D>>(c)) },
            })
        }
        fn dbg(&self) -> String { format!("{:?}", self.0) }
    }
}
} }

traits! { mod shared; name "&self methods, Clone"; has_clone true; recv1 (&self); recv2 (&self); this self; call1 |h| h; call2 |h| h }
traits! { mod plain; name "&self methods"; has_clone false; recv1 (&self); recv2 (&self); this self; call1 |h| h; call2 |h| h }
traits! { mod mixed; name "&self and &mut self methods"; has_clone false; recv1 (&self); recv2 (&mut self); this self; call1 |h| h; call2 |h| h }
traits! { mod mixed_clone; name "&self and &mut self methods, Clone"; has_clone true; recv1 (&mut self); recv2 (&self); this self; call1 |h| h; call2 |h| h }
traits! { mod exclusive; name "&mut self methods"; has_clone false; recv1 (&mut self); recv2 (&mut self); this self; call1 |h| h; call2 |h| h }
traits! { mod pin_mut; name "&self and Pin<&mut Self> methods"; has_clone false; recv1 (&self); recv2 (self: Pin<&mut Self>); this self; call1 |h| h; call2 |h| Pin::new(h) }
traits! { mod pin_ref; name "Pin<&Self> and &self methods, Clone"; has_clone true; recv1 (self: Pin<&Self>); recv2 (&self); this self; call1 |h| Pin::new(&*h); call2 |h| h }
traits! { mod pin_excl; name "Pin<&mut Self> methods, Clone"; has_clone true; recv1 (self: Pin<&mut Self>); recv2 (self: Pin<&mut Self>); this self; call1 |h| Pin::new(h); call2 |h| Pin::new(h) }

// ------------------------------------------------------------ histories
/// what one history works on
struct Pool<'a> { name: &'static str, kind: u64, hs: Vec<(Box<dyn AnyV + 'a>, Model)>, fate: Arc<Fate> }
fn entry_check(name: &str, m: usize, want: [u64; 4]) {
    let l = logged();
    if m == 9 { ck!(l.is_empty(), "{name}: calling a default method ran {l:x?}"); return }
    ck!(l == [want], "{name}: one call of method {m} ran {l:x?} instead of {want:x?}");
}
fn some_calls(r: &mut Rng, p: &mut Pool<'_>, i: usize, n: usize) {
    for _ in 0..n {
        let m = r.below(METHODS);
        let raw = r.chance(1, 2);
        let (h, model) = &mut p.hs[i];
        let e = h.call(r, m, raw, model);
        entry_check(p.name, m, e);
        report::sample(|| format!("{}, pointer kind {}: method {m} called {}, the object logged exactly {e:x?}", p.name, p.kind, if raw { "through its table" } else { "from Rust" }));
        ev("call");
        seen_parts(&[p.name.len() as u64, p.name.as_bytes()[0] as u64, p.kind, m as u64, raw as u64]);
    }
}
fn end(r: &mut Rng, h: Box<dyn AnyV + '_>) -> usize { let how = r.below(3); h.end(how); ev("drop"); how }

macro_rules! owned { ($r:ident, $f:ident, $m:ident, $D:ty, $name:expr, $kind:expr, $src:expr, clone $cl:tt, send $send:tt) => { {
    // $src: Obj -> pointer; the strong count (when shared) comes with it
    let o: Obj<_> = tracked(|| obj($r, &$f));
    let model = Model::of(&o);
    let (ptr, strong): (_, Option<Box<dyn Fn() -> usize>>) = $src(o);
    let v: VirtualPtr<$D> = tracked(|| <$D as safer_ffi::dyn_traits::VirtualPtrFrom<_>>::into_virtual_ptr(ptr));
    let mut p = Pool { name: $name, kind: $kind, hs: untracked(|| vec![(Box::new($m::H(v)) as Box<dyn AnyV>, model)]), fate: $f.clone() };
    let shared = strong.is_some();
    for _ in 0..1 + $r.below(10) {
        if p.hs.is_empty() { break }
        let i = $r.below(p.hs.len());
        match $r.below(6) {
            0 | 1 | 2 => { let n = 1 + $r.below(3); some_calls($r, &mut p, i, n) }
            3 => owned!(@clone $cl $r p i $m [$D] shared),
            4 => owned!(@send $send $r p i),
            _ => { let (h, _) = p.hs.swap_remove(i); end($r, h); }
        }
        let live = if shared { !p.hs.is_empty() as i64 } else { p.hs.len() as i64 };
        ck!($f.live.load(SeqCst) == live, "{}, pointer kind {}: with {} handles left, {} values are alive", $name, $kind, p.hs.len(), $f.live.load(SeqCst));
        if let Some(s) = &strong { ck!(s() == p.hs.len(), "{}: {} handles, reference count {}", $name, p.hs.len(), s()) }
    }
    while let Some((h, _)) = p.hs.pop() { end($r, h); }
    ck!($f.live.load(SeqCst) == 0, "{}, pointer kind {}: after the last handle was dropped, {} values are alive", $name, $kind, $f.live.load(SeqCst));
} };
    (@clone no $r:ident $p:ident $i:ident $m:ident [$D:ty] $shared:ident) => { some_calls($r, &mut $p, $i, 1) };
    (@clone $how:tt $r:ident $p:ident $i:ident $m:ident [$D:ty] $shared:ident) => { {
        let made = $p.fate.made.load(SeqCst);
        let c = {
            let h: &$m::H<$D> = unsafe { &*(&*$p.hs[$i].0 as *const dyn AnyV as *const $m::H<$D>) };
            tracked(|| h.0.clone())
        };
        let model = if $shared { $p.hs[$i].1.clone() } else { $p.hs[$i].1.copy() };
        ck!($p.fate.made.load(SeqCst) - made == !$shared as u64, "{}, pointer kind {}: cloning created {} values", $p.name, $p.kind, $p.fate.made.load(SeqCst) - made);
        untracked(|| $p.hs.push((Box::new($m::H(c)), model)));
        ev("clone");
    } };
    (@send no $r:ident $p:ident $i:ident) => { some_calls($r, &mut $p, $i, 1) };
    (@send yes $r:ident $p:ident $i:ident) => { {
        let x = Other($p.hs.swap_remove($i));
        let mut q = $r.clone();
        $r.next();
        let name = $p.name;
        let back = untracked(|| std::thread::scope(|s| s.spawn(move || {
            let x = x; let Other((mut h, mut model)) = x;
            for _ in 0..1 + q.below(3) { let m = q.below(METHODS); let raw = q.chance(1, 2); let e = h.call(&mut q, m, raw, &mut model); entry_check(name, m, e); }
            if q.chance(1, 2) { h.end(q.below(3)); None } else { Some(Other((h, model))) }
        }).join().unwrap_or_else(|_| report::violation("a thread using a virtual object panicked"))));
        ev("thread");
        match back { Some(Other(x)) => untracked(|| $p.hs.push(x)), None => ev("drop_elsewhere") }
    } };
}
fn bx<P: 'static>(o: Obj<P>) -> (Box<Obj<P>>, Option<Box<dyn Fn() -> usize>>) { (tracked(|| Box::new(o)), None) }
fn pbx<P: 'static>(o: Obj<P>) -> (Pin<Box<Obj<P>>>, Option<Box<dyn Fn() -> usize>>) { (tracked(|| Box::pin(o)), None) }
fn rc<P: 'static>(o: Obj<P>) -> (Rc<Obj<P>>, Option<Box<dyn Fn() -> usize>>) { let a = tracked(|| Rc::new(o)); let w = Rc::downgrade(&a); (a, untracked(|| Some(Box::new(move || w.strong_count()) as _))) }
fn arc<P: 'static>(o: Obj<P>) -> (Arc<Obj<P>>, Option<Box<dyn Fn() -> usize>>) { let a = tracked(|| Arc::new(o)); let w = Arc::downgrade(&a); (a, untracked(|| Some(Box::new(move || w.strong_count()) as _))) }
fn prc<P: 'static>(o: Obj<P>) -> (Pin<Rc<Obj<P>>>, Option<Box<dyn Fn() -> usize>>) { let (a, w) = rc(o); (unsafe { Pin::new_unchecked(a) }, w) }
fn parc<P: 'static>(o: Obj<P>) -> (Pin<Arc<Obj<P>>>, Option<Box<dyn Fn() -> usize>>) { let (a, w) = arc(o); (unsafe { Pin::new_unchecked(a) }, w) }

macro_rules! lent { ($r:ident, $f:ident, $m:ident, ($($b:tt)*), $name:expr, $kind:expr, |$o:ident| $src:expr, clone $cl:tt) => { {
    let mut o: Obj<Over> = tracked(|| obj($r, &$f));
    let model = Model::of(&o);
    {
        let v: VirtualPtr<dyn '_ + $($b)* $m::Tr> = { let $o = &mut o; tracked(|| $src.into()) };
        let mut p = Pool { name: $name, kind: $kind, hs: vec![], fate: $f.clone() };
        lent!(@clone $cl v p model $m);
        p.hs.push((Box::new($m::H(v)), model.clone()));
        for _ in 0..1 + $r.below(4) { let i = $r.below(p.hs.len()); some_calls($r, &mut p, i, 1) }
        while !p.hs.is_empty() { let i = $r.below(p.hs.len()); let (h, _) = p.hs.swap_remove(i); end($r, h); ck!($f.live.load(SeqCst) == 1, "{}: dropping a lent virtual object left {} values alive", $name, $f.live.load(SeqCst)); }
    }
    ck!($f.live.load(SeqCst) == 1, "{}: lending a value destroyed it", $name);
    ck!(o.val.load(Relaxed) == model.v(), "{}: what was done through a lent virtual object is not seen by its owner", $name);
    tracked(|| drop(o));
    ck!($f.live.load(SeqCst) == 0, "{}: a value that had been lent was not destroyed by its owner", $name);
} };
    (@clone no $v:ident $p:ident $model:ident $m:ident) => {};
    (@clone yes $v:ident $p:ident $model:ident $m:ident) => { { let c = tracked(|| $v.clone()); $p.hs.push((Box::new($m::H(c)) as Box<dyn AnyV + '_>, $model.clone())); ev("clone") } };
}

fn history(r: &mut Rng) {
    let f = fate();
    let f = &f;
    macro_rules! any { ($($e:expr),* $(,)?) => { { let mut k = 0usize; let n = 0usize $(+ { let _ = stringify!($e); 1 })*; let pick = r.below(n); $( if pick == k { $e; } k += 1; )* let _ = k; } } }
    any![
        owned!(r, f, shared, dyn 'static + shared::Tr, "S", 0, bx::<Small>, clone yes, send no),
        owned!(r, f, shared, dyn 'static + Send + Sync + shared::Tr, "S", 1, bx::<Over>, clone yes, send yes),
        owned!(r, f, shared, dyn 'static + shared::Tr, "S", 2, rc::<Over>, clone yes, send no),
        owned!(r, f, shared, dyn 'static + Send + Sync + shared::Tr, "S", 3, arc::<Small>, clone yes, send yes),
        owned!(r, f, shared, dyn 'static + Send + Sync + shared::Tr, "S", 4, arc::<Over>, clone yes, send yes),
        lent!(r, f, shared, (), "S", 5, |o| &*o, clone yes),
        lent!(r, f, shared, (Send + Sync +), "S", 6, |o| &*o, clone yes),
        owned!(r, f, plain, dyn 'static + plain::Tr, "P", 0, bx::<Over>, clone no, send no),
        owned!(r, f, plain, dyn 'static + Send + Sync + plain::Tr, "P", 1, bx::<Small>, clone no, send yes),
        owned!(r, f, plain, dyn 'static + plain::Tr, "P", 2, rc::<Small>, clone no, send no),
        owned!(r, f, plain, dyn 'static + Send + Sync + plain::Tr, "P", 3, arc::<Over>, clone no, send yes),
        lent!(r, f, plain, (), "P", 5, |o| &*o, clone no),
        lent!(r, f, plain, (Send + Sync +), "P", 6, |o| &*o, clone no),
        lent!(r, f, plain, (), "P", 7, |o| o, clone no),
        lent!(r, f, plain, (Send + Sync +), "P", 8, |o| o, clone no),
        owned!(r, f, mixed, dyn 'static + mixed::Tr, "M", 0, bx::<Small>, clone no, send no),
        owned!(r, f, mixed, dyn 'static + Send + Sync + mixed::Tr, "M", 1, bx::<Over>, clone no, send yes),
        lent!(r, f, mixed, (), "M", 7, |o| o, clone no),
        lent!(r, f, mixed, (Send + Sync +), "M", 8, |o| o, clone no),
        owned!(r, f, mixed_clone, dyn 'static + mixed_clone::Tr, "MC", 0, bx::<Over>, clone yes, send no),
        owned!(r, f, mixed_clone, dyn 'static + Send + Sync + mixed_clone::Tr, "MC", 1, bx::<Small>, clone yes, send yes),
        owned!(r, f, exclusive, dyn 'static + exclusive::Tr, "X", 0, bx::<Over>, clone no, send no),
        owned!(r, f, exclusive, dyn 'static + Send + exclusive::Tr, "X", 1, bx::<Small>, clone no, send yes),
        owned!(r, f, exclusive, dyn 'static + Send + Sync + exclusive::Tr, "X", 2, bx::<Small>, clone no, send yes),
        lent!(r, f, exclusive, (), "X", 7, |o| o, clone no),
        lent!(r, f, exclusive, (Send +), "X", 8, |o| o, clone no),
        owned!(r, f, pin_mut, dyn 'static + pin_mut::Tr, "PM", 0, pbx::<Over>, clone no, send no),
        owned!(r, f, pin_mut, dyn 'static + Send + Sync + pin_mut::Tr, "PM", 1, pbx::<Small>, clone no, send yes),
        lent!(r, f, pin_mut, (), "PM", 7, |o| unsafe { Pin::new_unchecked(o) }, clone no),
        owned!(r, f, pin_ref, dyn 'static + pin_ref::Tr, "PR", 0, pbx::<Over>, clone yes, send no),
        owned!(r, f, pin_ref, dyn 'static + Send + Sync + pin_ref::Tr, "PR", 1, pbx::<Small>, clone yes, send yes),
        owned!(r, f, pin_ref, dyn 'static + pin_ref::Tr, "PR", 2, prc::<Small>, clone yes, send no),
        owned!(r, f, pin_ref, dyn 'static + Send + Sync + pin_ref::Tr, "PR", 3, parc::<Over>, clone yes, send yes),
        lent!(r, f, pin_ref, (), "PR", 5, |o| unsafe { Pin::new_unchecked(&*o) }, clone yes),
        owned!(r, f, pin_excl, dyn 'static + pin_excl::Tr, "PX", 0, pbx::<Over>, clone yes, send no),
        owned!(r, f, pin_excl, dyn 'static + Send + pin_excl::Tr, "PX", 1, pbx::<Small>, clone yes, send yes),
        generic(r, f),
        dyn_drop(r, f),
        zero_sized(r),
    ];
}

// ------------------------------------------------------------ generic trait, zero-sized object, DynDrop
pub mod gen {
    use super::*;
    #[derive_ReprC(dyn)]
    pub trait Keep<'k, T: 'static + safer_ffi::layout::ReprC> {
        fn first(&self) -> u32;
        fn swap(&mut self, t: &'k u32, k: c_slice::Ref<'k, u8>) -> &'k u32;
        fn bytes<'s>(&'s self, extra: &'s u32) -> c_slice::Ref<'s, u8>;
        fn second(&self) -> u32;
    }
    pub struct K<'k, T, P> { pub t: &'k u32, pub g: Option<T>, pub k: c_slice::Ref<'k, u8>, pub o: Obj<P> }
    impl<'k, T: 'static + safer_ffi::layout::ReprC, P> Keep<'k, T> for K<'k, T, P> {
        fn first(&self) -> u32 { self.o.ran(0, 0); 1 }
        fn swap(&mut self, t: &'k u32, k: c_slice::Ref<'k, u8>) -> &'k u32 { self.o.ran(1, k.len() as u64); self.k = k; std::mem::replace(&mut self.t, t) }
        fn bytes<'s>(&'s self, extra: &'s u32) -> c_slice::Ref<'s, u8> { self.o.ran(2, *extra as u64); self.k }
        fn second(&self) -> u32 { self.o.ran(3, 0); 2 }
    }
}
fn generic(r: &mut Rng, f: &Arc<Fate>) {
    use gen::*;
    let text = [7u8, 8, 9, 10];
    let nums = [5u32, 6, 7, 8];
    let n = r.below(5);
    let mk = |r: &mut Rng| tracked(|| K { t: &nums[0], g: Some(3u16), k: text[..n].into(), o: obj::<Small>(r, f) });
    let mut k = mk(r);
    {
        let b = mk(r);
        let id = b.o.id;
        let v: VirtualPtr<dyn '_ + Keep<'_, u16>> = if r.chance(1, 2) { tracked(|| Box::new(b).into()) } else { tracked(|| drop(b)); (&mut k).into() };
        let id = if f.live.load(SeqCst) == 2 { id } else { k_id(&v) };
        let mut v = v;
        let mut cur = 0;
        logged();
        for i in 0..1 + r.below(6) {
            match r.below(4) {
                0 => { ck!(v.first() == 1 && logged()[0][1] == 0, "generic trait: first() ran another method"); }
                1 => { let m = r.below(5); let k = r.below(4); let old = tracked(|| v.swap(&nums[k], text[..m].into())); ck!(old as *const u32 == &nums[cur] as *const u32, "generic trait: swap() returned {old:?}"); cur = k; ck!({ let l = logged(); l.len() == 1 && l[0][1] == 1 && l[0][2] == m as u64 }, "generic trait: swap() ran another method"); }
                2 => { let x = r.next() as u32; let s = v.bytes(&x); ck!(s.as_ptr() == text.as_ptr() && { let l = logged(); l.len() == 1 && l[0][1] == 2 && l[0][2] == x as u64 }, "generic trait: bytes() returned other data"); }
                _ => { ck!(v.second() == 2 && logged()[0][1] == 3, "generic trait: second() ran another method"); }
            }
            ev("call");
        }
        let _ = id;
        tracked(|| drop(v));
    }
    ck!(f.live.load(SeqCst) == 1, "generic trait: {} values alive instead of 1", f.live.load(SeqCst));
    tracked(|| drop(k));
    ck!(f.live.load(SeqCst) == 0, "generic trait: {} values alive at the end", f.live.load(SeqCst));
    seen_parts(&[70, n as u64]);
}
fn k_id(_: &VirtualPtr<dyn '_ + gen::Keep<'_, u16>>) -> u64 { 0 }

fn dyn_drop(r: &mut Rng, f: &Arc<Fate>) {
    let d = tracked(|| DynDrop::new(obj::<Over>(r, f)));
    let mut v = vec![d];
    for _ in 0..r.below(8) {
        let i = r.below(v.len());
        if r.chance(1, 2) { let c = tracked(|| v[i].clone()); v.push(c); ev("clone") }
        else if v.len() > 1 { let d = v.swap_remove(i); if r.chance(1, 3) { untracked(|| std::thread::spawn(move || tracked(|| drop(d))).join().unwrap()) } else { tracked(|| drop(d)) } ev("drop") }
        ck!(f.live.load(SeqCst) == 1 && f.made.load(SeqCst) == 1, "DynDrop with {} clones: {} values alive", v.len(), f.live.load(SeqCst));
    }
    tracked(|| v.clear());
    ck!(f.live.load(SeqCst) == 0, "DynDrop: the value was not destroyed with its last clone");
    seen_parts(&[71, f.made.load(SeqCst)]);
}

pub mod zst {
    use super::*;
    #[derive_ReprC(dyn, Clone)]
    pub trait Z { fn a(&self, x: u64) -> u64; fn b(&self, x: u64) -> u64; }
    thread_local! { pub static DROPS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; pub static MADE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) }; }
    pub struct Unit;
    impl Unit { pub fn new() -> Unit { MADE.with(|m| m.set(m.get() + 1)); Unit } }
    impl Clone for Unit { fn clone(&self) -> Unit { Unit::new() } }
    impl Drop for Unit { fn drop(&mut self) { DROPS.with(|m| m.set(m.get() + 1)) } }
    impl Z for Unit { fn a(&self, x: u64) -> u64 { log([1, x, 0, 0]); x + 1 } fn b(&self, x: u64) -> u64 { log([2, x, 0, 0]); x + 2 } }
}
fn zero_sized(r: &mut Rng) {
    use zst::*;
    MADE.with(|m| m.set(0)); DROPS.with(|m| m.set(0));
    let v: VirtualPtr<dyn 'static + Send + Sync + Z> = if r.chance(1, 2) { tracked(|| Box::new(Unit::new()).into()) } else { tracked(|| Arc::new(Unit::new()).into()) };
    let w = tracked(|| v.clone());
    let x = r.next() >> 1;
    ck!(v.a(x) == x + 1 && w.b(x) == x + 2 && logged() == [[1, x, 0, 0], [2, x, 0, 0]], "zero-sized object: another method ran");
    tracked(|| { drop(v); drop(w) });
    ck!(MADE.with(|m| m.get()) == DROPS.with(|m| m.get()), "zero-sized objects: {} created, {} destroyed", MADE.with(|m| m.get()), DROPS.with(|m| m.get()));
    ev("call");
    seen_parts(&[72, MADE.with(|m| m.get())]);
}

pub fn run(o: &Opts) {
    o.histories(10, |mut r, _| {
        let before = ledger::live();
        history(&mut r);
        if let Some(e) = ledger::error() { report::violation(&format!("virtual objects: allocator ledger: {e}")) }
        ck!(!ledger::ON || ledger::live() == before, "virtual objects: {} blocks leaked", ledger::live() - before);
        logged();
        ev("history");
    });
}

/// thread-safe objects used from several threads at once
pub fn run_mt(o: &Opts) {
    o.histories(11, |mut r, i| {
        let r = &mut r;
        let f = fate();
        let nt = 2 + r.below(3);
        type D = dyn 'static + Send + Sync + shared::Tr;
        let ob: Obj<Over> = obj(r, &f);
        let kind = r.below(2);
        let model = Model::of(&ob);
        let v: VirtualPtr<D> = match kind { 0 => Arc::new(ob).into(), _ => Box::new(ob).into() };
        let bound = o.steps.min(20);
        let share = r.chance(1, 2);
        let hs: Vec<VirtualPtr<D>> = (0..nt).map(|_| v.clone()).collect();
        let v = &v;
        let added: Vec<(u64, u64)> = std::thread::scope(|s| {
            let js: Vec<_> = hs.into_iter().enumerate().map(|(t, mine)| {
                let mut q = Rng::for_history(o.seed, 1100 + t as u64, i);
                s.spawn(move || {
                    use shared::Tr;
                    let (mut own, mut runs, mut add) = (vec![mine], 0u64, 0u64);
                    for _ in 0..1 + q.below(bound) {
                        let k = q.below(own.len() + share as usize);
                        let h = own.get(k).unwrap_or(v);
                        match q.below(6) {
                            0 | 1 => { let d = q.next() >> 40; h.m5(d); runs += 1; if kind == 0 || k >= own.len() { add = add.wrapping_add(d) } }
                            2 => { let (x, y) = (q.next() as u32, q.byte()); h.m0(x, y); runs += 1 }
                            3 | 4 => { let c = h.clone(); own.push(c) }
                            _ => { if own.len() > 1 && k < own.len() { drop(own.swap_remove(k)) } }
                        }
                        logged();
                        if q.chance(1, 4) { std::thread::yield_now() }
                    }
                    (runs, add)
                })
            }).collect();
            js.into_iter().map(|j| j.join().unwrap_or_else(|_| report::violation("a thread using a virtual object panicked"))).collect()
        });
        let runs: u64 = added.iter().map(|x| x.0).sum();
        let add = added.iter().fold(0u64, |a, x| a.wrapping_add(x.1));
        ck!(f.runs.load(SeqCst) == runs, "{runs} calls from {nt} threads ran {} methods", f.runs.load(SeqCst));
        let mut expect = model.v().wrapping_add(add);
        { use shared::Tr; let got = v.m5(0); ck!(got == expect, "after {nt} threads' updates the object holds {got} instead of {expect}"); expect = 0; let _ = expect; }
        logged();
        ck!(f.live.load(SeqCst) == 1, "{} values alive after {nt} threads dropped theirs, instead of 1", f.live.load(SeqCst));
        // all the remaining owners at the same time
        let hs: Vec<VirtualPtr<D>> = (0..nt).map(|_| v.clone()).collect();
        let go = std::sync::atomic::AtomicBool::new(false);
        std::thread::scope(|s| {
            for h in hs { let go = &go; s.spawn(move || { while !go.load(Relaxed) { std::hint::spin_loop(); if cfg!(miri) { std::thread::yield_now() } } drop(h) }); }
            go.store(true, Relaxed);
        });
        ck!(f.live.load(SeqCst) == 1, "{} values alive after {nt} clones were dropped at the same time", f.live.load(SeqCst));
        report::evn("call", runs);
        ev("mt_history");
        seen_parts(&[kind as u64, nt as u64, share as u64, runs]);
        let _ = v;
        // (the original handle drops here; checked by the next line of the next history through leaks and Miri)
    });
}
