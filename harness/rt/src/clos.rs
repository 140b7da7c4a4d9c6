//! C08: FFI-safe closures: every arity and ownership kind, called from Rust and through their raw parts,
//! next to the log the closures themselves keep of the calls they saw and of the drop of their captures.
use crate::ledger::{self, tracked, untracked};
use crate::prng::Rng;
use crate::report::{self, ev, seen_parts};
use crate::Opts;
use safer_ffi::closure::*;
use safer_ffi::layout::{from_raw_unchecked, into_raw, CLayoutOf, ReprC};
use safer_ffi::prelude::*;
use std::cell::RefCell;
use std::ffi::c_void;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::Arc;

macro_rules! ck { ($c:expr, $($t:tt)*) => { if !$c { report::violation(&format!($($t)*)) } } }

// ------------------------------------------------------------ arguments and results
#[derive_ReprC]
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Big { a: u64, b: u8, c: f64, d: [u16; 3] }
#[derive_ReprC]
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Small { a: u8, b: u16 }

pub trait Arg: ReprC + Sized + 'static { fn gen(r: &mut Rng) -> Self; fn fp(&self) -> u64; fn again(&self) -> Self; }
macro_rules! ints { ($($t:ty)*) => { $(impl Arg for $t { fn gen(r: &mut Rng) -> Self { r.next() as $t } fn fp(&self) -> u64 { *self as u64 ^ (std::mem::size_of::<$t>() as u64) << 60 } fn again(&self) -> Self { *self } })* } }
ints!(u8 u16 u32 u64 i8 i16 i32 i64 usize);
impl Arg for bool { fn gen(r: &mut Rng) -> Self { r.chance(1, 2) } fn fp(&self) -> u64 { 77 + *self as u64 } fn again(&self) -> Self { *self } }
impl Arg for f64 { fn gen(r: &mut Rng) -> Self { f64::from_bits(r.next() >> 2) } fn fp(&self) -> u64 { self.to_bits() } fn again(&self) -> Self { *self } }
impl Arg for f32 { fn gen(r: &mut Rng) -> Self { f32::from_bits((r.next() >> 34) as u32) } fn fp(&self) -> u64 { self.to_bits() as u64 } fn again(&self) -> Self { *self } }
impl Arg for Big { fn gen(r: &mut Rng) -> Self { Big { a: r.next(), b: r.byte(), c: f64::gen(r), d: [r.next() as u16, r.next() as u16, r.next() as u16] } } fn fp(&self) -> u64 { report::fold(&[self.a, self.b as u64, self.c.to_bits(), self.d[0] as u64, self.d[1] as u64, self.d[2] as u64]) } fn again(&self) -> Self { *self } }
impl Arg for Small { fn gen(r: &mut Rng) -> Self { Small { a: r.byte(), b: r.next() as u16 } } fn fp(&self) -> u64 { (self.a as u64) << 16 | self.b as u64 } fn again(&self) -> Self { *self } }
impl Arg for safer_ffi::boxed::Box_<u64> { fn gen(r: &mut Rng) -> Self { Box::new(r.next()).into() } fn fp(&self) -> u64 { **self ^ 0xB0 } fn again(&self) -> Self { Box::new(**self).into() } }
impl Arg for repr_c::Vec<u16> { fn gen(r: &mut Rng) -> Self { let n = r.below(5); (0..n).map(|_| r.next() as u16).collect::<Vec<_>>().into() } fn fp(&self) -> u64 { report::fold(&self.iter().map(|x| *x as u64).collect::<Vec<_>>()) } fn again(&self) -> Self { self.to_vec().into() } }
static TEXT: [u8; 64] = *b"0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ+/";
impl Arg for c_slice::Ref<'static, u8> { fn gen(r: &mut Rng) -> Self { let a = r.below(60); let n = r.below(64 - a); TEXT[a..a + n].into() } fn fp(&self) -> u64 { self.as_ptr() as u64 ^ (self.len() as u64) << 48 } fn again(&self) -> Self { *self } }

pub trait Res: ReprC + Sized + 'static { unsafe fn back(c: CLayoutOf<Self>) -> Self { from_raw_unchecked(c) } fn make(v: u64) -> Self; fn ok(self, v: u64) -> bool; }
impl Res for u64 { fn make(v: u64) -> Self { v } fn ok(self, v: u64) -> bool { self == v } }
impl Res for u8 { fn make(v: u64) -> Self { v as u8 } fn ok(self, v: u64) -> bool { self == v as u8 } }
impl Res for () { unsafe fn back(_: CLayoutOf<()>) {} fn make(_: u64) {} fn ok(self, _: u64) -> bool { true } }
impl Res for f64 { fn make(v: u64) -> Self { (v >> 12) as f64 } fn ok(self, v: u64) -> bool { self == (v >> 12) as f64 } }
impl Res for bool { fn make(v: u64) -> Self { v & 1 == 1 } fn ok(self, v: u64) -> bool { self == (v & 1 == 1) } }
impl Res for Big { fn make(v: u64) -> Self { Big { a: v, b: v as u8, c: 1.5, d: [v as u16, 2, 3] } } fn ok(self, v: u64) -> bool { self.a == v && self.b == v as u8 && self.c == 1.5 && self.d == [v as u16, 2, 3] } }
impl Res for safer_ffi::boxed::Box_<u64> { fn make(v: u64) -> Self { Box::new(v).into() } fn ok(self, v: u64) -> bool { *self == v } }
impl Res for Option<safer_ffi::boxed::Box_<u64>> { fn make(v: u64) -> Self { if v & 3 == 0 { None } else { Some(Box::new(v).into()) } } fn ok(self, v: u64) -> bool { match self { None => v & 3 == 0, Some(b) => v & 3 != 0 && *b == v } } }

// ------------------------------------------------------------ captured state
thread_local! { static LOG: RefCell<Vec<(u64, u64)>> = const { RefCell::new(Vec::new()) }; }
fn log(id: u64, args: u64) { untracked(|| LOG.with(|l| l.borrow_mut().push((id, args)))) }
fn logged() -> Vec<(u64, u64)> { untracked(|| LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))) }

/// what is known outside of the closure about one captured state
pub struct Fate { drops: AtomicU64, calls: AtomicU64, sum: AtomicU64 }
pub struct State { id: u64, canary: u64, fate: Arc<Fate>, heap: Vec<u64> }
impl Drop for State { fn drop(&mut self) { if self.canary != !self.id { report::violation("the captured state was already gone when it was dropped") } self.canary = 0; self.fate.drops.fetch_add(1, SeqCst); } }
impl State {
    fn new(r: &mut Rng) -> (State, Arc<Fate>, u64) {
        let id = r.next();
        let fate = untracked(|| Arc::new(Fate { drops: AtomicU64::new(0), calls: AtomicU64::new(0), sum: AtomicU64::new(0) }));
        (State { id, canary: !id, fate: fate.clone(), heap: vec![id; 1 + r.below(3)] }, fate, id)
    }
    fn called(&self, args: u64) -> u64 {
        if self.canary != !self.id || self.heap.iter().any(|x| *x != self.id) { report::violation("a call found its captured state corrupt or already dropped") }
        self.fate.calls.fetch_add(1, Relaxed);
        self.fate.sum.fetch_add(args, Relaxed);
        log(self.id, args);
        report::fold(&[self.id, args])
    }
}
#[repr(align(64))]
struct Aligned(State);

// ------------------------------------------------------------ the two owning kinds, any arity
pub trait AnyArc: Send + Sync {
    /// one call with fresh arguments; returns (arguments' fingerprint, what was returned is right for (id, args))
    fn call(&self, r: &mut Rng, raw: bool, id: u64) -> u64;
    fn dup(&self, raw: bool) -> Box<dyn AnyArc>;
    fn end(self: Box<Self>, how: usize);
    fn arity(&self) -> u64;
    fn dbg(&self) -> String;
}
pub trait AnyBox: Send {
    fn call(&mut self, r: &mut Rng, raw: bool, id: u64, nth: u64) -> u64;
    fn end(self: Box<Self>, how: usize);
    fn dbg(&self) -> String;
}
pub struct Made { id: u64, fate: Arc<Fate>, strong: Option<Box<dyn Fn() -> usize + Send>> }

fn args_fp(xs: &[u64]) -> u64 { report::fold(xs) }

macro_rules! arity { ($m:ident, $Arc:ident, $Box:ident, $Ref:ident, $R:ty, [$($x:ident $y:ident : $T:ty),*]) => {
pub mod $m {
    use super::*;
    type A = repr_c::Arc<dyn 'static + Send + Sync + Fn($($T),*) -> $R>;
    type B = repr_c::Box<dyn 'static + Send + FnMut($($T),*) -> $R>;
    // what C sees; Miri insists on the very same Rust types on both sides of a call
    #[cfg(not(miri))]
    type RawCall = unsafe extern "C" fn(*mut c_void, $(CLayoutOf<$T>),*) -> CLayoutOf<$R>;
    #[cfg(miri)]
    type RawCall = unsafe extern "C" fn(*mut c_void, $($T),*) -> $R;
    type RawFn = unsafe extern "C" fn(*mut c_void);
    struct HA(A);
    struct HB(B);
    const N: u64 = 0 $(+ { let $x = 1; $x })*;
    #[cfg(miri)]
    unsafe fn raw_call(env: *mut c_void, call: RawCall, $($x: $T),*) -> $R { call(env, $($x),*) }
    #[cfg(not(miri))]
    unsafe fn raw_call(env: *mut c_void, call: RawCall, $($x: $T),*) -> $R { let c = call(env, $(into_raw($x)),*); <$R as Res>::back(c) }

    pub fn arc(r: &mut Rng) -> (Box<dyn AnyArc>, Made) {
        let (st, fate, id) = tracked(|| State::new(r));
        let kind = r.below(3);
        // (a closure moves its captures: the aligned one is boxed with its 64-byte alignment)
        let how = r.below(3);
        macro_rules! mk { ($f:expr) => { {
            let f = tracked(|| Arc::new($f));
            let w = untracked(|| Arc::downgrade(&f));
            let h: A = tracked(|| match how { 0 => f.into(), 1 => $Arc::new(f), _ => { let k = f.clone(); let h = A::from(f); drop(k); h } });
            (h, untracked(|| Box::new(move || w.strong_count()) as Box<dyn Fn() -> usize + Send>))
        } } }
        let (h, strong) = match kind {
            0 => mk!(move |$($x: $T),*| -> $R { let v = st.called(args_fp(&[$($x.fp()),*])); <$R>::make(v) }),
            1 => { let st = Aligned(st); mk!(move |$($x: $T),*| -> $R { let st = &st; let v = st.0.called(args_fp(&[$($x.fp()),*])); if (st as *const Aligned as usize) % 64 != 0 { report::violation("over-aligned captured state is misaligned") } <$R>::make(v) }) }
            _ => { let st = tracked(|| Box::new(st)); mk!(move |$($x: $T),*| -> $R { let v = st.called(args_fp(&[$($x.fp()),*])); <$R>::make(v) }) }
        };
        (untracked(|| Box::new(HA(h))), Made { id, fate, strong: Some(strong) })
    }
    impl AnyArc for HA {
        fn call(&self, r: &mut Rng, raw: bool, id: u64) -> u64 {
            $(let $x: $T = tracked(|| Arg::gen(r)); )*
            let a = args_fp(&[$($x.fp()),*]);
            let ret = tracked(|| if raw {
                unsafe { let w: [*mut c_void; 4] = std::mem::transmute_copy(&self.0); raw_call(w[0], std::mem::transmute(w[1]), $($x),*) }
            } else { self.0.call($($x),*) });
            ck!(tracked(|| Res::ok(ret, report::fold(&[id, a]))), "a shared closure of {N} arguments returned a wrong value (called {})", if raw { "through its raw parts" } else { "from Rust" });
            a
        }
        fn dup(&self, raw: bool) -> Box<dyn AnyArc> {
            let h: A = tracked(|| if raw { unsafe { let w: [*mut c_void; 4] = std::mem::transmute_copy(&self.0); let retain: RawFn = std::mem::transmute(w[3]); retain(w[0]); std::mem::transmute_copy(&self.0) } } else { self.0.clone() });
            untracked(|| Box::new(HA(h)))
        }
        fn end(self: Box<Self>, how: usize) {
            let HA(h) = untracked(|| *self);
            tracked(|| match how {
                0 => drop(h),
                1 => unsafe { let w: [*mut c_void; 4] = std::mem::transmute_copy(&h); std::mem::forget(h); let release: RawFn = std::mem::transmute(w[2]); release(w[0]) },
                _ => unsafe { let c = into_raw(h); drop(from_raw_unchecked::<A>(c)) },
            })
        }
        fn arity(&self) -> u64 { N }
        fn dbg(&self) -> String { format!("{:?}", self.0) }
    }

    pub fn boxed(r: &mut Rng) -> (Box<dyn AnyBox>, Made) {
        let (st, fate, id) = tracked(|| State::new(r));
        let mut nth = 0u64;
        let h: B = match r.below(3) {
            0 => tracked(|| Box::new(move |$($x: $T),*| -> $R { nth += 1; let v = st.called(args_fp(&[nth, $($x.fp()),*])); <$R>::make(v) }).into()),
            1 => { let st = Aligned(st); tracked(|| $Box::new(Box::new(move |$($x: $T),*| -> $R { let st = &st; nth += 1; let v = st.0.called(args_fp(&[nth, $($x.fp()),*])); if (st as *const Aligned as usize) % 64 != 0 { report::violation("over-aligned captured state is misaligned") } <$R>::make(v) }))) }
            _ => { let mut st = Some(tracked(|| Box::new(st))); tracked(|| B::from(Box::new(move |$($x: $T),*| -> $R { nth += 1; let s = st.take().unwrap(); let v = s.called(args_fp(&[nth, $($x.fp()),*])); st = Some(s); <$R>::make(v) }))) }
        };
        (untracked(|| Box::new(HB(h))), Made { id, fate, strong: None })
    }
    impl AnyBox for HB {
        fn call(&mut self, r: &mut Rng, raw: bool, id: u64, nth: u64) -> u64 {
            $(let $x: $T = tracked(|| Arg::gen(r)); )*
            let a = args_fp(&[nth, $($x.fp()),*]);
            let ret = tracked(|| if raw {
                unsafe { let w: [*mut c_void; 3] = std::mem::transmute_copy(&self.0); raw_call(w[0], std::mem::transmute(w[1]), $($x),*) }
            } else { self.0.call($($x),*) });
            ck!(tracked(|| Res::ok(ret, report::fold(&[id, a]))), "a boxed closure of {N} arguments returned a wrong value (called {})", if raw { "through its raw parts" } else { "from Rust" });
            a
        }
        fn end(self: Box<Self>, how: usize) {
            let HB(h) = untracked(|| *self);
            tracked(|| match how {
                0 => drop(h),
                1 => unsafe { let w: [*mut c_void; 3] = std::mem::transmute_copy(&h); std::mem::forget(h); let free: RawFn = std::mem::transmute(w[2]); free(w[0]) },
                2 => unsafe { let c = into_raw(h); drop(from_raw_unchecked::<B>(c)) },
                _ => unsafe { let c = into_raw(Some(h)); let o = from_raw_unchecked::<Option<B>>(c); if o.is_none() { report::violation("a boxed closure came back from C as None") } drop(o) },
            })
        }
        fn dbg(&self) -> String { format!("{:?}", self.0) }
    }

    pub fn borrowed(r: &mut Rng) {
        let (st, fate, id) = tracked(|| State::new(r));
        let (mut nth, mut n) = (0u64, 0u64);
        macro_rules! go { ($h:expr, $counted:expr) => { {
            let mut h = $h;
            for _ in 0..1 + r.below(3) {
                if $counted { n += 1; }
                let raw = r.chance(1, 2);
                $(let $x: $T = tracked(|| Arg::gen(r)); )*
                let a = if $counted { args_fp(&[n, $($x.fp()),*]) } else { args_fp(&[$($x.fp()),*]) };
                let ret = tracked(|| if raw { unsafe { let w: [*mut c_void; 2] = std::mem::transmute_copy(&h); raw_call(w[0], std::mem::transmute(w[1]), $($x),*) } } else { h.call($($x),*) });
                ck!(tracked(|| Res::ok(ret, report::fold(&[id, a]))), "a borrowed closure of {N} arguments returned a wrong value");
                let l = logged();
                ck!(l == [(id, a)], "one call of a borrowed closure of {N} arguments was seen by it as {l:x?} instead of {:x?}", (id, a));
                ev("call");
                seen_parts(&[3, N, raw as u64, n]);
            }
        } } }
        if r.chance(1, 2) {
            let mut f = |$($x: $T),*| -> $R { nth += 1; let v = st.called(args_fp(&[nth, $($x.fp()),*])); <$R>::make(v) };
            go!($Ref::new(&mut f), true);
            // the closure is still the caller's: it can be lent again, or called directly
            go!($Ref::new(&mut f), true);
            if r.chance(1, 2) { $(let $x: $T = Arg::gen(r);)* let a = args_fp(&[n + 1, $($x.fp()),*]); let ret = f($($x),*); ck!(Res::ok(ret, report::fold(&[id, a])), "after being lent, a closure returned a wrong value"); logged(); }
        } else {
            let mut f = move |$($x: $T),*| -> $R { let v = st.called(args_fp(&[$($x.fp()),*])); <$R>::make(v) };
            go!($Ref::from(&mut f), false);
            ck!(fate.drops.load(SeqCst) == 0, "lending a closure dropped its captured state");
            tracked(|| drop(f));
            ck!(fate.drops.load(SeqCst) == 1, "a closure that had been lent dropped its captured state {} times", fate.drops.load(SeqCst));
            return;
        }
        ck!(fate.drops.load(SeqCst) == 0, "lending a closure dropped its captured state");
        tracked(|| drop(st));
    }
}
} }
arity!(a0, ArcDynFn0, BoxDynFnMut0, RefDynFnMut0, u64, []);
arity!(a1, ArcDynFn1, BoxDynFnMut1, RefDynFnMut1, Big, [x1 y1: u8]);
arity!(a2, ArcDynFn2, BoxDynFnMut2, RefDynFnMut2, (), [x1 y1: f64, x2 y2: u32]);
arity!(a3, ArcDynFn3, BoxDynFnMut3, RefDynFnMut3, Option<repr_c::Box<u64>>, [x1 y1: repr_c::Box<u64>, x2 y2: repr_c::Box<u64>, x3 y3: bool]);
arity!(a4, ArcDynFn4, BoxDynFnMut4, RefDynFnMut4, bool, [x1 y1: u64, x2 y2: u64, x3 y3: u64, x4 y4: u64]);
arity!(a5, ArcDynFn5, BoxDynFnMut5, RefDynFnMut5, f64, [x1 y1: i8, x2 y2: Big, x3 y3: f32, x4 y4: Small, x5 y5: c_slice::Ref<'static, u8>]);
arity!(a6, ArcDynFn6, BoxDynFnMut6, RefDynFnMut6, u8, [x1 y1: f64, x2 y2: f64, x3 y3: f32, x4 y4: f64, x5 y5: u16, x6 y6: f32]);
arity!(a7, ArcDynFn7, BoxDynFnMut7, RefDynFnMut7, repr_c::Box<u64>, [x1 y1: u64, x2 y2: u64, x3 y3: u64, x4 y4: u64, x5 y5: u64, x6 y6: u64, x7 y7: u64]);
arity!(a8, ArcDynFn8, BoxDynFnMut8, RefDynFnMut8, Big, [x1 y1: u8, x2 y2: i16, x3 y3: i32, x4 y4: i64, x5 y5: usize, x6 y6: repr_c::Vec<u16>, x7 y7: Small, x8 y8: Small]);
arity!(a9, ArcDynFn9, BoxDynFnMut9, RefDynFnMut9, u64, [x1 y1: u64, x2 y2: u64, x3 y3: u64, x4 y4: u64, x5 y5: u64, x6 y6: u64, x7 y7: u64, x8 y8: u64, x9 y9: u64]);
// second set: the same arities with the kinds of arguments and results turned around
arity!(b0, ArcDynFn0, BoxDynFnMut0, RefDynFnMut0, Option<repr_c::Box<u64>>, []);
arity!(b1, ArcDynFn1, BoxDynFnMut1, RefDynFnMut1, u64, [x1 y1: repr_c::Box<u64>]);
arity!(b2, ArcDynFn2, BoxDynFnMut2, RefDynFnMut2, u64, [x1 y1: u64, x2 y2: u64]);
arity!(b3, ArcDynFn3, BoxDynFnMut3, RefDynFnMut3, u64, [x1 y1: u32, x2 y2: u32, x3 y3: u32]);
arity!(b5, ArcDynFn5, BoxDynFnMut5, RefDynFnMut5, u64, [x1 y1: u64, x2 y2: u64, x3 y3: u64, x4 y4: u64, x5 y5: u64]);
arity!(b6, ArcDynFn6, BoxDynFnMut6, RefDynFnMut6, u64, [x1 y1: u64, x2 y2: u64, x3 y3: u64, x4 y4: u64, x5 y5: u64, x6 y6: u64]);
arity!(b8, ArcDynFn8, BoxDynFnMut8, RefDynFnMut8, u64, [x1 y1: u64, x2 y2: u64, x3 y3: u64, x4 y4: u64, x5 y5: u64, x6 y6: u64, x7 y7: u64, x8 y8: u64]);
arity!(b9, ArcDynFn9, BoxDynFnMut9, RefDynFnMut9, (), [x1 y1: u8, x2 y2: f32, x3 y3: Big, x4 y4: Small, x5 y5: repr_c::Box<u64>, x6 y6: f64, x7 y7: i64, x8 y8: bool, x9 y9: u16]);

const ARCS: &[fn(&mut Rng) -> (Box<dyn AnyArc>, Made)] = &[a0::arc, a1::arc, a2::arc, a3::arc, a4::arc, a5::arc, a6::arc, a7::arc, a8::arc, a9::arc, b0::arc, b1::arc, b2::arc, b3::arc, b5::arc, b6::arc, b8::arc, b9::arc];
const BOXES: &[fn(&mut Rng) -> (Box<dyn AnyBox>, Made)] = &[a0::boxed, a1::boxed, a2::boxed, a3::boxed, a4::boxed, a5::boxed, a6::boxed, a7::boxed, a8::boxed, a9::boxed, b0::boxed, b1::boxed, b2::boxed, b3::boxed, b5::boxed, b6::boxed, b8::boxed, b9::boxed];
const REFS: &[fn(&mut Rng)] = &[a0::borrowed, a1::borrowed, a2::borrowed, a3::borrowed, a4::borrowed, a5::borrowed, a6::borrowed, a7::borrowed, a8::borrowed, a9::borrowed, b0::borrowed, b1::borrowed, b2::borrowed, b3::borrowed, b5::borrowed, b6::borrowed, b8::borrowed, b9::borrowed];

/// a closure without any captured state: nothing is allocated, and nothing may be freed
fn stateless(r: &mut Rng) {
    fn body(x: u32, y: u8) -> u64 { log(5, report::fold(&[x as u64, y as u64])); x as u64 + y as u64 }
    let before = ledger::live();
    {
        let (x, y) = (r.next() as u32, r.byte());
        let mut b: repr_c::Box<dyn Send + FnMut(u32, u8) -> u64> = tracked(|| Box::new(body).into());
        ck!(b.call(x, y) == x as u64 + y as u64, "a boxed function returned a wrong value");
        tracked(|| drop(b));
        let a: repr_c::Arc<dyn Send + Sync + Fn(u32, u8) -> u64> = tracked(|| Arc::new(body).into());
        let c = tracked(|| a.clone());
        tracked(|| drop(a));
        ck!(c.call(x, y) == x as u64 + y as u64, "a shared function returned a wrong value");
        tracked(|| drop(c));
        ck!(logged().len() == 2, "functions were called another number of times");
    }
    ck!(!ledger::ON || ledger::live() == before, "closures without captures leaked {} blocks", ledger::live() - before);
    ev("stateless");
}

fn elsewhere<R: Send>(f: impl FnOnce() -> R + Send) -> R { untracked(|| std::thread::scope(|s| s.spawn(f).join().unwrap_or_else(|_| report::violation("a thread using a closure panicked")))) }

fn shared_history(r: &mut Rng, steps: usize) {
    let k = r.below(ARCS.len());
    let (h, made) = ARCS[k](r);
    let strong = made.strong.as_ref().unwrap();
    let mut pool: Vec<Box<dyn AnyArc>> = vec![h];
    let (mut calls, mut sum) = (0u64, 0u64);
    let n = pool[0].arity();
    for _ in 0..2 + r.below(steps) {
        if pool.is_empty() { break }
        let i = r.below(pool.len());
        match r.below(8) {
            0 | 1 | 2 => {
                let raw = r.chance(1, 2);
                let a = pool[i].call(r, raw, made.id);
                let l = logged();
                ck!(l == [(made.id, a)], "one call of a shared closure of {n} arguments was seen by it as {l:x?} instead of {:x?}", (made.id, a));
                report::sample(|| format!("shared closure of {n} arguments, call {calls} {}: the closure logged exactly {l:x?}", if raw { "through its raw parts" } else { "from Rust" }));
                calls += 1; sum = sum.wrapping_add(a);
                ev("call");
                seen_parts(&[1, k as u64, raw as u64, pool.len().min(4) as u64]);
            }
            3 | 4 => { let raw = r.chance(1, 2); let d = pool[i].dup(raw); ck!(d.dbg() == pool[i].dbg(), "a clone of a shared closure is {} instead of {}", d.dbg(), pool[i].dbg()); pool.push(d); ev("clone") }
            5 => {
                let mut q = r.clone();
                let a = { let h = &pool[i]; elsewhere(move || { let a = h.call(&mut q, false, made.id); logged(); a }) };
                r.next();
                calls += 1; sum = sum.wrapping_add(a);
                ev("call_elsewhere");
            }
            6 => { let h = pool.swap_remove(i); let how = r.below(3); h.end(how); ev("drop"); seen_parts(&[2, k as u64, how as u64, pool.len().min(3) as u64]) }
            _ => { let h = pool.swap_remove(i); let how = r.below(3); elsewhere(move || h.end(how)); ev("drop_elsewhere") }
        }
        let f = &made.fate;
        ck!(strong() == pool.len(), "a shared closure with {} handles has a reference count of {}", pool.len(), strong());
        ck!(f.drops.load(SeqCst) == pool.is_empty() as u64, "with {} handles left, the captured state of a shared closure has been dropped {} times", pool.len(), f.drops.load(SeqCst));
        ck!(f.calls.load(SeqCst) == calls && f.sum.load(SeqCst) == sum, "a shared closure was called {calls} times and ran {} times", f.calls.load(SeqCst));
    }
    while let Some(h) = pool.pop() { h.end(r.below(3)) }
    ck!(made.fate.drops.load(SeqCst) == 1, "after its last handle, the captured state of a shared closure has been dropped {} times", made.fate.drops.load(SeqCst));
}

fn boxed_history(r: &mut Rng, steps: usize) {
    let k = r.below(BOXES.len());
    let (mut h, made) = BOXES[k](r);
    let mut nth = 0u64;
    for _ in 0..r.below(steps / 4 + 2) {
        nth += 1;
        let raw = r.chance(1, 2);
        if r.chance(1, 6) {
            let mut q = r.clone();
            r.next();
            let id = made.id;
            h = elsewhere(move || { h.call(&mut q, raw, id, nth); logged(); h });
            ev("call_elsewhere");
        } else {
            let a = h.call(r, raw, made.id, nth);
            let l = logged();
            ck!(l == [(made.id, a)], "call {nth} of a boxed closure (set {k}) was seen by it as {l:x?} instead of {:x?}", (made.id, a));
            ev("call");
        }
        seen_parts(&[4, k as u64, raw as u64, nth.min(4)]);
        ck!(made.fate.drops.load(SeqCst) == 0 && made.fate.calls.load(SeqCst) == nth, "a boxed closure called {nth} times ran {} times and was dropped {} times", made.fate.calls.load(SeqCst), made.fate.drops.load(SeqCst));
    }
    let _ = h.dbg();
    let how = r.below(4);
    if r.chance(1, 4) { elsewhere(move || h.end(how)); ev("drop_elsewhere") } else { h.end(how); ev("drop") }
    ck!(made.fate.drops.load(SeqCst) == 1, "dropping a boxed closure dropped its captured state {} times", made.fate.drops.load(SeqCst));
    seen_parts(&[5, k as u64, how as u64]);
}

pub fn run(o: &Opts) {
    let steps = o.steps.min(24);
    o.histories(8, |mut r, i| {
        let before = ledger::live();
        match i % 5 { 0 | 1 => shared_history(&mut r, steps), 2 | 3 => boxed_history(&mut r, steps), _ => { let k = r.below(REFS.len()); REFS[k](&mut r); if r.chance(1, 8) { stateless(&mut r) } } }
        if let Some(e) = ledger::error() { report::violation(&format!("closures: allocator ledger: {e}")) }
        ck!(!ledger::ON || ledger::live() == before, "{} blocks leaked", ledger::live() - before);
        ev("history");
    });
}

/// shared closures used from several threads at once: no log, only relaxed counters, so that the harness adds no ordering
pub fn run_mt(o: &Opts) {
    o.histories(9, |mut r, i| {
        let r = &mut r;
        let k = r.below(ARCS.len());
        let (h, made) = ARCS[k](r);
        let nt = 2 + r.below(3);
        let hs: Vec<Box<dyn AnyArc>> = (0..nt).map(|_| h.dup(false)).collect();
        let share = r.chance(1, 2);
        let (mut calls, mut sum) = (0u64, 0u64);
        let id = made.id;
        let bounds = o.steps.min(20);
        let outs: Vec<(u64, u64)> = std::thread::scope(|s| {
            let js: Vec<_> = hs.into_iter().enumerate().map(|(t, mine)| {
                let mut q = Rng::for_history(o.seed, 900 + t as u64, i);
                let com: Option<&Box<dyn AnyArc>> = if share { Some(&h) } else { None };
                s.spawn(move || {
                    let mut own = vec![mine];
                    let (mut c, mut sum) = (0u64, 0u64);
                    for _ in 0..1 + q.below(bounds) {
                        let pick = q.below(own.len() + com.is_some() as usize);
                        match (q.below(6), own.get(pick)) {
                            (0..=2, _) | (_, None) => { let raw = q.chance(1, 2); let h = own.get(pick).or(com); if let Some(h) = h { let a = h.call(&mut q, raw, id); logged(); c += 1; sum = sum.wrapping_add(a) } }
                            (3 | 4, Some(h)) => { let raw = q.chance(1, 2); let d = h.dup(raw); own.push(d) }
                            (_, Some(_)) => { let h = own.swap_remove(pick); h.end(q.below(3)); if own.is_empty() && com.is_none() { break } }
                        }
                        if q.chance(1, 4) { std::thread::yield_now() }
                    }
                    for h in own { h.end(q.below(3)) }
                    (c, sum)
                })
            }).collect();
            // the owner may let go first
            js.into_iter().map(|j| j.join().unwrap_or_else(|_| report::violation("a thread using a shared closure panicked"))).collect()
        });
        for (c, s) in outs { calls += c; sum = sum.wrapping_add(s) }
        ck!(made.fate.drops.load(SeqCst) == 0, "a shared closure with a live handle was dropped");
        ck!(made.fate.calls.load(SeqCst) == calls && made.fate.sum.load(SeqCst) == sum, "a shared closure called {calls} times by {nt} threads ran {} times", made.fate.calls.load(SeqCst));
        h.end(0);
        ck!(made.fate.drops.load(SeqCst) == 1, "after its last handle, the captured state of a shared closure has been dropped {} times", made.fate.drops.load(SeqCst));
        // last owners on different threads at the same time
        let (h, made) = ARCS[r.below(ARCS.len())](r);
        let hs: Vec<_> = (0..nt).map(|_| h.dup(r.chance(1, 2))).collect();
        let go = std::sync::atomic::AtomicBool::new(false);
        std::thread::scope(|s| {
            for h in hs { let go = &go; s.spawn(move || { while !go.load(Relaxed) { std::hint::spin_loop(); if cfg!(miri) { std::thread::yield_now() } } h.end(0) }); }
            go.store(true, Relaxed);
            h.end(1);
        });
        ck!(made.fate.drops.load(SeqCst) == 1, "{} handles dropped at the same time: the captured state was dropped {} times", nt + 1, made.fate.drops.load(SeqCst));
        report::evn("call", calls);
        ev("mt_history");
        seen_parts(&[k as u64, nt as u64, share as u64, calls]);
    });
}
