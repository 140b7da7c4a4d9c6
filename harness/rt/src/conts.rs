//! C05: FFI-safe owners (box, vector, slice, string, str, option, tuple) over random histories, next to a
//! plain model of their contents, a ledger of element drops and the allocator ledger.
use crate::ledger::{self, tracked, untracked};
use crate::prng::Rng;
use crate::report::{self, ev, seen_parts};
use crate::Opts;
use safer_ffi::prelude::*;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

// ---------------------------------------------------------------- element ledger
static LIVE: Mutex<Option<HashMap<u64, u64>>> = Mutex::new(None);
static NEXT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);
static BAD: Mutex<Option<String>> = Mutex::new(None);
fn born(val: u64) -> u64 {
    untracked(|| {
        let id = NEXT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        LIVE.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_with(HashMap::new).insert(id, val);
        id
    })
}
fn died(id: u64, val: u64) {
    untracked(|| {
        let was = LIVE.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_with(HashMap::new).remove(&id);
        if was != Some(val) {
            BAD.lock().unwrap_or_else(|e| e.into_inner()).get_or_insert_with(|| match was {
                None => format!("an element (id {id}) was dropped twice, or was never created"),
                Some(v) => format!("element {id} was created with value {v} and dropped with value {val}"),
            });
        }
    })
}
fn nlive() -> usize { LIVE.lock().unwrap_or_else(|e| e.into_inner()).as_ref().map_or(0, |m| m.len()) }

// element kinds ----------------------------------------------------
pub trait Elem: Sized + Send + 'static {
    const NAME: u64;
    const ZST: bool = false;
    const DROPS: bool = false;
    fn make(v: u64) -> Self;
    fn val(&self) -> u64;
    /// the value `make(v)` reports
    fn norm(v: u64) -> u64 { v }
}
macro_rules! prim { ($($t:ty = $n:expr),*) => { $(impl Elem for $t { const NAME: u64 = $n; fn make(v: u64) -> Self { v as $t } fn val(&self) -> u64 { *self as u64 } fn norm(v: u64) -> u64 { v as $t as u64 } })* } }
prim!(u8 = 1, u16 = 2, u32 = 3, u64 = 4);

/// FFI-safe, counted, heap-owning; may be told to panic when cloned or dropped.
#[derive_ReprC]
#[repr(C)]
pub struct D { id: u64, val: u64, heap: repr_c::Box<u64>, tag: u8 }
const BOOM_CLONE: u64 = 1 << 40;
const BOOM_DROP: u64 = 1 << 41;
impl D { fn new(val: u64) -> D { D { id: born(val), val, heap: Box::new(!val).into(), tag: val as u8 } } }
impl Elem for D { const NAME: u64 = 5; const DROPS: bool = true; fn make(v: u64) -> Self { D::new(v) } fn val(&self) -> u64 { if *self.heap == !self.val && self.tag == self.val as u8 { self.val } else { u64::MAX } } }
impl Clone for D { fn clone(&self) -> D { if self.val & BOOM_CLONE != 0 { panic!("clone") } D::new(self.val) } }
impl std::fmt::Debug for D { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "D{}", self.val) } }
impl Drop for D { fn drop(&mut self) { died(self.id, self.val); if self.val & BOOM_DROP != 0 && !std::thread::panicking() { panic!("drop") } } }

/// zero-sized with a destructor: only the count can be followed
static ZLIVE: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
pub struct Z(());
impl Elem for Z { const NAME: u64 = 6; const ZST: bool = true; const DROPS: bool = true; fn make(_: u64) -> Self { ZLIVE.fetch_add(1, std::sync::atomic::Ordering::SeqCst); Z(()) } fn val(&self) -> u64 { 0 } fn norm(_: u64) -> u64 { 0 } }
impl Drop for Z { fn drop(&mut self) { ZLIVE.fetch_sub(1, std::sync::atomic::Ordering::SeqCst); } }

/// over-aligned
#[repr(align(64))]
pub struct A64 { v: u64, id: u64 }
impl Elem for A64 { const NAME: u64 = 7; const DROPS: bool = true; fn make(v: u64) -> Self { A64 { v, id: born(v) } } fn val(&self) -> u64 { if self as *const _ as usize % 64 == 0 { self.v } else { u64::MAX } } }
impl Drop for A64 { fn drop(&mut self) { died(self.id, self.v) } }

/// not FFI-safe, heap-owning
pub struct S { s: String, id: u64, v: u64 }
impl Elem for S { const NAME: u64 = 8; const DROPS: bool = true; fn make(v: u64) -> Self { S { s: format!("<{v}>"), id: born(v), v } } fn val(&self) -> u64 { if self.s == format!("<{}>", self.v) { self.v } else { u64::MAX } } }
impl Drop for S { fn drop(&mut self) { died(self.id, self.v) } }

/// nested FFI vectors
impl Elem for repr_c::Vec<u16> {
    const NAME: u64 = 9;
    fn make(v: u64) -> Self { let n = (v % 5) as usize; let mut x = Vec::with_capacity(n + (v % 3) as usize); x.extend(std::iter::repeat((v >> 3) as u16 & 0x1fff).take(n)); x.into() }
    fn val(&self) -> u64 { let n = self.len() as u64; match self.first() { None => 0, Some(&x) => if self.iter().all(|y| *y == x) { n << 20 | x as u64 } else { u64::MAX } } }
    fn norm(v: u64) -> u64 { let n = v % 5; if n == 0 { 0 } else { n << 20 | ((v >> 3) as u16 & 0x1fff) as u64 } }
}

// ------------------------------------------------------------------
struct Log(Vec<String>);
impl Log {
    fn op(&mut self, s: impl FnOnce() -> String) { if cfg!(miri) { return } untracked(|| self.0.push(s())) }
    fn fail(&self, what: String) -> ! { untracked(|| report::violation(&format!("{what}; operations: {}", self.0.join(" ")))) }
}
macro_rules! ck { ($l:expr, $c:expr, $($t:tt)*) => { if !$c { $l.fail(format!($($t)*)) } } }

fn quiet(l: &Log) {
    if let Some(b) = BAD.lock().unwrap_or_else(|e| e.into_inner()).take() { l.fail(b) }
    if let Some(e) = ledger::error() { l.fail(format!("allocator ledger: {e}")) }
}

/// What one FFI owner of `T`s must look like.
struct Model { vals: Vec<u64>, ptr: usize, cap: usize }

enum Own<T: Elem> { V(repr_c::Vec<T>), B(c_slice::Box<T>), X(repr_c::Box<T>), O(TaggedOption<T>), T3(Tuple3<T, u8, T>), RV(Vec<T>), RB(Box<[T]>) }
use safer_ffi::option::TaggedOption;
use safer_ffi::tuple::*;

fn vec_words<T>(v: &repr_c::Vec<T>) -> [usize; 3] { unsafe { std::mem::transmute_copy(v) } }
fn slice_words<T>(v: &c_slice::Box<T>) -> [usize; 2] { unsafe { std::mem::transmute_copy(v) } }
fn vals<T: Elem>(s: &[T]) -> Vec<u64> { untracked(|| s.iter().map(|x| x.val()).collect()) }

struct Fns<T: Elem> {
    vec_clone: fn(&repr_c::Vec<T>) -> repr_c::Vec<T>,
    box_clone: fn(&repr_c::Box<T>) -> repr_c::Box<T>,
    slice_clone: fn(&c_slice::Box<T>) -> c_slice::Box<T>,
    dbg: fn(&repr_c::Vec<T>) -> (String, String),
    raw: fn(repr_c::Vec<T>) -> repr_c::Vec<T>,
}

fn check<T: Elem>(l: &Log, o: &Own<T>, m: &Model, after: &str) {
    let (got, ptr, cap) = match o {
        Own::V(v) => {
            let w = vec_words(v);
            ck!(l, w[0] == v.as_ptr() as usize && w[1] == v.len(), "after {after}: the vector's words {w:x?} do not match its pointer and length");
            (vals(&v[..]), w[0], Some(w[2]))
        }
        Own::B(b) => {
            let w = slice_words(b);
            ck!(l, w[0] == b.as_ptr() as usize && w[1] == b.len(), "after {after}: the boxed slice's words {w:x?} do not match its pointer and length");
            (vals(b), w[0], None)
        }
        Own::X(x) => (vec![x.val()], &**x as *const T as usize, None),
        Own::O(o) => (match o.as_ref() { Some(x) => vec![x.val()], None => vec![] }, 0, None),
        Own::T3(t) => { ck!(l, t._1 == 77, "after {after}: the plain tuple field changed"); (vec![t._0.val(), t._2.val()], 0, None) }
        Own::RV(v) => (vals(v), v.as_ptr() as usize, Some(v.capacity())),
        Own::RB(v) => (vals(v), v.as_ptr() as usize, None),
    };
    ck!(l, got == m.vals, "after {after}: contents {got:?}, expected {:?}", m.vals);
    if m.ptr != 0 && ptr != 0 && !(m.vals.is_empty() && m.cap == 0) { ck!(l, ptr == m.ptr, "after {after}: the buffer moved from {:#x} to {ptr:#x}", m.ptr) }
    if let Some(c) = cap { if m.cap != usize::MAX && !T::ZST { ck!(l, c == m.cap, "after {after}: capacity {c}, expected {}", m.cap) } }
}

fn model_of<T: Elem>(o: &Own<T>, vals: Vec<u64>) -> Model {
    let (ptr, cap) = match o {
        Own::V(v) => (v.as_ptr() as usize, vec_words(v)[2]),
        Own::RV(v) => (v.as_ptr() as usize, v.capacity()),
        Own::B(v) => (v.as_ptr() as usize, vals.len()),
        Own::RB(v) => (v.as_ptr() as usize, vals.len()),
        Own::X(x) => (&**x as *const T as usize, usize::MAX),
        Own::O(_) | Own::T3(_) => (0, usize::MAX),
    };
    Model { vals, ptr, cap }
}

fn new_val<T: Elem>(r: &mut Rng) -> (T, u64) { let v = r.below(1 << 30) as u64; (T::make(v), T::norm(v)) }

fn history<T: Elem>(r: &mut Rng, steps: usize, f: Option<&Fns<T>>) {
    let mut l = Log(vec![]);
    let l = &mut l;
    let mut pool: Vec<(Own<T>, Model)> = vec![];
    for _ in 0..steps {
        quiet(l);
        let op = if pool.is_empty() { r.below(5) } else { r.below(34) };
        if op < 5 {
            if pool.len() >= 5 { continue }
            let n = if r.big() { r.big_len() / 16 } else if r.chance(1, 5) { 0 } else { r.range(1, 9) };
            let extra = if r.chance(1, 2) { 0 } else if r.big() { r.big_len() / 8 } else { r.range(1, 7) };
            let n = if op == 2 { 1 } else if op == 3 { r.below(2) } else if op == 4 { 2 } else { n };
            let mut xs: Vec<T> = tracked(|| Vec::with_capacity(n + extra));
            let mut m = vec![];
            for _ in 0..n { let (x, v) = tracked(|| new_val::<T>(r)); xs.push(x); m.push(v) }
            let (ptr, cap) = (xs.as_ptr() as usize, xs.capacity());
            l.op(|| format!("new{op}({n}+{extra})"));
            let e: (Own<T>, Model) = match op {
                0 if n == 0 && extra == 0 && r.chance(1, 2) => { let o = Own::V(repr_c::Vec::EMPTY); let m = Model { vals: m, ptr: 0, cap: 0 }; (o, m) }
                0 => (Own::V(tracked(|| repr_c::Vec::from(xs))), Model { vals: m, ptr, cap }),
                1 => {
                    if n == 0 && r.chance(1, 3) { drop(xs); let o = Own::B(tracked(Default::default)); let mo = model_of(&o, m); (o, mo) }
                    else { let b = tracked(|| xs.into_boxed_slice()); let ptr = b.as_ptr() as usize; (Own::B(tracked(|| b.into())), Model { vals: m, ptr, cap: n }) }
                }
                2 => {
                    let x = xs.pop().unwrap();
                    tracked(|| drop(xs));
                    if r.chance(1, 2) { let b = tracked(|| Box::new(x)); let ptr = &*b as *const T as usize; (Own::X(tracked(|| b.into())), Model { vals: m, ptr, cap: usize::MAX }) }
                    else { let o = Own::X(tracked(|| safer_ffi::boxed::Box_::new(x))); let mo = model_of(&o, m); (o, mo) }
                }
                3 => { let x = xs.pop(); tracked(|| drop(xs)); let o = Own::O(x.into()); let mo = model_of(&o, m); (o, mo) }
                _ => { let b = xs.pop().unwrap(); let a = xs.pop().unwrap(); tracked(|| drop(xs)); let o = Own::T3(Tuple3 { _0: a, _1: 77, _2: b }); let mo = model_of(&o, m); (o, mo) }
            };
            check(l, &e.0, &e.1, "construction");
            ev("construct");
            seen_parts(&[T::NAME, 100 + op as u64, n as u64, extra as u64]);
            pool.push(e);
            continue;
        }
        let i = r.below(pool.len());
        let (o, mut m) = pool.swap_remove(i);
        seen_parts(&[T::NAME, op as u64, m.vals.len() as u64, (m.cap == m.vals.len()) as u64, match &o { Own::V(_) => 0, Own::B(_) => 1, Own::X(_) => 2, Own::O(_) => 3, Own::T3(_) => 4, Own::RV(_) => 5, Own::RB(_) => 6 }]);
        let boom = T::NAME == D::NAME && r.chance(1, 8);
        let keep = match (op, o) {
            // ---- round trips
            (5..=9, Own::V(v)) => { l.op(|| "vec->rust".into()); ev("convert"); Some(Own::RV(tracked(|| v.into()))) }
            (5..=12, Own::RV(v)) => { l.op(|| "rust->vec".into()); ev("convert"); Some(Own::V(tracked(|| v.into()))) }
            (5..=9, Own::B(v)) => { l.op(|| "slice->rust".into()); ev("convert"); Some(Own::RB(tracked(|| v.into()))) }
            (5..=12, Own::RB(v)) => { l.op(|| "rust->slice".into()); ev("convert"); Some(Own::B(tracked(|| v.into()))) }
            (5..=9, Own::X(x)) => { l.op(|| "box->rust->box".into()); ev("convert"); let b = tracked(|| x.into()); ck!(l, &*b as *const T as usize == m.ptr, "Box::into moved the value"); Some(Own::X(tracked(|| b.into()))) }
            (5..=9, Own::O(x)) => {
                l.op(|| "option->rust->option".into()); ev("convert");
                let some = !m.vals.is_empty();
                let y: Option<T> = tracked(|| if r.chance(1, 2) { x.into_rust() } else { x.into() });
                ck!(l, y.is_some() == some, "TaggedOption lost or invented its value");
                Some(Own::O(tracked(|| match y { Some(y) if r.chance(1, 3) => TaggedOption::from(y), y => y.into() })))
            }
            (10, Own::V(v)) => {
                // vector -> boxed slice through Rust
                l.op(|| "vec->boxed slice".into()); ev("convert");
                let b = tracked(|| Vec::from(v).into_boxed_slice());
                m.ptr = b.as_ptr() as usize; m.cap = m.vals.len();
                Some(Own::B(tracked(|| b.into())))
            }
            (10, Own::RB(v)) => { l.op(|| "boxed slice->vec".into()); ev("convert"); let v = tracked(|| v.into_vec()); m.cap = v.capacity(); Some(Own::RV(v)) }
            (11, Own::V(v)) if f.is_some() => { l.op(|| "vec->C layout->vec".into()); ev("convert"); Some(Own::V(tracked(|| (f.unwrap().raw)(v)))) }
            // ---- elementwise access
            (13 | 14, Own::V(mut v)) if !m.vals.is_empty() => {
                let k = r.below(m.vals.len());
                l.op(|| format!("vec[{k}]="));
                let (x, val) = tracked(|| new_val::<T>(r));
                tracked(|| if r.chance(1, 2) { v[k] = x } else { let mut s = v.as_mut(); s[k] = x });
                m.vals[k] = val; ev("write");
                Some(Own::V(v))
            }
            (13 | 14, Own::B(mut v)) if !m.vals.is_empty() => {
                let k = r.below(m.vals.len());
                l.op(|| format!("slice[{k}]="));
                let (x, val) = tracked(|| new_val::<T>(r));
                tracked(|| match r.below(3) { 0 => v[k] = x, 1 => v.as_slice_mut()[k] = x, _ => { let mut s = v.as_mut(); s[k] = x } });
                m.vals[k] = val; ev("write");
                Some(Own::B(v))
            }
            (13 | 14, Own::X(mut v)) => { l.op(|| "*box=".into()); let (x, val) = tracked(|| new_val::<T>(r)); tracked(|| *v = x); m.vals[0] = val; ev("write"); Some(Own::X(v)) }
            (13, Own::O(mut v)) => {
                l.op(|| "option.take".into()); ev("write");
                let some = v.as_mut().is_some();
                ck!(l, some == !m.vals.is_empty(), "as_mut disagrees about the option");
                let t = tracked(|| v.take());
                ck!(l, v.as_ref().is_none(), "take left a value behind");
                ck!(l, t.as_ref().map(|x| x.val()) == m.vals.get(0).copied(), "take returned something else");
                if r.chance(1, 2) { tracked(|| drop(v)); Some(Own::O(t)) } else { tracked(|| drop(t)); m.vals.clear(); Some(Own::O(v)) }
            }
            (14, Own::O(v)) => {
                l.op(|| "option.combinators".into()); ev("write");
                let (x, val) = tracked(|| new_val::<T>(r));
                let had = m.vals.get(0).copied();
                match r.below(3) {
                    0 => { let y = tracked(|| v.unwrap_or_else(|| x)); m.vals = vec![had.unwrap_or(val)]; Some(Own::O(tracked(|| TaggedOption::Some(y)))) }
                    1 => { let (mut a, mut b) = (0, 0); let y = tracked(|| v.map_or_else(|| { a += 1; x }, |y| { b += 1; y })); ck!(l, (a, b) == if had.is_some() { (0, 1) } else { (1, 0) }, "map_or_else ran the wrong closure"); m.vals = vec![had.unwrap_or(val)]; Some(Own::O(y.into())) }
                    _ => { let mut n = 0; let y = tracked(|| v.and_then(|y| { n += 1; let _y = y; TaggedOption::Some(x) })); ck!(l, n == had.is_some() as i32, "and_then ran its closure {n} times"); m.vals = if had.is_some() { vec![val] } else { vec![] }; Some(Own::O(y)) }
                }
            }
            (13 | 14, Own::T3(mut t)) => { l.op(|| "tuple._2=".into()); let (x, val) = tracked(|| new_val::<T>(r)); tracked(|| t._2 = x); m.vals[1] = val; ev("write"); Some(Own::T3(t)) }
            // ---- in-place mutation with faults
            (15..=21, Own::V(mut v)) => {
                let mut plan = vec![];
                for _ in 0..r.range(1, 5) { plan.push(r.below(12)) }
                let fault = r.chance(1, 4).then(|| r.below(plan.len() + 1));
                l.op(|| format!("with_rust_mut({plan:?}, panic at {fault:?})"));
                let mm = &mut m.vals;
                let mut cap = 0;
                let mut addr = 0;
                let res = catch_unwind(AssertUnwindSafe(|| tracked(|| v.with_rust_mut(|v| {
                    untracked(|| { cap = v.capacity(); addr = v.as_ptr() as usize; });
                    if vals(v) != *mm { panic!("contents seen inside") }
                    for (k, p) in plan.iter().enumerate() {
                        if fault == Some(k) { cap = v.capacity(); addr = v.as_ptr() as usize; std::panic::resume_unwind(Box::new(7u8)) }
                        match p {
                            0 | 1 => { let (x, val) = new_val::<T>(r); v.push(x); untracked(|| mm.push(val)) }
                            2 => { let a = v.pop(); let b = mm.pop(); if a.as_ref().map(|x| x.val()) != b { panic!("popped something else") } }
                            3 => { let n = r.below(6); let mut extra: Vec<T> = vec![]; for _ in 0..n { let (x, val) = new_val::<T>(r); extra.push(x); untracked(|| mm.push(val)) } v.append(&mut extra) }
                            4 => { v.reserve(r.below(20)) }
                            5 => v.shrink_to_fit(),
                            6 => { let n = r.below(mm.len() + 1); v.truncate(n); mm.truncate(n) }
                            7 => { let n = r.below(mm.len() + 1); let (x, val) = new_val::<T>(r); v.insert(n, x); untracked(|| mm.insert(n, val)) }
                            8 => if !mm.is_empty() { let n = r.below(mm.len()); let x = v.remove(n); if x.val() != mm.remove(n) { panic!("removed something else") } },
                            9 => { let old = std::mem::take(v); drop(old); mm.clear() }
                            10 => { let mut n: Vec<T> = Vec::with_capacity(3); let (x, val) = new_val::<T>(r); n.push(x); untracked(|| *mm = vec![val]); *v = n }
                            _ => { v.reverse(); mm.reverse() }
                        }
                        untracked(|| { cap = v.capacity(); addr = v.as_ptr() as usize; });
                    }
                    if fault == Some(plan.len()) { std::panic::resume_unwind(Box::new(7u8)) }
                    42u8
                }))));
                match (&res, fault) {
                    (Ok(42), None) => ev("mutate"),
                    (Err(p), Some(_)) if p.downcast_ref::<u8>() == Some(&7) => ev("mutate_panicked"),
                    (Err(p), _) => l.fail(format!("with_rust_mut: {}", p.downcast_ref::<&str>().unwrap_or(&"unexpected panic"))),
                    _ => l.fail("with_rust_mut swallowed the closure's panic or its result".into()),
                }
                tracked(|| drop(res));
                m.ptr = addr; m.cap = cap;
                Some(Own::V(v))
            }
            // ---- clones
            (22..=25, Own::V(v)) if f.is_some() => {
                if boom && !m.vals.is_empty() { clone_boom(l, r, &m, || (f.unwrap().vec_clone)(&v), |k| unsafe { set_boom(&v[k]) }); ev("clone_panicked"); Some(Own::V(v)) }
                else {
                    l.op(|| "vec.clone".into());
                    let c = tracked(|| (f.unwrap().vec_clone)(&v));
                    if !m.vals.is_empty() && !T::ZST { ck!(l, c.as_ptr() != v.as_ptr(), "a clone shares its source's buffer") }
                    let o = Own::V(c);
                    let cm = model_of(&o, m.vals.clone());
                    check(l, &o, &cm, "clone"); ev("clone");
                    if pool.len() < 5 { pool.push((o, cm)) } else { tracked(|| drop(o)) }
                    Some(Own::V(v))
                }
            }
            (22..=25, Own::B(v)) if f.is_some() => {
                if boom && !m.vals.is_empty() { clone_boom(l, r, &m, || (f.unwrap().slice_clone)(&v), |k| unsafe { set_boom(&v[k]) }); ev("clone_panicked"); Some(Own::B(v)) }
                else {
                    l.op(|| "slice.clone".into());
                    let c = tracked(|| (f.unwrap().slice_clone)(&v));
                    if !m.vals.is_empty() && !T::ZST { ck!(l, c.as_ptr() != v.as_ptr(), "a clone shares its source's buffer") }
                    let o = Own::B(c);
                    let cm = model_of(&o, m.vals.clone());
                    check(l, &o, &cm, "clone"); ev("clone");
                    if pool.len() < 5 { pool.push((o, cm)) } else { tracked(|| drop(o)) }
                    Some(Own::B(v))
                }
            }
            (22..=25, Own::X(v)) if f.is_some() => {
                if boom { clone_boom(l, r, &m, || (f.unwrap().box_clone)(&v), |_| unsafe { set_boom(&*v) }); ev("clone_panicked"); Some(Own::X(v)) }
                else {
                    l.op(|| "box.clone".into());
                    let c = tracked(|| (f.unwrap().box_clone)(&v));
                    if !T::ZST { ck!(l, &*c as *const T != &*v as *const T, "a clone shares its source's buffer") }
                    let o = Own::X(c);
                    let cm = model_of(&o, m.vals.clone());
                    check(l, &o, &cm, "clone"); ev("clone");
                    if pool.len() < 5 { pool.push((o, cm)) } else { tracked(|| drop(o)) }
                    Some(Own::X(v))
                }
            }
            (26, Own::V(v)) if f.is_some() => { let (a, b) = (f.unwrap().dbg)(&v); ck!(l, a == b, "Debug of the vector is {a}, of its contents {b}"); ev("format"); Some(Own::V(v)) }
            // ---- ends
            (27..=30, o) => {
                l.op(|| "drop".into());
                if r.chance(1, 4) && !cfg!(miri) { std::thread::scope(|s| { s.spawn(|| tracked(|| drop(o))); }); ev("drop_elsewhere") }
                else if T::NAME == D::NAME && r.chance(1, 4) && !m.vals.is_empty() {
                    // one element's destructor panics: the others and the buffer must still go
                    unsafe { match &o { Own::V(v) => set_boom_drop(&v[r.below(m.vals.len())]), Own::B(v) => set_boom_drop(&v[r.below(m.vals.len())]), Own::X(v) => set_boom_drop(&**v), _ => {} } }
                    let res = catch_unwind(AssertUnwindSafe(|| tracked(|| drop(o))));
                    tracked(|| drop(res));
                    ev("drop_panicked");
                } else { tracked(|| drop(o)) }
                ev("drop");
                None
            }
            (_, o) => Some(o),
        };
        if let Some(o) = keep {
            check(l, &o, &m, l.0.last().map_or("the last operation", |s| s));
            pool.push((o, m));
        }
        ev("step");
    }
    for (o, m) in pool { check(l, &o, &m, "the history"); tracked(|| drop(o)) }
    quiet(l);
    if !cfg!(miri) { report::sample(|| format!("element kind {}: {}", T::NAME, l.0.iter().take(14).cloned().collect::<Vec<_>>().join(" "))) }
}

unsafe fn set_boom<T: Elem>(x: &T) { if T::NAME == D::NAME { let d = x as *const T as *mut D; rename(d, (*d).val ^ BOOM_CLONE) } }
unsafe fn set_boom_drop<T: Elem>(x: &T) { if T::NAME == D::NAME { let d = x as *const T as *mut D; rename(d, (*d).val ^ BOOM_DROP) } }
unsafe fn rename(d: *mut D, v: u64) {
    (*d).val = v; *(*d).heap = !v; (*d).tag = v as u8;
    LIVE.lock().unwrap_or_else(|e| e.into_inner()).as_mut().unwrap().insert((*d).id, v);
}
/// cloning an element somewhere in the middle panics: nothing may leak and the source must be intact
fn clone_boom<C>(l: &mut Log, r: &mut Rng, m: &Model, clone: impl Fn() -> C, set: impl Fn(usize)) {
    let k = r.below(m.vals.len());
    l.op(|| format!("clone panicking at {k}"));
    let (n, live) = (nlive(), ledger::live());
    set(k);
    let res = catch_unwind(AssertUnwindSafe(|| tracked(|| clone())));
    ck!(l, res.is_err(), "cloning did not clone element {k}");
    tracked(|| drop(res));
    set(k);
    ck!(l, nlive() == n, "{} elements were left behind by a clone that panicked", nlive() as i64 - n as i64);
    if ledger::ON { ck!(l, ledger::live() == live, "{} blocks were left behind by a clone that panicked", ledger::live() - live) }
}

macro_rules! fns { ($t:ty) => { Fns::<$t> {
    vec_clone: |v| v.clone(), box_clone: |v| v.clone(), slice_clone: |v| v.clone(),
    dbg: |v| untracked(|| (format!("{v:?}"), format!("{:?}", &v[..]))),
    raw: |v| unsafe { safer_ffi::layout::from_raw_unchecked(safer_ffi::layout::into_raw(v)) },
} } }

// ---------------------------------------------------------------- text
enum Txt { S(repr_c::String), B(str::Box), RS(String), RB(Box<str>) }
fn text_history(r: &mut Rng, steps: usize) {
    let mut l = Log(vec![]);
    let l = &mut l;
    let mut pool: Vec<(Txt, String, usize, usize)> = vec![];
    let check = |l: &Log, t: &Txt, m: &str, ptr: usize, cap: usize| {
        let (s, p, c): (&str, usize, Option<usize>) = match t {
            Txt::S(s) => { let w: [usize; 3] = unsafe { std::mem::transmute_copy(s) }; ck!(l, w[1] == m.len(), "a string of {} bytes says {}", m.len(), w[1]); (&s[..], w[0], Some(w[2])) }
            Txt::B(s) => (&s[..], s.as_ptr() as usize, None),
            Txt::RS(s) => (&s[..], s.as_ptr() as usize, Some(s.capacity())),
            Txt::RB(s) => (&s[..], s.as_ptr() as usize, None),
        };
        ck!(l, s == m, "text {s:?}, expected {m:?}");
        ck!(l, s.as_ptr() as usize == p, "the text is not where its pointer says");
        if ptr != 0 && !(m.is_empty() && cap == 0) { ck!(l, p == ptr, "the text's buffer moved") }
        if let (Some(c), true) = (c, cap != usize::MAX) { ck!(l, c == cap, "text capacity {c}, expected {cap}") }
    };
    for _ in 0..steps {
        quiet(l);
        let op = if pool.is_empty() { r.below(4) } else { r.below(22) };
        if op < 4 {
            if pool.len() >= 5 { continue }
            let n = if r.big() { r.big_len() / 4 } else if r.chance(1, 5) { 0 } else { r.range(1, 12) };
            let m = r.string(n);
            let extra = r.below(6);
            l.op(|| format!("new{op}({m:?})"));
            let t = match op {
                0 => { let mut s = tracked(|| String::with_capacity(m.len() + extra)); s.push_str(&m); let (p, c) = (s.as_ptr() as usize, s.capacity()); (Txt::S(tracked(|| s.into())), m, p, c) }
                1 => { let s: repr_c::String = tracked(|| if m.is_empty() && r.chance(1, 2) { repr_c::String::EMPTY } else { (&m[..]).into() }); let w: [usize; 3] = unsafe { std::mem::transmute_copy(&s) }; (Txt::S(s), m, w[0], w[2]) }
                2 => { let b = tracked(|| m.clone().into_boxed_str()); let p = b.as_ptr() as usize; let n = b.len(); (Txt::B(tracked(|| b.into())), m, p, if n == 0 { 0 } else { usize::MAX }) }
                _ => { let b: str::Box = tracked(|| if r.chance(1, 2) { (&m[..]).into() } else { let mut s = String::with_capacity(m.len() + extra); s.push_str(&m); s.into() }); let p = b.as_ptr() as usize; let n = b.len(); (Txt::B(b), m, p, if n == 0 { 0 } else { usize::MAX }) }
            };
            check(l, &t.0, &t.1, t.2, t.3);
            ev("construct");
            seen_parts(&[200 + op as u64, n as u64, extra as u64]);
            pool.push(t);
            continue;
        }
        let i = r.below(pool.len());
        let (t, mut m, mut p, mut c) = pool.swap_remove(i);
        seen_parts(&[220 + op as u64, m.len() as u64, m.is_ascii() as u64, match &t { Txt::S(_) => 0, Txt::B(_) => 1, Txt::RS(_) => 2, Txt::RB(_) => 3 }]);
        let keep = match (op, t) {
            (4..=6, Txt::S(s)) => { l.op(|| "string->rust".into()); ev("convert"); Some(Txt::RS(tracked(|| s.into()))) }
            (4..=9, Txt::RS(s)) => { l.op(|| "rust->string".into()); ev("convert"); Some(Txt::S(tracked(|| s.into()))) }
            (4..=6, Txt::B(s)) => { l.op(|| "str->rust".into()); ev("convert"); Some(Txt::RB(tracked(|| s.into()))) }
            (4..=9, Txt::RB(s)) => { l.op(|| "rust->str".into()); ev("convert"); Some(Txt::B(tracked(|| s.into()))) }
            (7, Txt::B(s)) => { l.op(|| "str->String".into()); ev("convert"); let s: String = tracked(|| s.into()); c = s.capacity(); ck!(l, c == s.len(), "a boxed str became a string of another capacity"); Some(Txt::RS(s)) }
            (8, Txt::B(s)) => {
                l.op(|| "str_ref".into());
                let q = s.as_ref();
                ck!(l, q.as_str() == m && q.as_ptr() == s.as_ptr() && AsRef::<str>::as_ref(&q) == m && AsRef::<str>::as_ref(&s) == m, "as_ref of a boxed str is {q:?}");
                let o: String = tracked(|| q.into());
                ck!(l, o == m, "text copied from a str_ref is {o:?}");
                tracked(|| drop(o)); ev("read");
                Some(Txt::B(s))
            }
            (10..=13, Txt::S(mut s)) => {
                let plan: Vec<usize> = (0..r.range(1, 4)).map(|_| r.below(7)).collect();
                let fault = r.chance(1, 4).then(|| r.below(plan.len() + 1));
                l.op(|| format!("with_rust_mut({plan:?}, {fault:?})"));
                let mm = &mut m;
                let res = catch_unwind(AssertUnwindSafe(|| tracked(|| s.with_rust_mut(|s| {
                    untracked(|| { p = s.as_ptr() as usize; c = s.capacity(); });
                    if s != mm { panic!("text seen inside") }
                    for (k, op) in plan.iter().enumerate() {
                        if fault == Some(k) { std::panic::resume_unwind(Box::new(7u8)) }
                        match op {
                            0 | 1 => { let n = if r.big() { r.big_len() / 8 } else { r.range(1, 9) }; let x = untracked(|| r.string(n)); s.push_str(&x); untracked(|| { mm.push_str(&x); drop(x) }) }
                            2 => { let a = s.pop(); let b = mm.pop(); if a != b { panic!("popped") } }
                            3 => { s.clear(); mm.clear() }
                            4 => s.reserve(r.below(30)),
                            5 => s.shrink_to_fit(),
                            _ => { let x: String = s.chars().rev().collect(); *s = x; let y = untracked(|| mm.chars().rev().collect()); untracked(|| *mm = y) }
                        }
                        untracked(|| { p = s.as_ptr() as usize; c = s.capacity(); });
                    }
                    if fault == Some(plan.len()) { std::panic::resume_unwind(Box::new(7u8)) }
                    9u8
                }))));
                match (&res, fault) {
                    (Ok(9), None) => ev("mutate"),
                    (Err(p), Some(_)) if p.downcast_ref::<u8>() == Some(&7) => ev("mutate_panicked"),
                    _ => l.fail("String::with_rust_mut: unexpected panic, or the closure's was swallowed".into()),
                }
                tracked(|| drop(res));
                Some(Txt::S(s))
            }
            (14 | 15, Txt::S(s)) => {
                l.op(|| "string.clone".into());
                let k = tracked(|| s.clone());
                ck!(l, &k[..] == m && (m.is_empty() || k.as_ptr() != s.as_ptr()), "a clone of a string is {k:?} or shares its buffer");
                let w: [usize; 3] = unsafe { std::mem::transmute_copy(&k) };
                ev("clone");
                if pool.len() < 5 { pool.push((Txt::S(k), m.clone(), w[0], w[2])) } else { tracked(|| drop(k)) }
                Some(Txt::S(s))
            }
            (16, Txt::S(s)) => { ck!(l, format!("{s:?}|{s}|{s:>9}|{s:.3}") == format!("{m:?}|{m}|{m:>9}|{m:.3}"), "formatting of a string differs: {s:?}"); ev("format"); Some(Txt::S(s)) }
            (16, Txt::B(s)) => { ck!(l, format!("{s:?}|{:?}", s.as_ref()) == format!("{m:?}|{m:?}"), "formatting of a str differs: {s:?}"); ev("format"); Some(Txt::B(s)) }
            (17..=19, t) => { l.op(|| "drop".into()); tracked(|| drop(t)); ev("drop"); None }
            (_, t) => Some(t),
        };
        if let Some(t) = keep { check(l, &t, &m, p, c); pool.push((t, m, p, c)) }
        ev("step");
    }
    for (t, m, p, c) in pool { check(l, &t, &m, p, c); tracked(|| drop(t)) }
    quiet(l);
}

/// Opaque boxes and references, and the pointers of `safer_ffi::ptr`.
fn pointer_history<T: Elem>(r: &mut Rng, steps: usize) {
    use safer_ffi::layout::Opaque;
    use safer_ffi::ptr::{NonNullMut, NonNullOwned, NonNullRef};
    let l = &mut Log(vec![]);
    for _ in 0..steps {
        quiet(l);
        let op = r.below(12);
        let (x, v) = tracked(|| new_val::<T>(r));
        l.op(|| format!("pointers {op}"));
        seen_parts(&[300 + op as u64, T::NAME]);
        let b = tracked(|| Box::new(x));
        let at = &*b as *const T as usize;
        macro_rules! is { ($y:expr, $what:expr) => { let y: &T = $y; ck!(l, y as *const T as usize == at, "{} is elsewhere", $what); ck!(l, y.val() == v, "{} holds {}, expected {v}", $what, y.val()); } }
        match op {
            0 | 1 => {
                let o: Box<Opaque<T>> = if op == 0 { b.into() } else { let o: repr_c::Box<Opaque<T>> = tracked(|| b.into()); is!(&**o, "an opaque repr_c::Box"); o.into() };
                is!(&**o, "an opaque Box");
                is!(&o.concrete, "what is in an opaque Box");
                let inner = tracked(|| o.concrete);
                ck!(l, inner.val() == v, "what came out of an opaque box is {}", inner.val());
                tracked(|| drop(inner));
                ev("opaque");
            }
            2 => { let o: repr_c::Box<Opaque<T>> = tracked(|| b.into()); is!(&o, "an opaque repr_c::Box"); tracked(|| drop(o)); ev("opaque") }
            3 | 4 => {
                let mut b = b;
                { let o: &Opaque<T> = (&*b).into(); is!(o, "an opaque reference"); }
                let (y, w) = tracked(|| new_val::<T>(r));
                { let o: &mut Opaque<T> = (&mut *b).into(); is!(o, "an opaque mutable reference"); tracked(|| **o = y); }
                ck!(l, b.val() == w, "a write through an opaque reference left {}, expected {w}", b.val());
                tracked(|| drop(b));
                ev("opaque");
            }
            5 | 6 => {
                let mut b: repr_c::Box<T> = tracked(|| if op == 5 { b.into() } else { repr_c::Box::<T>::new(*b) });
                let at = &*b as *const T as usize;
                { let p: NonNullRef<T> = (&*b).into(); let q = p; ck!(l, p.as_ptr() as usize == at && q.cast::<u8>().as_ptr() as usize == at && p.0 == q.0 && p.clone().as_ptr() as usize == at, "a NonNullRef points elsewhere"); }
                { let mut p: NonNullMut<T> = (&mut *b).into(); let (y, w) = tracked(|| new_val::<T>(r)); let mut q = p.copy(); ck!(l, q.as_mut_ptr() as usize == at && p.as_ptr() as usize == at, "a NonNullMut points elsewhere"); unsafe { tracked(|| *p.as_mut() = y) } ck!(l, b.val() == w, "a write through NonNullMut left {}, expected {w}", b.val()); }
                tracked(|| drop(b));
                ev("pointer");
            }
            _ => {
                let mut p: NonNullOwned<T> = std::ptr::NonNull::from(Box::leak(b)).into();
                ck!(l, p.as_ptr() as usize == at && p.as_mut_ptr() as usize == at && p.copy().as_ptr() as usize == at, "a NonNullOwned points elsewhere");
                is!(unsafe { p.as_ref() }, "a NonNullOwned");
                match op {
                    7 | 8 => tracked(|| unsafe { p.cast::<u8>().drop_in_place_and_dealloc::<T>() }),
                    9 => tracked(|| unsafe { p.copy().drop_in_place::<T>(); p.dealloc::<T>() }),
                    10 => tracked(|| unsafe { drop(p.as_ptr().read()); p.cast::<u16>().dealloc::<T>() }),
                    _ => tracked(|| unsafe { drop(Box::from_raw(p.as_mut_ptr())) }),
                }
                ev("pointer");
            }
        }
        ev("step");
    }
    quiet(l);
}

pub fn run(o: &Opts) {
    std::panic::set_hook(Box::new(|_| {}));
    o.histories(5, |mut r, _| {
        let before = ledger::live();
        let kind = r.below(15);
        let n = r.range(4, o.steps.max(5));
        match kind {
            0 => history::<u8>(&mut r, n, Some(&fns!(u8))),
            1 => history::<u16>(&mut r, n, Some(&fns!(u16))),
            2 => history::<u64>(&mut r, n, Some(&fns!(u64))),
            3 | 4 | 5 | 6 => history::<D>(&mut r, n, Some(&fns!(D))),
            7 => history::<Z>(&mut r, n, None),
            8 => history::<A64>(&mut r, n, None),
            9 => history::<S>(&mut r, n, None),
            10 => history::<repr_c::Vec<u16>>(&mut r, n, Some(&fns!(repr_c::Vec<u16>))),
            11 => match r.below(5) { 0 => pointer_history::<u16>(&mut r, n), 1 => pointer_history::<Z>(&mut r, n), 2 => pointer_history::<A64>(&mut r, n), 3 => pointer_history::<S>(&mut r, n), _ => pointer_history::<D>(&mut r, n) },
            _ => text_history(&mut r, n),
        }
        let (e, z) = (nlive(), ZLIVE.load(std::sync::atomic::Ordering::SeqCst));
        if e != 0 || z != 0 { report::violation(&format!("{} elements were never dropped (element kind {kind})", e as i64 + z)) }
        if ledger::ON && ledger::live() != before { report::violation(&format!("{} blocks ({} bytes) leaked (element kind {kind})", ledger::live() - before, ledger::live_bytes())) }
        ev("history");
    });
}
