#![allow(warnings)]
// A small but realistic exported library: the C side (scenario.c) creates, uses, shares and frees its objects through the generated header only.
use ::safer_ffi::prelude::*;
use ::safer_ffi::prelude::Out;
use ::safer_ffi::closure::*;
use ::safer_ffi::layout::{ReprC, CLayoutOf};
use ::std::sync::atomic::{AtomicI64, Ordering::SeqCst};
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/support.rs"));

include!(concat!(env!("CARGO_MANIFEST_DIR"), "/monitor.rs"));

// ---- values
#[derive_ReprC] #[repr(C)] #[derive(Clone, Copy, Debug, PartialEq)]
pub struct Point { x: f64, y: f64, tag: u8 }
#[derive_ReprC] #[repr(u8)] #[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op { Add, Mul = 10, Max }
#[derive_ReprC(rename = "op_result")] #[repr(C)]
pub struct OpResult { op: Op, value: ::safer_ffi::option::TaggedOption<i64>, points: ::safer_ffi::tuple::Tuple2<Point, Point> }

#[ffi_export] fn point_add(a: Point, b: Point) -> Point { Point { x: a.x + b.x, y: a.y + b.y, tag: a.tag ^ b.tag } }
#[ffi_export] fn points_sum(ps: c_slice::Ref<'_, Point>) -> Point { ps.iter().copied().fold(Point { x: 0., y: 0., tag: 0 }, |a, b| point_add(a, b)) }
#[ffi_export] fn points_scale(mut ps: c_slice::Mut<'_, Point>, by: f64) { for p in ps.iter_mut() { p.x *= by; p.y *= by; } }
#[ffi_export] fn points_max<'a>(ps: c_slice::Ref<'a, Point>) -> Option<&'a Point> { ps.as_slice().iter().fold(None, |m: Option<&Point>, p| match m { Some(m) if m.x >= p.x => Some(m), _ => Some(p) }) }
#[ffi_export] fn apply(op: Op, a: i64, b: i64, p: Point) -> OpResult {
    let v = match op { Op::Add => a.checked_add(b), Op::Mul => a.checked_mul(b), Op::Max => Some(a.max(b)) };
    OpResult { op, value: v.into(), points: ::safer_ffi::tuple::Tuple2 { _0: p, _1: point_add(p, p) } }
}
#[ffi_export] fn try_div(a: i32, b: i32, out: Out<'_, i32>) -> bool { match a.checked_div(b) { Some(v) => { out.write(v); true } None => false } }
#[ffi_export(rename = "swap_points")] fn swap_inner(a: &mut Point, b: Option<&mut Point>) -> bool { match b { Some(b) => { ::core::mem::swap(a, b); true } None => false } }

// ---- owned buffers
#[ffi_export] fn ints_new(n: usize, first: i32) -> repr_c::Vec<i32> { let mut v = Vec::with_capacity(n + n / 2); v.extend((0..n as i32).map(|i| first.wrapping_add(i))); v.into() }
#[ffi_export] fn ints_push(v: &mut repr_c::Vec<i32>, x: i32) { v.with_rust_mut(|v| v.push(x)) }
#[ffi_export] fn ints_clone(v: &repr_c::Vec<i32>) -> repr_c::Vec<i32> { v.clone() }
#[ffi_export] fn ints_sum(v: &repr_c::Vec<i32>) -> i64 { v.iter().map(|&x| x as i64).sum() }
#[ffi_export] fn ints_into_boxed(v: repr_c::Vec<i32>) -> c_slice::Box<i32> { let v: Vec<i32> = v.into(); v.into_boxed_slice().into() }
#[ffi_export] fn boxed_into_ints(v: c_slice::Box<i32>) -> repr_c::Vec<i32> { let v: Box<[i32]> = v.into(); v.into_vec().into() }
#[ffi_export] fn ints_free(v: repr_c::Vec<i32>) { drop(v) }
#[ffi_export] fn boxed_ints_free(v: c_slice::Box<i32>) { drop(v) }
#[ffi_export] fn boxed_ints_sum(v: &c_slice::Box<i32>) -> i64 { v.iter().map(|&x| x as i64).sum() }
#[ffi_export] fn concat(a: char_p::Ref<'_>, b: char_p::Ref<'_>) -> char_p::Box { format!("{}{}", a.to_str(), b.to_str()).try_into().unwrap() }
#[ffi_export] fn str_len(s: char_p::Ref<'_>) -> usize { s.to_str().len() }
#[ffi_export] fn str_free(s: Option<char_p::Box>) { drop(s) }
#[ffi_export] fn utf8_upper(s: str::Ref<'_>) -> str::Box { let s: Box<str> = s.to_uppercase().into(); s.into() }
#[ffi_export] fn utf8_free(s: str::Box) { drop(s) }
#[ffi_export] fn text_new(s: str::Ref<'_>) -> repr_c::String { String::from(&*s).into() }
#[ffi_export] fn text_append(t: &mut repr_c::String, s: str::Ref<'_>) { t.with_rust_mut(|t| t.push_str(&s)) }
#[ffi_export] fn text_free(t: repr_c::String) { drop(t) }

// ---- an opaque object with registered callbacks
#[derive_ReprC] #[repr(opaque)]
pub struct Store { names: Vec<String>, t: Vec<Tracked>, hook: Option<ArcDynFn1<u32, u32>>, filter: Option<BoxDynFnMut1<bool, u32>> }
#[ffi_export] fn store_new() -> repr_c::Box<Store> { Box::new(Store { names: vec![], t: vec![Tracked::new()], hook: None, filter: None }).into() }
#[ffi_export] fn store_free(s: Option<repr_c::Box<Store>>) { drop(s) }
#[ffi_export] fn store_add(s: &mut Store, name: char_p::Ref<'_>) -> usize { s.names.push(name.to_str().into()); s.t.push(Tracked::new()); s.names.len() }
#[ffi_export] fn store_remove(s: &mut Store, i: usize) -> Option<char_p::Box> { if i < s.names.len() { s.t.remove(i + 1); Some(s.names.remove(i).try_into().unwrap()) } else { None } }
#[ffi_export] fn store_len(s: &'_ Store) -> usize { for t in &s.t { t.check() } s.names.len() }
#[ffi_export] fn store_names(s: &Store) -> repr_c::Vec<char_p::Box> { s.names.iter().map(|n| char_p::Box::try_from(n.clone()).unwrap()).collect::<Vec<_>>().into() }
#[ffi_export] fn names_free(v: repr_c::Vec<char_p::Box>) { drop(v) }
#[ffi_export] fn store_each(s: &Store, mut f: RefDynFnMut2<'_, (), usize, usize>) { for (i, n) in s.names.iter().enumerate() { f.call(i, n.len()) } }
#[ffi_export] fn store_each_name(s: &Store, ctx: *mut ::core::ffi::c_void, f: unsafe extern "C" fn(*mut ::core::ffi::c_void, char_p::Raw) -> bool) -> usize {
    let mut k = 0;
    for n in &s.names { let c = char_p::Box::try_from(n.clone()).unwrap(); k += 1; if !unsafe { f(ctx, ::core::mem::transmute(c.as_ref())) } { break } }
    k
}
#[ffi_export] fn store_set_hook(s: &mut Store, f: ArcDynFn1<u32, u32>) { s.hook = Some(f) }
#[ffi_export] fn store_take_hook(s: &mut Store) -> ::safer_ffi::option::TaggedOption<ArcDynFn1<u32, u32>> { s.hook.take().into() }
#[ffi_export] fn store_call_hook(s: &Store, x: u32) -> u32 { s.hook.as_ref().map_or(x, |h| h.call(x)) }
#[ffi_export] fn store_call_hook_threads(s: &Store, n: u32) -> u64 {
    let Some(h) = s.hook.as_ref() else { return 0 };
    (0..n).map(|k| { let h = h.clone(); ::std::thread::spawn(move || { let mut s = 0u64; for i in 0..20 { let h2 = h.clone(); s += h2.call(k * 100 + i) as u64 } s }) }).collect::<Vec<_>>().into_iter().map(|j| j.join().unwrap()).sum()
}
#[ffi_export] fn store_set_filter(s: &mut Store, f: BoxDynFnMut1<bool, u32>) { s.filter = Some(f) }
#[ffi_export] fn store_filter_count(s: &mut Store, n: u32) -> u32 { let Some(f) = s.filter.as_mut() else { return n }; (0..n).filter(|&i| f.call(i)).count() as u32 }
#[ffi_export] fn store_clear_filter(s: &mut Store) { s.filter = None }

// ---- Rust closures given to C
#[ffi_export] fn counter_new(start: i32) -> BoxDynFnMut0<i32> { let t = Tracked::new(); let mut n = start; Box::new(move || { t.check(); n += 1; n }).into() }
#[ffi_export] fn adder_new(k: i32) -> ArcDynFn1<i32, i32> { let t = Tracked::new(); ::std::sync::Arc::new(move |x: i32| { t.check(); x.wrapping_add(k) }).into() }
#[ffi_export] fn counter_free(f: BoxDynFnMut0<i32>) { drop(f) }
#[ffi_export] fn adder_twice(f: ArcDynFn1<i32, i32>, x: i32) -> i32 { f.call(f.call(x)) }
// nested export: called back from C while another export is running
#[ffi_export] fn nested(f: extern "C" fn(u32) -> u64, x: u32) -> u64 { f(x) + 1 }
