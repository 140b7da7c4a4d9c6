#![allow(warnings)]
// Exported async functions by hand: what becomes of owned arguments, captures and results. Driven by worker_async.py.
use ::safer_ffi::prelude::*;
use ::safer_ffi::prelude::Out;
use ::safer_ffi::closure::*;
use ::safer_ffi::layout::{ReprC, CLayoutOf};
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/support.rs"));
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/async.rs"));

/// logs its letter when dropped
#[derive_ReprC] #[repr(opaque)] pub struct Tok(u8);
impl Drop for Tok { fn drop(&mut self) { alog(self.0) } }
#[ffi_export] fn tok(l: u8) -> repr_c::Box<Tok> { Box::new(Tok(l)).into() }
#[ffi_export] fn tok_free(t: repr_c::Box<Tok>) -> u8 { let l = t.0; drop(t); l }
#[ffi_export] fn vec_new(n: u32) -> repr_c::Vec<repr_c::Box<Tok>> { (0..n as usize).map(|i| tok(b"abcxyz"[i])).collect::<Vec<_>>().into() }
#[ffi_export] fn vec_free(v: repr_c::Vec<repr_c::Box<Tok>>) { }
#[ffi_export] fn free_text(s: char_p::Box) { }
#[ffi_export] fn free_slice(s: c_slice::Box<u8>) { }
#[derive_ReprC] #[repr(C)] pub struct Pair { a: repr_c::Box<Tok>, n: u64, b: Option<repr_c::Box<Tok>> }

#[ffi_export(executor = ex_park)] async fn a_nothing() { alog(b'P'); ffi_await!(async { suspend().await }) }
#[ffi_export(executor = ex_park)] async fn a_sum(a: u32, b: u64) -> u64 { alog(b'P'); let c = a as u64; ffi_await!(async move { suspend().await; b + c }) }
#[ffi_export(executor = ex_park)] async fn a_moved(t: repr_c::Box<Tok>) -> u8 { alog(b'P'); ffi_await!(async move { suspend().await; t.0 }) }
#[ffi_export(executor = ex_park)] async fn a_moved_early(t: repr_c::Box<Tok>) -> u8 { alog(b'P'); ffi_await!(async move { let l = t.0; drop(t); suspend().await; l }) }
#[ffi_export(executor = ex_park)] async fn a_prelude(t: repr_c::Box<Tok>) -> u8 { let l = t.0; drop(t); alog(b'P'); ffi_await!(async move { suspend().await; l }) }
#[ffi_export(executor = ex_park)] async fn a_unused(t: repr_c::Box<Tok>, n: u8) -> u8 { alog(b'P'); ffi_await!(async move { suspend().await; n }) }
#[ffi_export(executor = ex_park)] async fn a_underscore(_: repr_c::Box<Tok>, n: u8) -> u8 { alog(b'P'); ffi_await!(async move { suspend().await; n }) }
#[ffi_export(executor = ex_park)] async fn a_borrowed(t: repr_c::Box<Tok>) -> u8 { alog(b'P'); let r = &t; ffi_await!(async { suspend().await; r.0 }) }
#[ffi_export(executor = ex_park)] async fn a_back(t: repr_c::Box<Tok>) -> repr_c::Box<Tok> { alog(b'P'); ffi_await!(async move { suspend().await; t }) }
#[ffi_export(executor = ex_park)] async fn a_choose(a: repr_c::Box<Tok>, b: repr_c::Box<Tok>, first: bool) -> repr_c::Box<Tok> { alog(b'P'); ffi_await!(async move { suspend().await; if first { a } else { b } }) }
#[ffi_export(executor = ex_park)] async fn a_option(t: Option<repr_c::Box<Tok>>, keep: bool) -> Option<repr_c::Box<Tok>> { alog(b'P'); ffi_await!(async move { suspend().await; t.filter(|_| keep) }) }
#[ffi_export(executor = ex_park)] async fn a_pair(p: Pair) -> Pair { alog(b'P'); ffi_await!(async move { let Pair { a, n, b } = p; suspend().await; Pair { a: b.unwrap(), n: n + 1, b: Some(a) } }) }
#[ffi_export(executor = ex_park)] async fn a_vec(v: repr_c::Vec<repr_c::Box<Tok>>) -> repr_c::Vec<repr_c::Box<Tok>> { alog(b'P'); ffi_await!(async move { let mut w: Vec<_> = v.into(); suspend().await; w.reverse(); w.pop(); w.into() }) }
#[ffi_export(executor = ex_park)] async fn a_text(s: char_p::Ref<'_>) -> char_p::Box { alog(b'P'); let t = s.to_str().to_owned(); ffi_await!(async move { suspend().await; (t + "!").try_into().unwrap() }) }
#[ffi_export(executor = ex_park)] async fn a_slice(s: c_slice::Ref<'_, u8>) -> c_slice::Box<u8> { alog(b'P'); ffi_await!(async { let mut v = s.to_vec(); suspend().await; v.reverse(); v.into_boxed_slice().into() }) }
#[ffi_export(executor = ex_park)] async fn a_return(t: repr_c::Box<Tok>, n: u8) -> u8 { let _d = Guard(b'D', 0); alog(b'P'); if n > 9 { return n + 1 } let l = t.0; ffi_await!(async move { suspend().await; let _t = t; n }) }
#[ffi_export(executor = ex_park)] async fn a_out(out: Out<'_, u32>, n: u32) { alog(b'P'); ffi_await!(async move { suspend().await; out.write(n * 3); }) }
#[ffi_export(executor = ex_park)] async fn a_mut(x: &mut u32) -> u32 { alog(b'P'); *x += 1; ffi_await!(async move { *x *= 2; suspend().await; *x += 1; *x }) }
#[ffi_export(executor = ex_park)] async fn a_callback(f: extern "C" fn(u32) -> u32, n: u32) -> u32 { alog(b'P'); let k = f(n); ffi_await!(async move { suspend().await; f(k) }) }
#[ffi_export(executor = ex_park)] async fn a_two_guards(n: u32) -> u32 { let _d = Guard(b'D', 0); alog(b'P'); let g = Guard(b'G', 0); ffi_await!(async move { let _g = g; let h = Guard(b'H', 0); suspend().await; drop(h); n }) }
#[ffi_export(executor = ex_park)] async fn a_nested(n: u32) -> u64 { alog(b'P'); ffi_await!(async move { suspend().await; a_sum(n, 1) }) }
#[ffi_export(executor = ex_park)] async fn a_join(n: u32) -> u32 { alog(b'P'); ffi_await!(async move { let (a, b) = ::futures::future::join(async { suspend().await; alog(b'1'); n }, async { suspend().await; alog(b'2'); 1 }).await; a + b }) }
#[ffi_export(executor = ex_park)] async fn a_value(n: u32) -> u32 { alog(b'P'); ffi_await!(::futures::future::ready({ alog(b'E'); n })) }
#[ffi_export(executor = ex_park)] async fn a_boxed(n: u32) -> u32 { alog(b'P'); let f: Pin<Box<dyn Future<Output = u32>>> = Box::pin(async move { suspend().await; n }); ffi_await!(f) }
#[ffi_export(executor = ex_park, rename = "a_renamed")] async fn a_inner_name(n: u32) -> u32 { alog(b'P'); ffi_await!(async move { suspend().await; n }) }
#[ffi_export(rename = "a_renamed_2", executor = ex_park)] async fn a_inner_name_2(n: u32) -> u32 { alog(b'P'); ffi_await! { async move { suspend().await; n } } }
pub mod deep { use super::*; #[ffi_export(executor = crate::inner::executors::ex_park)] pub async fn a_deep(n: u32) -> u32 { use ::futures::FutureExt; alog(b'P'); ffi_await!(async move { suspend().await; n }.map(|n| n + 1)) } }
