#![allow(warnings)]
// Exported functions that panic in every way there is, and some that do not. Driven by panics.c, in sacrificial processes.
use ::safer_ffi::prelude::*;
use ::safer_ffi::prelude::Out;
use ::safer_ffi::closure::*;
use ::safer_ffi::layout::{ReprC, CLayoutOf};
use ::std::panic::{self, AssertUnwindSafe};
include!(concat!(env!("CARGO_MANIFEST_DIR"), "/support.rs"));

pub struct Boom(&'static str);
impl Drop for Boom { fn drop(&mut self) { panic!("{}", self.0) } }
pub struct Quiet(bool);
#[derive_ReprC] #[repr(opaque)] pub struct Bomb(Boom);
#[derive_ReprC] #[repr(C)] #[derive(Clone, Copy)] pub struct Big { a: u64, b: f64, c: [u32; 20] }
#[derive_ReprC] #[repr(C)] pub struct Owning { a: repr_c::Box<Bomb>, n: u32 }
#[ffi_export] fn bomb() -> repr_c::Box<Bomb> { Box::new(Bomb(Boom("VFMSG destructor"))).into() }
#[ffi_export] fn owning() -> Owning { Owning { a: bomb(), n: 1 } }
fn p(s: &str) { if ::std::hint::black_box(true) { panic!("VFMSG {}", s) } }

// ---- panicking, one per export
#[ffi_export] fn p_str() { panic!("VFMSG str") }
#[ffi_export] fn p_string(n: u32) -> u32 { panic!("VFMSG string {}", n) }
#[ffi_export] fn p_any(n: u32) -> u64 { panic::panic_any(Box::new(n)) }
#[ffi_export] fn p_resume() -> u8 { panic::resume_unwind(Box::new("VFMSG")) }
#[ffi_export] fn p_unwrap(n: i32) -> i32 { None::<i32>.expect("VFMSG unwrap") }
#[ffi_export] fn p_result() -> f64 { Err::<f64, _>("VFMSG result").unwrap() }
#[ffi_export] fn p_index(i: usize) -> u8 { [1u8, 2, 3][i + ::std::hint::black_box(3)] }
#[ffi_export] fn p_div(n: i32) -> i32 { n / ::std::hint::black_box(0) }
#[ffi_export] fn p_slice(s: c_slice::Ref<'_, u8>) -> u8 { s[s.len()] }
#[ffi_export] fn p_utf8(s: char_p::Ref<'_>) -> usize { let t = s.to_str(); t[..1].len() + t[t.len() + 1..].len() }
#[ffi_export] fn p_refcell() -> u32 { let c = ::core::cell::RefCell::new(1); let _a = c.borrow_mut(); let x = *c.borrow(); x }
#[ffi_export] fn p_assert(a: u32, b: u32) -> bool { assert_eq!(a, b.wrapping_add(a).wrapping_add(1), "VFMSG assert"); true }
#[ffi_export] fn p_unreachable() -> bool { unreachable!("VFMSG unreachable") }
#[ffi_export] fn p_todo() -> Option<repr_c::Box<u32>> { todo!("VFMSG todo") }
#[ffi_export] fn p_late(out: Out<'_, u32>) -> u32 { out.write(5); p("late"); 5 }
#[ffi_export] fn p_big(b: Big) -> Big { p("big"); b }
#[ffi_export] fn p_many(a: u8, b: f32, c: f64, d: u64, e: i8, f: Big, g: bool, h: u16, i: u64, j: u64) -> Big { p("many"); f }
#[ffi_export] fn p_vec(v: repr_c::Vec<u8>) -> repr_c::Vec<u8> { p("vec"); v }
#[ffi_export] fn p_alloc(n: usize) -> repr_c::Vec<u8> { let mut v: Vec<u8> = Vec::new(); v.reserve(usize::MAX / 2 + n); v.into() }
#[ffi_export] fn p_no_ret(a: &mut u32) { *a += 1; p("no_ret") }
#[ffi_export] fn p_never(n: u32) -> u32 { loop { if n < u32::MAX { p("never") } } }
#[ffi_export(rename = "p_renamed")] fn p_inner_name() { p("renamed") }
#[ffi_export] unsafe fn p_unsafe(x: *const u8) -> u8 { p("unsafe"); *x }
#[ffi_export] extern "C" fn p_extern(x: u8) -> u8 { p("extern"); x }
#[ffi_export] fn p_generic_lt<'a, 'b>(a: &'a u32, b: &'b u32) -> &'a u32 { p("lifetimes"); a }
// destructors: of a local, of an argument with a name, without one, inside an aggregate, of a temporary in the returned expression
#[ffi_export] fn p_drop_local() -> u32 { let _b = Boom("VFMSG local"); 3 }
#[ffi_export] fn p_drop_arg(b: repr_c::Box<Bomb>) -> u32 { 3 }
#[ffi_export] fn p_drop_underscore(_: repr_c::Box<Bomb>) -> u32 { 3 }
#[ffi_export] fn p_drop_underscore_first(_: repr_c::Box<Bomb>, n: u64) -> Big { Big { a: n, b: 0., c: [1; 20] } }
#[ffi_export] fn p_drop_option(b: Option<repr_c::Box<Bomb>>) { }
#[ffi_export] fn p_drop_field(o: Owning) -> u32 { o.n }
#[ffi_export] fn p_drop_vec(o: repr_c::Vec<Owning>) -> u32 { 0 }
#[ffi_export] fn p_drop_pattern(Owning { n, .. }: Owning) -> u32 { n }
#[ffi_export] fn p_drop_temporary() -> usize { ::std::hint::black_box(&Boom("VFMSG temporary")).0.len() }
#[ffi_export] fn p_drop_vec_new() -> repr_c::Vec<Owning> { vec![owning(), owning()].into() }
// through other frames
#[ffi_export] fn p_callback(f: extern "C" fn(u32) -> u32, n: u32) -> u32 { let r = f(n); p("callback"); r }
#[ffi_export] fn p_nested(f: extern "C" fn(u32) -> u32, n: u32) -> u32 { f(n) + 1 }
#[ffi_export] fn p_nested_caught(f: extern "C" fn(u32) -> u32, n: u32) -> u32 { panic::catch_unwind(|| f(n)).unwrap_or(77) }
#[ffi_export] fn p_thread_join() -> u32 { ::std::thread::spawn(|| -> u32 { p("thread_join"); 1 }).join().unwrap() }
#[ffi_export] fn p_export_from_rust() -> u32 { p_export_inner(1) + 1 }
#[ffi_export] fn p_export_inner(n: u32) -> u32 { p("export_from_rust"); n }
#[ffi_export] fn p_tls() -> u32 { thread_local!(static T: u32 = { p("tls"); 1 }); T.with(|t| *t) }
#[ffi_export] fn p_poison() -> u32 { let m = ::std::sync::Mutex::new(1); let _ = panic::catch_unwind(AssertUnwindSafe(|| { let _g = m.lock().unwrap(); p("poison") })); let x = *m.lock().unwrap(); x }
#[ffi_export] fn p_hook_custom() -> u32 { panic::set_hook(Box::new(|i| eprintln!("VFMSG hook saw {}", i))); p("hook_custom"); 1 }
#[ffi_export] fn p_hook_taken() -> u32 { let _ = panic::take_hook(); p("hook_taken"); 1 }
#[ffi_export] fn p_caught_then_again() -> u32 { let e = panic::catch_unwind(|| p("first")).unwrap_err(); eprintln!("VFMSG between"); panic::resume_unwind(e) }
#[ffi_export] fn p_recursive(n: u32) -> u32 { if n == 0 { p("recursive") } p_recursive_rust(n - 1) }
fn p_recursive_rust(n: u32) -> u32 { let _g = Quiet(true); if n == 0 { p("recursive"); 0 } else { 1 + p_recursive_rust(n - 1) } }
#[ffi_export] fn p_closure(mut f: BoxDynFnMut1<u32, u32>, n: u32) -> u32 { let r = f.call(n); p("closure"); r }
#[ffi_export] fn p_iter(n: usize) -> u32 { (0..n as u32 + 3).map(|i| { if i == 2 { p("iter") } i }).sum() }
#[ffi_export] fn p_sort() -> u32 { let mut v = vec![3, 1, 2, 5, 4]; v.sort_by(|_, _| -> ::core::cmp::Ordering { p("sort"); panic!() }); v[0] }
// arguments that are no values of their types: debug builds panic over them before the body runs
#[cfg(debug_assertions)] #[derive_ReprC] #[repr(u8)] #[derive(Debug, Clone, Copy)] pub enum Lamp { Off = 3, On = 9 }
#[cfg(debug_assertions)] #[derive_ReprC] #[repr(C)] pub struct Panel { pub n: u64, pub on: bool, pub lamp: Lamp, pub m: [u64; 3] }
#[cfg(debug_assertions)] #[ffi_export] fn i_enum(l: Lamp) -> u32 { eprintln!("the body ran"); l as u32 }
#[cfg(debug_assertions)] #[ffi_export] fn i_bool(b: bool) -> u32 { b as u32 }
#[cfg(debug_assertions)] #[ffi_export] fn i_ref(r: &u32) -> u32 { *r }
#[cfg(debug_assertions)] #[ffi_export] fn i_mut(r: &mut u32) { *r += 1 }
#[cfg(debug_assertions)] #[ffi_export] fn i_slice(s: c_slice::Ref<'_, u8>) -> u32 { s.len() as u32 }
#[cfg(debug_assertions)] #[ffi_export] fn i_struct(p: Panel) -> u32 { p.on as u32 + p.lamp as u32 }
#[cfg(debug_assertions)] #[ffi_export] fn i_struct_lamp(p: Panel) -> Panel { p }
#[cfg(debug_assertions)] #[ffi_export] fn i_last(a: u8, b: repr_c::Box<u32>, c: f64, l: Lamp) -> u32 { *b }
#[cfg(debug_assertions)] #[ffi_export] fn i_pattern(Panel { on, lamp, .. }: Panel, _: u8) -> u32 { on as u32 + lamp as u32 }
#[cfg(debug_assertions)] #[ffi_export] fn i_first(l: Lamp, b: repr_c::Box<u32>) -> u32 { *b }
#[cfg(debug_assertions)] #[ffi_export] fn i_closure(mut f: BoxDynFnMut1<u32, u32>) -> u32 { f.call(1) }
#[cfg(debug_assertions)] #[ffi_export] fn i_new() -> repr_c::Box<u32> { Box::new(4).into() }
#[cfg(debug_assertions)]
#[ffi_export] fn p_overflow(n: u8) -> u8 { n + ::std::hint::black_box(255) }

// ---- not panicking
#[ffi_export] fn ok_nothing() {}
#[ffi_export] fn ok_value(n: u32) -> u32 { n + 1 }
#[ffi_export] fn ok_big(b: Big) -> Big { b }
#[ffi_export] fn ok_caught(n: u32) -> u32 { panic::catch_unwind(|| { p("ok caught"); 1 }).unwrap_or(n) }
#[ffi_export] fn ok_caught_drop(n: u32) -> u32 { let _ = panic::catch_unwind(|| { let _b = Boom("VFMSG ok dropped"); }); n }
#[ffi_export] fn ok_thread(n: u32) -> u32 { match ::std::thread::spawn(|| -> u32 { p("ok thread"); 1 }).join() { Ok(_) => 0, Err(_) => n } }
#[ffi_export] fn ok_nested(f: extern "C" fn(u32) -> u32, n: u32) -> u32 { f(n) }
#[ffi_export] fn ok_option(n: u32) -> Option<repr_c::Box<u32>> { if n == 0 { None } else { Some(Box::new(n).into()) } }
#[ffi_export] fn ok_option_free(b: Option<repr_c::Box<u32>>) -> u32 { b.map_or(0, |b| *b) }
#[ffi_export] fn ok_forget_bomb(b: repr_c::Box<Bomb>) -> u32 { ::core::mem::forget(b); 1 }
#[ffi_export] fn ok_panicking() -> bool { ::std::thread::panicking() }
#[ffi_export] fn ok_drop_during_unwind(n: u32) -> u32 {
    // an export called by a destructor that runs because of a panic which is caught further out: it returns normally
    struct CallsExport; impl Drop for CallsExport { fn drop(&mut self) { assert_eq!(ok_value(41), 42) } }
    panic::catch_unwind(|| { let _c = CallsExport; p("ok unwinding"); 0 }).unwrap_or(n)
}
