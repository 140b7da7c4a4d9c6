// Shared by every generated program: probes of types, a recorder of what exported functions saw, header generation.
use ::core::mem::{self, MaybeUninit};

#[repr(C)]
pub struct Rec { pub entered: u32, pub left: u32, pub n: u32, pub ret_len: u32, pub len: [u32; 64], pub fid: u32, pub arg_ids: [u32; 64], pub used: u32, pub ret: [u8; 16384], pub bytes: [u8; 131072], pub panic: u32, pub flags: [u32; 7] }
static mut REC: *mut Rec = 0 as *mut Rec;
#[no_mangle] pub unsafe extern "C" fn vf_set_rec(r: *mut Rec) -> usize { REC = r; mem::size_of::<Rec>() }
unsafe fn rec() -> &'static mut Rec { &mut *REC }
fn enter(k: u32) { unsafe { let r = rec(); r.entered += 1; r.fid = k; } }
fn leave(k: u32) { unsafe {
    match rec().panic { 1 => panic!("VFMSG {}", k), 2 => ::std::panic::panic_any(k), 3 => { let v: Vec<u32> = Vec::new(); let _ = v[k as usize]; } _ => {} } let r = rec(); if r.fid == k { r.left += 1; } } }
fn note<T>(k: u32, i: u32, v: &T) { unsafe {
    let r = rec();
    let n = mem::size_of::<T>();
    let at = r.used as usize;
    assert!(at + n <= r.bytes.len(), "the arguments do not fit into the record");
    ::core::ptr::copy_nonoverlapping(v as *const T as *const MaybeUninit<u8>, r.bytes.as_mut_ptr().add(at) as *mut MaybeUninit<u8>, n);
    r.len[r.n as usize] = n as u32;
    r.arg_ids[r.n as usize] = i;
    r.n += 1;
    r.used += n as u32;
} }
struct PanicsLater(u32);
impl Drop for PanicsLater { fn drop(&mut self) { unsafe { if rec().panic == self.0 { panic!("VFMSG destructor") } } } }
fn take_ret<T>() -> T { unsafe {
    let r = rec();
    assert_eq!(r.ret_len as usize, mem::size_of::<T>());
    ::core::ptr::read_unaligned(r.ret.as_ptr() as *const T)
} }

macro_rules! field_off { ($T:ty, $f:tt) => {{ let u = MaybeUninit::<$T>::uninit(); let b = u.as_ptr(); unsafe { ::core::ptr::addr_of!((*b).$f) as usize - b as usize } }} }
macro_rules! layout_off { ($T:ty, $f:tt) => {{ let u = MaybeUninit::<CLayoutOf<$T>>::uninit(); let b = u.as_ptr(); unsafe { ::core::ptr::addr_of!((*b).$f) as usize - b as usize } }} }

// op 0: facts; 1: is_valid of n patterns; 2: from_raw + into_raw of n patterns (out: flag byte, the C bytes, the Rust value's own bytes); 3: from_raw_unchecked of one pattern
#[inline(never)]
unsafe fn probe<T: ReprC>(op: u32, n: usize, inp: *const u8, outp: *mut u8) -> i64 {
    let sz = mem::size_of::<CLayoutOf<T>>();
    let get = |i: usize| -> CLayoutOf<T> { ::core::ptr::read_unaligned(inp.add(i * sz) as *const CLayoutOf<T>) };
    match op {
        0 => {
            let o = outp as *mut u64;
            *o = mem::size_of::<T>() as u64;
            *o.add(1) = mem::align_of::<T>() as u64;
            *o.add(2) = sz as u64;
            *o.add(3) = mem::align_of::<CLayoutOf<T>>() as u64;
            *o.add(4) = mem::size_of::<Option<T>>() as u64;
            0
        }
        1 => {
            for i in 0..n {
                let c = get(i);
                *outp.add(i) = match ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(|| T::is_valid(&c))) { Ok(b) => b as u8, Err(_) => 0xEE };
            }
            n as i64
        }
        2 => {
            for i in 0..n {
                let c = get(i);
                let o = outp.add(i * (2 * sz + 1));
                *o = 0;
                match ::safer_ffi::layout::from_raw::<T>(c) {
                    None => {}
                    Some(v) => {
                        let v = mem::ManuallyDrop::new(v);
                        *o = 1;
                        let raw: CLayoutOf<T> = ::safer_ffi::layout::into_raw::<T>(::core::ptr::read(&*v));
                        ::core::ptr::copy_nonoverlapping(&raw as *const _ as *const MaybeUninit<u8>, o.add(1) as *mut MaybeUninit<u8>, sz);
                        // the Rust value's own bytes, for the comparison with its C representation
                        ::core::ptr::copy_nonoverlapping(&*v as *const T as *const MaybeUninit<u8>, o.add(1 + sz) as *mut MaybeUninit<u8>, sz.min(mem::size_of::<T>()));
                    }
                }
            }
            n as i64
        }
        3 => {
            let c = get(0);
            match ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(|| mem::ManuallyDrop::new(::safer_ffi::layout::from_raw_unchecked::<T>(c)))) {
                Ok(v) => { ::core::ptr::copy_nonoverlapping(&*v as *const T as *const MaybeUninit<u8>, outp as *mut MaybeUninit<u8>, sz.min(mem::size_of::<T>())); 1 }
                Err(_) => 0,
            }
        }
        _ => -2,
    }
}

// Header generation: lang 0 C, 1 C#, 2 Python; +256 in no stable order, +512 with a guard, a banner and a text of its own, +1024 with every naming convention there is a name for. Returns the length written to `out` (at most cap), or minus one on error.
#[no_mangle] pub unsafe extern "C" fn vf_headers(lang: u32, out: *mut u8, cap: usize) -> i64 {
    let r = ::std::panic::catch_unwind(|| {
        let mut v: Vec<u8> = Vec::new();
        let mut b = ::safer_ffi::headers::builder().with_language(vf_lang(lang & 255));
        if lang & 256 != 0 { b = b.with_stable_header(false); }
        if lang & 512 != 0 { b = b.with_guard("VF_GUARD_H").with_banner("/* vf banner: é */").with_text_after_guard("\n#define VF_AFTER_GUARD 1\n"); }
        if lang & 1024 != 0 { b = b.with_naming_convention(::safer_ffi::headers::NamingConvention::Prefix("vf_prefix_".into())); }
        let r = b.to_writer(&mut v).generate();
        (r, v)
    });
    match r {
        Ok((Ok(()), v)) => { if v.len() <= cap { ::core::ptr::copy_nonoverlapping(v.as_ptr(), out, v.len()); } v.len() as i64 }
        Ok((Err(e), _)) => { let s = format!("{:?}: {}", e.kind(), e); let n = s.len().min(cap); ::core::ptr::copy_nonoverlapping(s.as_ptr(), out, n); -1000 - n as i64 }
        Err(_) => -2,
    }
}
// The declarations of each export by itself: whatever it needs is defined anew, after a marker with its name.
struct Solo { names: Vec<String>, seen: ::std::collections::HashSet<String>, all: ::std::collections::HashSet<String>, out: Vec<u8> }
impl ::safer_ffi::headers::Definer for Solo {
    fn insert(&mut self, name: &'_ str) -> bool {
        if self.all.insert(String::new()) { self.out.extend_from_slice(b"\n\x01prelude\x01\n"); }
        if self.names.iter().any(|n| n == name) {
            if !self.all.insert(name.to_owned()) { return false; }
            self.seen.clear();
            self.out.extend_from_slice(format!("\n\u{1}{}\u{1}\n", name).as_bytes());
            return true;
        }
        self.seen.insert(name.to_owned())
    }
    fn out(&mut self) -> &'_ mut dyn ::std::io::Write { &mut self.out }
}
#[no_mangle] pub unsafe extern "C" fn vf_solo(lang: u32, names: *const u8, names_len: usize, out: *mut u8, cap: usize) -> i64 {
    let r = ::std::panic::catch_unwind(|| {
        let names = ::std::str::from_utf8(::std::slice::from_raw_parts(names, names_len)).unwrap().split(',').map(String::from).collect();
        let mut d = Solo { names, seen: Default::default(), all: Default::default(), out: Vec::new() };
        let r = ::safer_ffi::headers::builder().with_language(vf_lang(lang & 255)).with_stable_header(lang & 256 == 0).generate_with_definer(&mut d);
        (r, d.out)
    });
    match r {
        Ok((Ok(()), v)) => { if v.len() <= cap { ::core::ptr::copy_nonoverlapping(v.as_ptr(), out, v.len()); } v.len() as i64 }
        Ok((Err(e), _)) => { let s = format!("{:?}: {}", e.kind(), e); let n = s.len().min(cap); ::core::ptr::copy_nonoverlapping(s.as_ptr(), out, n); -1000 - n as i64 }
        Err(_) => -2,
    }
}
fn vf_lang(l: u32) -> ::safer_ffi::headers::Language {
    use ::safer_ffi::headers::Language::*;
    match l {
        0 => C,
        1 => CSharp,
        #[cfg(not(feature = "lean"))]
        _ => Python,
        #[cfg(feature = "lean")]
        _ => panic!(),
    }
}
#[no_mangle] pub unsafe extern "C" fn vf_hook_panics() { ::std::panic::set_hook(Box::new(|_| ())); }
// A hook that says what happened without the (slow) symbolised backtrace.
#[no_mangle] pub unsafe extern "C" fn vf_hook_say() { ::std::panic::set_hook(Box::new(|i| { use ::std::io::Write; let _ = writeln!(::std::io::stderr(), "{}", i); })); }
