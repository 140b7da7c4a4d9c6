//! C07: C strings against the text they represent.
use crate::ledger::{self, tracked};
use crate::prng::Rng;
use crate::report::{self, ev, seen_parts};
use crate::Opts;
use safer_ffi::prelude::*;
use std::convert::TryFrom;
use std::ffi::{CStr, CString};
use std::panic::{catch_unwind, AssertUnwindSafe};

extern "C" { fn strlen(p: *const i8) -> usize; }
macro_rules! ck { ($c:expr, $($t:tt)*) => { if !$c { report::violation(&format!($($t)*)) } } }
fn ptr<T>(t: &T) -> usize { assert_eq!(std::mem::size_of::<T>(), 8); unsafe { std::mem::transmute_copy(t) } }

/// everything readable from a C string, against the text `want` (no NUL)
fn reads(what: &str, p: char_p::Ref<'_>, want: &str) {
    let a: *const u8 = unsafe { std::mem::transmute_copy(&p) };
    ck!(!a.is_null(), "{what}: the C string of {want:?} is null");
    unsafe {
        ck!(strlen(a as *const i8) == want.len(), "{what}: C sees a string of length {} for {want:?}", strlen(a as *const i8));
        let seen = std::slice::from_raw_parts(a, want.len() + 1);
        ck!(&seen[..want.len()] == want.as_bytes() && seen[want.len()] == 0, "{what}: C sees {seen:?} for {want:?}");
    }
    ck!(p.to_str() == want, "{what}: to_str gives {:?} for {want:?}", p.to_str());
    ck!(p.to_bytes() == want.as_bytes(), "{what}: to_bytes gives {:?} for {want:?}", p.to_bytes());
    ck!(p.bytes().map(|b| b.get()).eq(want.bytes()), "{what}: bytes() differs for {want:?}");
    ck!(p.to_nonzero_bytes().iter().map(|b| b.get()).eq(want.bytes()), "{what}: to_nonzero_bytes differs for {want:?}");
    let wn = format!("{want}\0");
    ck!(p.to_bytes_with_null() == wn.as_bytes(), "{what}: to_bytes_with_null gives {:?} for {want:?}", p.to_bytes_with_null());
    ck!(p.to_str_with_null() == wn, "{what}: to_str_with_null gives {:?} for {want:?}", p.to_str_with_null());
    ck!(p.to_string() == want, "{what}: to_string differs for {want:?}");
    ck!(format!("{p:?}|{p}|{p:>9}|{p:.2}") == format!("{want:?}|{want}|{want:>9}|{want:.2}"), "{what}: formatted as {p:?} / {p} for {want:?}");
    let q = p;
    ck!(q == p && ptr(&q) == a as usize, "{what}: a copy of the reference differs for {want:?}");
    ev("read");
}

fn representable(s: &str) -> Option<&str> {
    let t = s.strip_suffix('\0').unwrap_or(s);
    if t.contains('\0') { None } else { Some(t) }
}

fn boxed(r: &mut Rng, b: char_p::Box, want: &str) {
    reads("boxed", b.as_ref(), want);
    ck!(b.to_str() == want && b.to_bytes() == want.as_bytes() && b.to_str_with_null().len() == want.len() + 1 && b.bytes().count() == want.len() && b.to_nonzero_bytes().len() == want.len() && b.to_bytes_with_null().len() == want.len() + 1, "boxed: accessors differ for {want:?}");
    ck!(format!("{b:?}|{b}") == format!("{want:?}|{want}"), "boxed: formatted as {b:?} for {want:?}");
    let c = tracked(|| b.clone());
    reads("clone", c.as_ref(), want);
    ck!(c == b && !(c != b), "a clone of {want:?} is not equal to it");
    ck!(want.is_empty() || ptr(&c) != ptr(&b), "a clone of {want:?} shares its buffer");
    let d = tracked(|| b.as_ref().to_owned());
    reads("to_owned", d.as_ref(), want);
    let raw: char_p::Raw = b.as_ref().into();
    ck!(ptr(&raw) == ptr(&b), "the raw C string of {want:?} points elsewhere");
    reads("raw", unsafe { raw.as_ref() }, want);
    match r.below(4) {
        0 => { let v = tracked(|| d.into_vec()); ck!(v == want.as_bytes(), "into_vec gives {v:?} for {want:?}"); tracked(|| drop(v)) }
        1 => { let v = tracked(|| d.into_string()); ck!(v == want, "into_string gives {v:?} for {want:?}"); tracked(|| drop(v)) }
        2 => unsafe {
            // over to C and back
            let c = safer_ffi::layout::into_raw(d);
            let w: *const i8 = std::mem::transmute_copy(&c);
            ck!(strlen(w) == want.len(), "C sees another length for {want:?}");
            let d: char_p::Box = safer_ffi::layout::from_raw_unchecked(c);
            ck!(d.to_str() == want, "through C: {d:?} for {want:?}");
            tracked(|| drop(d));
        },
        _ => tracked(|| drop(d)),
    }
    if r.chance(1, 2) { tracked(|| { drop(c); drop(b) }) } else { tracked(|| drop(b)); reads("clone outliving its source", c.as_ref(), want); tracked(|| drop(c)) }
}

fn one(r: &mut Rng, s: &str) {
    let before = ledger::live();
    let want = representable(s);
    // borrowed: the terminator must be there (or the text empty)
    let br = char_p::Ref::<'_>::try_from(s);
    let ok = s.is_empty() || (want.is_some() && s.ends_with('\0'));
    ck!(br.is_ok() == ok, "char_p::Ref::try_from({s:?}) is {br:?}");
    if let Ok(p) = br { reads("borrowed", p, want.unwrap()); ck!(s.is_empty() || ptr(&p) == s.as_ptr() as usize, "the borrowed C string of {s:?} points elsewhere"); let o = tracked(|| p.to_owned()); boxed(r, o, want.unwrap()); ev("accepted") } else { ev("refused") }
    // owned, with the library's error type
    let cap = r.below(4);
    let owned = tracked(|| { let mut t = String::with_capacity(s.len() + cap); t.push_str(s); t });
    let (op, oc) = (owned.as_ptr(), owned.capacity());
    match tracked(|| char_p::Box::try_from(owned)) {
        Ok(b) => { ck!(want.is_some(), "char_p::Box::try_from({s:?}) succeeded: {b:?}"); boxed(r, b, want.unwrap()); ev("accepted") }
        Err(safer_ffi::char_p::InvalidNulTerminator(back)) => { ck!(want.is_none(), "char_p::Box::try_from({s:?}) was refused"); ck!(back == s && back.as_ptr() == op && back.capacity() == oc, "the refused string came back as {back:?} instead of {s:?}"); tracked(|| drop(back)); ev("refused") }
    }
    // the panicking constructors
    for k in 0..4 {
        let res = catch_unwind(AssertUnwindSafe(|| tracked(|| match k { 0 => char_p::new(s), 1 => char_p::new(String::from(s)), 2 => char_p::new(str::Ref::from(s)), _ => char_p::new(repr_c::String::from(s)) })));
        match res {
            Ok(b) => { ck!(want.is_some(), "char_p::new({s:?}) succeeded: {b:?}"); boxed(r, b, want.unwrap()) }
            Err(p) => { ck!(want.is_none(), "char_p::new({s:?}) panicked"); tracked(|| drop(p)) }
        }
    }
    // from std's C strings
    if let Ok(c) = CString::new(s) {
        let b: char_p::Box = tracked(|| c.clone().into());
        boxed(r, b, s);
        let f: char_p::Ref<'_> = (&*c as &CStr).into();
        ck!(ptr(&f) == c.as_ptr() as usize, "the C string borrowed from a CStr points elsewhere");
        reads("CStr", f, s);
        let b = tracked(|| char_p::new(&*c)); boxed(r, b, s);
        let b = tracked(|| char_p::new(c.clone())); boxed(r, b, s);
    }
    if let Some(e) = ledger::error() { report::violation(&format!("C string of {s:?}: allocator ledger: {e}")) }
    if ledger::ON && ledger::live() != before { report::violation(&format!("C strings made from {s:?}: {} blocks leaked", ledger::live() - before)) }
    let nul = s.bytes().enumerate().fold(0u64, |a, (i, b)| if b == 0 { a | 1 << i.min(60) } else { a });
    seen_parts(&[s.len() as u64, nul, s.is_ascii() as u64, want.is_some() as u64]);
}

/// not valid UTF-8: only the conversions from CStr/CString can meet it, and must refuse
fn not_utf8(r: &mut Rng) {
    let before = ledger::live();
    let n = if r.big() { r.big_len() / 4 } else { r.range(1, 6) };
    let v: Vec<u8> = r.bytes(n).into_iter().map(|b| if b == 0 { 0xff } else { b }).collect();
    let c = CString::new(v.clone()).unwrap();
    let text = std::str::from_utf8(&v).ok();
    let a = catch_unwind(AssertUnwindSafe(|| char_p::Ref::<'_>::from(&*c as &CStr).to_str().len()));
    ck!(a.is_ok() == text.is_some(), "char_p::Ref::from(CStr {v:?}): {}", if a.is_ok() { "accepted" } else { "refused" });
    drop(a);
    let b = catch_unwind(AssertUnwindSafe(|| { let c = tracked(|| c.clone()); tracked(|| char_p::Box::from(c)) }));
    match b {
        Ok(b) => { ck!(text.is_some(), "char_p::Box::from(CString {v:?}) was accepted"); boxed(r, b, text.unwrap()) }
        Err(p) => { ck!(text.is_none(), "char_p::Box::from(CString {v:?}) was refused"); tracked(|| drop(p)); ev("refused_not_utf8") }
    }
    if ledger::ON && ledger::live() != before { report::violation(&format!("C strings made from the bytes {v:?}: {} blocks leaked", ledger::live() - before)) }
}

fn pairs(r: &mut Rng) {
    let (n, k) = (r.below(4), r.below(4));
    let x: String = (0..n).map(|_| *r.pick(&['a', 'b', 'é'])).collect();
    let y: String = if r.chance(1, 3) { x.clone() } else { (0..k).map(|_| *r.pick(&['a', 'b', 'é'])).collect() };
    let (a, b) = (char_p::new(&x[..]), char_p::new(&y[..]));
    ck!((a == b) == (x == y) && (a != b) == (x != y) && (a.as_ref() == b.as_ref()) == (x == y), "equality of the C strings {x:?} and {y:?}");
    ev("compare");
}

fn literals() {
    reads("c!", c!("hello"), "hello");
    reads("c!", c!("hello\0"), "hello");
    reads("c!", c!(""), "");
    reads("c!", c!("\0"), "");
    reads("c!", c!(), "");
    reads("c!", c!("é€🦀\u{1}\"\\"), "é€🦀\u{1}\"\\");
    reads("c!", c!("a\nb\t\r"), "a\nb\t\r");
    reads("c!", c!(r"raw\0not a nul"), "raw\\0not a nul");
    reads("c!", c!("x"), "x");
    reads("EMPTY", char_p::Ref::EMPTY, "");
    for _ in 0..10 { ev("literal") }
}

pub fn run(o: &Opts) {
    std::panic::set_hook(Box::new(|_| {}));
    literals();
    let alpha = ['a', '\0', 'é', 'z', '\u{7f}'];
    let mut small: Vec<String> = vec![String::new()];
    let (mut lo, depth) = (0, if cfg!(miri) { 3 } else { 5 });
    for _ in 0..depth { let hi = small.len(); for i in lo..hi { for c in alpha { let mut s = small[i].clone(); s.push(c); small.push(s) } } lo = hi; }
    o.histories(7, |mut r, i| {
        let r = &mut r;
        if (i as usize) < small.len() { one(r, &small[i as usize]); ev("exhaustive_small") }
        else {
            let n = if r.big() { r.big_len() / 2 } else { match r.below(4) { 0 => r.range(0, 4), 1 => r.range(5, 20), 2 => r.range(20, 70), _ => r.range(0, 300) } };
            let mut s = r.string(n);
            let m = s.chars().count();
            match r.below(5) {
                0 => {}
                1 => s.push('\0'),
                2 => { let k = r.below(m + 1); let at = s.char_indices().nth(k).map_or(s.len(), |x| x.0); s.insert(at, '\0') }
                3 => { s.push('\0'); let k = r.below(m + 1); let at = s.char_indices().nth(k).map_or(s.len(), |x| x.0); s.insert(at, '\0') }
                _ => s.push_str("\0\0"),
            }
            one(r, &s);
            if r.chance(1, 4) { not_utf8(r) }
            pairs(r);
            if !cfg!(miri) { report::sample(|| format!("{s:?}")) }
        }
        ev("history");
    });
}
