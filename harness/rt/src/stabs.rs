//! C11 (and C12): the owners, fat pointers and wrappers of stabby as FFI-safe types: which bit patterns are values of theirs,
//! and that real ones go to C and back with the same bits.
use crate::ledger::{self, tracked};
use crate::prng::Rng;
use crate::report::{self, ev, seen_parts};
use crate::Opts;
use safer_ffi::layout::{from_raw, into_raw, CLayoutOf, ReprC};
use stabby::boxed::{Box as SBox, BoxedSlice, BoxedStr};
use stabby::sync::{Arc as SArc, ArcSlice, ArcStr, Weak, WeakSlice, WeakStr};
use std::mem::{align_of, size_of, transmute_copy};

macro_rules! ck { ($c:expr, $($t:tt)*) => { if !$c { report::violation(&format!($($t)*)) } } }

/// Is `words` (the bytes of a `T`, as pointers) a value of `T`? Optional ones, by their niche.
fn judge<T: ReprC>(name: u64, what: &str, words: &[usize], want: bool) {
    let n = size_of::<CLayoutOf<T>>();
    ck!(n == size_of::<T>() && align_of::<CLayoutOf<T>>() == align_of::<T>(), "{what} has {} bytes (alignment {}), its C layout {n} ({})", size_of::<T>(), align_of::<T>(), align_of::<CLayoutOf<T>>());
    ck!(n <= words.len() * 8, "{what} has {n} bytes, expected {}", words.len() * 8);
    let c: CLayoutOf<T> = unsafe { std::ptr::read_unaligned(words.as_ptr().cast()) };
    let got = <T as ReprC>::is_valid(&c);
    ck!(got == want, "is_valid of {what} {} {words:x?}", if got { "accepted the illegal pattern" } else { "refused the legal pattern" });
    ev(if got { "is_valid_accept" } else { "is_valid_refuse" });
    let r: Option<T> = unsafe { from_raw(c) };
    ck!(r.is_some() == want, "from_raw of {what} {} {words:x?}", if want { "refused" } else { "accepted" });
    ev(if want { "from_raw_some" } else { "from_raw_none" });
    if let Some(r) = r {
        let same = unsafe { std::slice::from_raw_parts(&r as *const T as *const u8, n) == std::slice::from_raw_parts(words.as_ptr() as *const u8, n) };
        std::mem::forget(r);
        ck!(same, "{what} has other bits than the pattern {words:x?} it was made of");
    }
    seen_parts(&[name, want as u64, (words[0] & 7) as u64, (words.get(1).map_or(0, |w| *w & 7)) as u64, words.iter().filter(|w| **w == 0).count() as u64]);
}

fn ptr(r: &mut Rng, align: usize) -> (usize, bool, bool) {
    // (address, null?, aligned?)
    match r.below(5) {
        0 => (0, true, true),
        1 => (align, false, true),
        2 => { let x = (r.next() as usize >> 17).max(64) / align * align; (x.max(align), false, true) }
        3 => { let x = (r.next() as usize >> 17).max(64); (x, false, x % align == 0) }
        _ => { let x = 4096 + r.below(align.max(2)); (x, false, x % align == 0) }
    }
}

macro_rules! trip { ($name:expr, $x:expr, $ty:ty) => { {
    let x: $ty = $x;
    const N: usize = size_of::<$ty>() / 8;
    let w: [usize; N] = unsafe { transmute_copy(&x) };
    let c = unsafe { into_raw(x) };
    let v: [usize; N] = unsafe { transmute_copy(&c) };
    ck!(v == w, "the C representation of {} is {v:x?}, the value {w:x?}", $name);
    let back: Option<$ty> = unsafe { from_raw(c) };
    let Some(back) = back else { report::violation(&format!("from_raw refused a real {}", $name)) };
    let u: [usize; N] = unsafe { transmute_copy(&back) };
    ck!(u == w, "{} came back as {u:x?} instead of {w:x?}", $name);
    ev("round_trip");
    back
} } }

trait One { fn of(r: &mut Rng) -> Self; }
macro_rules! one { ($($t:ty),*) => { $(impl One for $t { fn of(r: &mut Rng) -> Self { r.next() as $t } })* } }
one!(u8, u16, u32, u64, i32);

macro_rules! thin { ($r:ident, $n:expr, $t:ty, $($o:ident),*) => { $({
    let (p, null, aligned) = ptr($r, align_of::<$t>());
    judge::<$o<$t>>($n, stringify!($o<$t>), &[p], !null && aligned);
    judge::<Option<$o<$t>>>($n + 1, stringify!(Option<$o<$t>>), &[p], null || aligned);
})* } }
macro_rules! fat { ($r:ident, $n:expr, $t:ty, $($o:ty),*) => { $({
    let (p, pn, pa) = ptr($r, align_of::<$t>());
    let (mut q, mut qn, mut qa) = ptr($r, align_of::<$t>());
    // (an end before the start is nobody's pattern: not asked about)
    if !qn && !pn && q < p { q = p + ($r.below(9)) * size_of::<$t>(); qn = false; qa = q % align_of::<$t>() == 0 }
    judge::<$o>($n, stringify!($o), &[p, q], !pn && !qn && pa && qa);
})* } }

fn wrapped(r: &mut Rng) {
    use safer_ffi::stabby::Stabbied;
    let w = r.next() as usize;
    judge::<Stabbied<u8>>(40, "Stabbied<u8>", &[w & 255], true);
    judge::<Stabbied<u32>>(41, "Stabbied<u32>", &[w & 0xffff_ffff], true);
    let b = *r.pick(&[0usize, 1, 2, 3, 128, 255]);
    judge::<Stabbied<bool>>(42, "Stabbied<bool>", &[b], b < 2);
    judge::<stabby::abi::StableLike<bool, u8>>(43, "StableLike<bool, u8>", &[b], b < 2);
    let f = ptr(r, 1).0;
    judge::<stabby::abi::vtable::VtDrop>(44, "VtDrop", &[f], f != 0);
    judge::<stabby::abi::vtable::VtSend<stabby::abi::vtable::VtSync<stabby::abi::vtable::VtDrop>>>(45, "VtSend<VtSync<VtDrop>>", &[f], f != 0);
    let (d, dn, da) = ptr(r, 8);
    let (v, vn, va) = ptr(r, 8);
    type V = stabby::abi::vtable::VtDrop;
    judge::<stabby::abi::DynRef<'static, V>>(46, "DynRef<VtDrop>", &[d, v], !dn && !vn && va);
    judge::<stabby::abi::Dyn<'static, SBox<u64>, V>>(47, "Dyn<Box<u64>, VtDrop>", &[d, v], !dn && da && !vn && va);
    type W = stabby::abi::vtable::VTable<V, V>;
    let g = ptr(r, 1).0;
    judge::<W>(48, "VTable<VtDrop, VtDrop>", &[f, g], f != 0 && g != 0);
}

macro_rules! suite { ($($m:ident: $T:ty),*) => { $(mod $m {
use super::*;
type T = $T;
pub fn patterns(r: &mut Rng, n: u64) {
    thin!(r, n, T, SBox, SArc, Weak);
    fat!(r, n + 2, T, BoxedSlice<T>, ArcSlice<T>, WeakSlice<T>);
    fat!(r, n + 3, u8, BoxedStr, ArcStr, WeakStr);
}

pub fn real(r: &mut Rng, n: u64) {
    let x = T::of(r);
    let b = tracked(|| SBox::new(x));
    let b = trip!("a Box", b, SBox<T>);
    ck!(*b == x, "a Box holds {:?} instead of {x:?}", *b);
    let b = trip!("an optional Box", Some(b), Option<SBox<T>>).unwrap();
    tracked(|| drop(b));
    let none = trip!("no Box", None, Option<SBox<T>>);
    ck!(none.is_none() && unsafe { transmute_copy::<_, usize>(&none) } == 0, "the absent Box is not null");
    let a = tracked(|| SArc::new(x));
    let k = a.clone();
    let weak = trip!("a Weak", SArc::downgrade(&a), Weak<T>);
    let a = trip!("an Arc", a, SArc<T>);
    ck!(*a == x && &*a as *const T == &*k as *const T, "an Arc came back as another");
    drop(k);
    ck!(weak.upgrade().map_or(false, |y| *y == x), "a Weak came back without its Arc");
    tracked(|| drop(a));
    ck!(weak.upgrade().is_none(), "a Weak outlived its Arc");
    tracked(|| drop(weak));
    let m = r.below(6);
    let items: Vec<T> = (0..m).map(|_| T::of(r)).collect();
    let s: ArcSlice<T> = tracked(|| { let mut v = stabby::vec::Vec::new(); for i in &items { v.push(*i) } v.into() });
    let s = trip!("an ArcSlice", s, ArcSlice<T>);
    ck!(s[..] == items[..], "an ArcSlice shows {:?} instead of {items:?}", &s[..]);
    tracked(|| drop(s));
    let s: BoxedSlice<T> = tracked(|| { let mut v = stabby::vec::Vec::new(); for i in &items { v.push(*i) } v.into() });
    let s = trip!("a BoxedSlice", s, BoxedSlice<T>);
    ck!(s[..] == items[..], "a BoxedSlice shows {:?} instead of {items:?}", &s[..]);
    tracked(|| drop(s));
    if let Some(e) = ledger::error() { report::violation(&format!("allocator ledger: {e}")) }
    seen_parts(&[n, 9, m as u64]);
}

})* } }
suite!(t_u8: u8, t_u16: u16, t_u32: u32, t_u64: u64, t_i32: i32);

pub fn run(o: &Opts) {
    o.histories(9, |mut r, i| {
        let r = &mut r;
        let before = ledger::live();
        match i % 6 {
            0 => { t_u8::patterns(r, 0); t_u8::real(r, 50) }
            1 => { t_u16::patterns(r, 10); t_u16::real(r, 51) }
            2 => { t_u32::patterns(r, 20); t_u32::real(r, 52) }
            3 => { t_u64::patterns(r, 30); t_u64::real(r, 53) }
            4 => { t_i32::patterns(r, 60); t_i32::real(r, 54) }
            _ => wrapped(r),
        }
        if ledger::ON && ledger::live() != before { report::violation(&format!("{} blocks leaked", ledger::live() - before)) }
        ev("stabby_history");
    });
}
