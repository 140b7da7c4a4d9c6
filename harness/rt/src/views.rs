//! C06: borrowed (and raw) FFI views against the Rust slices and strings they were made from.
use crate::prng::Rng;
use crate::report::{self, ev, seen_parts};
use crate::Opts;
use safer_ffi::prelude::*;
use safer_ffi::slice::{slice_boxed, slice_mut, slice_raw, slice_ref};
use std::cmp::Ordering;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

/// records what is fed to it
#[derive(Default, PartialEq, Debug)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b); self.0.push(0xFE) }
}
fn rec<T: Hash + ?Sized>(t: &T) -> Rec { let mut r = Rec::default(); t.hash(&mut r); r }

pub trait El: Sized + Clone + PartialOrd + Debug + ReprC + 'static { const N: u64; fn gen(r: &mut Rng) -> Self; fn same(&self, o: &Self) -> bool; }
macro_rules! el { ($($t:ty, $n:expr, $r:ident => $e:expr;)*) => { $(impl El for $t { const N: u64 = $n; fn gen($r: &mut Rng) -> Self { $e } fn same(&self, o: &Self) -> bool { format!("{self:?}") == format!("{o:?}") } })* } }
#[derive_ReprC]
#[repr(C)]
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Pair { a: u8, b: u32 }
el! {
    u8, 1, r => r.below(3) as u8;
    i32, 2, r => r.below(5) as i32 - 2;
    u64, 3, r => r.next();
    f64, 4, r => *r.pick(&[0.0, -0.0, 1.5, f64::NAN, f64::INFINITY, -2.0]);
    Pair, 5, r => Pair { a: r.below(2) as u8, b: r.below(3) as u32 };
}
macro_rules! ck { ($c:expr, $($t:tt)*) => { if !$c { report::violation(&format!($($t)*)) } } }
fn same<T: El>(a: &[T], b: &[T]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y)) }

fn words<T, const N: usize>(t: &T) -> [usize; N] { assert_eq!(std::mem::size_of::<T>(), N * 8); unsafe { std::mem::transmute_copy(t) } }

fn one<T: El>(r: &mut Rng) -> (Vec<T>, usize, usize) {
    let n = if r.big() { r.big_len() / 8 } else { match r.below(6) { 0 => 0, 1 => 1, _ => r.range(2, 12) } };
    let v: Vec<T> = (0..n).map(|_| T::gen(r)).collect();
    let a = r.below(n + 1);
    let b = a + r.below(n - a + 1);
    (v, a, b)
}

fn read_all<T: El>(what: &str, got: &[T], len_field: usize, ptr_field: usize, want: &[T]) {
    ck!(got.len() == want.len() && len_field == want.len(), "{what}: length {} (field {len_field}) instead of {}", got.len(), want.len());
    ck!(got.as_ptr() == want.as_ptr() && ptr_field == want.as_ptr() as usize, "{what}: the view is at {:p} (field {ptr_field:#x}), the data at {:p}", got, want);
    ck!(same(got, want), "{what}: shows {got:?} instead of {want:?}");
}

fn shared<T: El>(r: &mut Rng) {
    let (v, a, b) = one::<T>(r);
    let s = &v[a..b];
    let f: slice_ref<'_, T> = s.into();
    let w: [usize; 2] = words(&f);
    read_all("slice_ref", f.as_slice(), w[1], w[0], s);
    read_all("slice_ref (deref)", &*f, w[1], w[0], s);
    let g = f; let h = f.clone();
    read_all("copied slice_ref", g.as_slice(), f.len(), f.as_ptr() as usize, s);
    read_all("cloned slice_ref", h.as_slice(), f.len(), f.as_ptr() as usize, s);
    ck!(f.iter().count() == s.len(), "iteration over a slice_ref yields another number of elements");
    for (x, y) in f.iter().zip(s) { ck!(x.same(y) && x as *const T == y as *const T, "iteration over a slice_ref yields {x:?} instead of {y:?}") }
    for k in 0..s.len() { ck!(f[k].same(&s[k]), "indexing a slice_ref at {k}") }
    ck!(f.get(s.len()).is_none(), "a slice_ref has an element past its end");
    ck!(format!("{f:?}|{f:#?}") == format!("{s:?}|{s:#?}"), "a slice_ref is formatted {f:?} instead of {s:?}");
    let raw: slice_raw<T> = f.into();
    ck!(raw.ptr.as_ptr() as *const T == s.as_ptr() && raw.len == s.len(), "slice_raw from slice_ref: {raw:?}");
    read_all("slice_raw", unsafe { raw.as_ref() }.as_slice(), raw.len, raw.ptr.as_ptr() as usize, s);
    report::sample(|| format!("{v:?}[{a}..{b}] at {:p}: the view has pointer {:#x}, length {} and reads {:?}", s.as_ptr(), w[0], w[1], f.as_slice()));
    let e: slice_ref<'_, T> = Default::default();
    ck!(e.len() == 0 && e.as_slice().is_empty() && !words::<_, 2>(&e)[0] != 0 && words::<_, 2>(&e)[0] != 0, "the default slice_ref is not an empty, non-null view");
    // through the C representation
    unsafe {
        let c = safer_ffi::layout::into_raw(f);
        let cw: [usize; 2] = words(&c);
        ck!(cw == w, "a slice_ref and its C representation differ: {w:x?} / {cw:x?}");
        let back: slice_ref<'_, T> = safer_ffi::layout::from_raw_unchecked(c);
        read_all("slice_ref through C", back.as_slice(), cw[1], cw[0], s);
        let o: Option<slice_ref<'_, T>> = safer_ffi::layout::from_raw_unchecked(c);
        match o { Some(x) => read_all("optional slice_ref through C", x.as_slice(), cw[1], cw[0], s), None => report::violation("a non-null optional slice_ref reads as absent") }
    }
    ev("shared_view");
    seen_parts(&[T::N, 1, a as u64, (b - a) as u64, v.len() as u64]);
}

fn exclusive<T: El>(r: &mut Rng) {
    let (mut v, a, b) = one::<T>(r);
    let mut m = v.clone();
    let p = v[a..b].as_ptr();
    let n = b - a;
    {
        let mut f: slice_mut<'_, T> = (&mut v[a..b]).into();
        let w: [usize; 2] = words(&f);
        ck!(w == [p as usize, n] && f.as_ref().as_ptr() == p && f.as_ref().len() == n, "slice_mut does not point at the data: {w:x?}");
        read_all("slice_mut", &*f, w[1], w[0], unsafe { std::slice::from_raw_parts(p, n) });
        ck!(same(&*f, &m[a..b]), "slice_mut shows other data");
        ck!(format!("{f:?}|{f:#?}") == format!("{:?}|{:#?}", &m[a..b], &m[a..b]), "a slice_mut is formatted {f:?}");
        for _ in 0..r.below(6) {
            if n == 0 { break }
            let k = r.below(n);
            let x = T::gen(r);
            m[a + k] = x.clone();
            match r.below(4) {
                0 => f[k] = x,
                1 => { let mut g = f.as_mut(); g[k] = x }
                2 => { let g = f.as_mut(); let s = g.as_slice(); s[k] = x }
                _ => *f.iter_mut().nth(k).unwrap() = x,
            }
            ck!(same(&*f, &m[a..b]), "after a write at {k} the view shows {:?} instead of {:?}", &*f, &m[a..b]);
        }
        match r.below(3) {
            0 => { let g: slice_ref<'_, T> = f.into(); ck!(g.as_ptr() == p && same(g.as_slice(), &m[a..b]), "slice_mut -> slice_ref shows {g:?}") }
            1 => {
                let mut raw: slice_raw<T> = f.into();
                ck!(raw.ptr.as_ptr() as *const T == p && raw.len == n, "slice_mut -> slice_raw: {raw:?}");
                ck!(same(unsafe { raw.as_ref() }.as_slice(), &m[a..b]), "slice_raw::as_ref shows other data");
                if n > 0 { let k = r.below(n); let x = T::gen(r); m[a + k] = x.clone(); let mut g = unsafe { raw.as_mut() }; g[k] = x }
            }
            _ => { let s = f.as_slice(); ck!(s.as_ptr() == p && same(s, &m[a..b]), "slice_mut::as_slice shows other data"); if n > 0 { let k = r.below(n); let x = T::gen(r); m[a + k] = x.clone(); s[k] = x } }
        }
    }
    ck!(same(&v, &m), "writes through a mutable view of {a}..{b} gave {v:?} instead of {m:?}");
    ev("exclusive_view");
    seen_parts(&[T::N, 2, a as u64, n as u64, v.len() as u64]);
}

fn owned<T: El>(r: &mut Rng) {
    let (v, _, _) = one::<T>(r);
    let m = v.clone();
    if r.chance(1, 2) {
        let mut b: slice_boxed<T> = v.into_boxed_slice().into();
        let w: [usize; 2] = words(&b);
        let s = unsafe { std::slice::from_raw_parts(std::mem::transmute_copy::<_, *const T>(&b), w[1]) };
        ck!(same(s, &m), "slice_boxed holds {s:?} instead of {m:?}");
        read_all("slice_boxed.as_ref", b.as_ref().as_slice(), b.as_ref().len(), b.as_ref().as_ptr() as usize, s);
        read_all("slice_boxed.as_slice", b.as_slice(), w[1], w[0], s);
        read_all("slice_boxed (deref)", &*b, w[1], w[0], s);
        let (p, n) = { let f = b.as_mut(); (f.as_ptr() as usize, f.len()) };
        ck!(p == w[0] && n == w[1], "slice_boxed.as_mut points elsewhere");
        let (p, n) = { let f = b.as_slice_mut(); (f.as_ptr() as usize, f.len()) };
        ck!(p == w[0] && n == w[1], "slice_boxed.as_slice_mut points elsewhere");
    } else {
        let mut b: repr_c::Vec<T> = v.into();
        let w: [usize; 3] = words(&b);
        let s = unsafe { std::slice::from_raw_parts(std::mem::transmute_copy::<_, *const T>(&b), w[1]) };
        ck!(same(s, &m), "repr_c::Vec holds {s:?} instead of {m:?}");
        read_all("Vec.as_ref", b.as_ref().as_slice(), b.as_ref().len(), b.as_ref().as_ptr() as usize, s);
        read_all("Vec (deref)", &*b, w[1], w[0], s);
        let (p, n) = { let f = b.as_mut(); (f.as_ptr() as usize, f.len()) };
        ck!(p == w[0] && n == w[1], "Vec.as_mut points elsewhere");
        ck!(format!("{b:?}") == format!("{m:?}"), "a Vec is formatted {b:?}");
    }
    ev("owned_view");
    seen_parts(&[T::N, 3, m.len() as u64]);
}

fn raws<T: El>(r: &mut Rng) {
    // a null raw view reads as absent, whatever its length says; a non-null one as itself
    let n = *r.pick(&[0usize, 1, 7, usize::MAX]);
    unsafe {
        macro_rules! null { ($t:ty, $k:expr) => { {
            let c: safer_ffi::layout::CLayoutOf<Option<$t>> = { let mut w = [0usize; 3]; w[1] = n; w[2] = n; std::mem::transmute_copy(&w) };
            let o: Option<$t> = safer_ffi::layout::from_raw_unchecked(c);
            ck!(o.is_none(), "a null {} with length {n} reads as data", stringify!($t));
            std::mem::forget(o);
            // (under Miri: C12's known finding, the length of an absent slice is uninitialised)
            #[cfg(not(miri))] {
                let none: Option<$t> = None;
                let c2 = safer_ffi::layout::into_raw(none);
                let w: usize = std::mem::transmute_copy(&c2);
                ck!(w == 0, "the absent {} is not represented as null", stringify!($t));
            }
            seen_parts(&[T::N, 4, $k, n as u64]);
            ev("null_view");
        } } }
        null!(slice_raw<T>, 0);
        null!(slice_ref<'static, T>, 1);
        null!(slice_mut<'static, T>, 2);
        null!(slice_boxed<T>, 3);
        null!(repr_c::Vec<T>, 4);
    }
}

fn related<T: El>(r: &mut Rng) -> (Vec<T>, Vec<T>) {
    let (x, _, _) = one::<T>(r);
    let mut y = x.clone();
    match r.below(7) { 0 => {} 1 => { y.push(T::gen(r)) } 2 => { y.pop(); } 3 if !y.is_empty() => { let k = r.below(y.len()); y[k] = T::gen(r) } 4 => y = one::<T>(r).0, 5 if !y.is_empty() => { let k = r.below(y.len()); y[k] = T::gen(r); let e = T::gen(r); y.push(e) } 6 => { y.reverse() } _ => {} }
    (x, y)
}
fn partial_pair<T: El>(r: &mut Rng) {
    let (mut x, mut y) = related::<T>(r);
    let (pe, pc) = (x[..] == y[..], x[..].partial_cmp(&y[..]));
    let ops = [x[..] < y[..], x[..] <= y[..], x[..] > y[..], x[..] >= y[..]];
    {
        let (a, b): (slice_ref<'_, T>, slice_ref<'_, T>) = ((&x[..]).into(), (&y[..]).into());
        ck!((a == b) == pe && (a != b) != pe, "slice_ref equality of {x:?} and {y:?} is {}", a == b);
        ck!(a.partial_cmp(&b) == pc && [a < b, a <= b, a > b, a >= b] == ops, "slice_ref ordering of {x:?} and {y:?} is {:?}", a.partial_cmp(&b));
    }
    { let (c, d) = (x.clone(), y.clone());
        let (a, b): (slice_mut<'_, T>, slice_mut<'_, T>) = ((&mut x[..]).into(), (&mut y[..]).into());
        ck!((a == b) == pe && (a != b) != pe, "slice_mut equality of {c:?} and {d:?} is {}", a == b);
        ck!(a.partial_cmp(&b) == pc && [a < b, a <= b, a > b, a >= b] == ops, "slice_mut ordering of {c:?} and {d:?} is {:?}", a.partial_cmp(&b));
    }
    { let (a, b): (slice_boxed<T>, slice_boxed<T>) = (x.clone().into_boxed_slice().into(), y.clone().into_boxed_slice().into());
        ck!((a == b) == pe && (a != b) != pe, "slice_boxed equality of {x:?} and {y:?} is {}", a == b);
        ck!(a.partial_cmp(&b) == pc && [a < b, a <= b, a > b, a >= b] == ops, "slice_boxed ordering of {x:?} and {y:?} is {:?}", a.partial_cmp(&b));
    }
    ev("compare");
    seen_parts(&[T::N, 5, x.len() as u64, y.len() as u64, pe as u64, pc.map_or(9, |o| o as i8 as i64 as u64)]);
}
fn total_pair<T: El + Ord + Hash>(r: &mut Rng) {
    let (mut x, mut y) = related::<T>(r);
    let c = x[..].cmp(&y[..]);
    let (hx, hy) = (rec(&x[..]), rec(&y[..]));
    { let (a, b): (slice_ref<'_, T>, slice_ref<'_, T>) = ((&x[..]).into(), (&y[..]).into());
        ck!(a.cmp(&b) == c && b.cmp(&a) == c.reverse(), "slice_ref order of {x:?} and {y:?} is {:?}", a.cmp(&b));
        ck!(rec(&a) == hx && rec(&b) == hy, "slice_ref hashes differently from its slice: {x:?}"); }
    { let (p, q) = (x.clone(), y.clone());
        let (a, b): (slice_mut<'_, T>, slice_mut<'_, T>) = ((&mut x[..]).into(), (&mut y[..]).into());
        ck!(a.cmp(&b) == c && b.cmp(&a) == c.reverse(), "slice_mut order of {p:?} and {q:?} is {:?}", a.cmp(&b));
        ck!(rec(&a) == hx && rec(&b) == hy, "slice_mut hashes differently from its slice: {p:?}"); }
    { let (a, b): (slice_boxed<T>, slice_boxed<T>) = (x.clone().into_boxed_slice().into(), y.clone().into_boxed_slice().into());
        ck!(a.cmp(&b) == c && b.cmp(&a) == c.reverse(), "slice_boxed order of {x:?} and {y:?} is {:?}", a.cmp(&b));
        ck!(rec(&a) == hx && rec(&b) == hy, "slice_boxed hashes differently from its slice: {x:?}"); }
    ev("compare");
    seen_parts(&[T::N, 6, x.len() as u64, y.len() as u64, c as i8 as i64 as u64]);
}

fn text(r: &mut Rng) {
    let n = if r.big() { r.big_len() / 4 } else { r.below(8) };
    let s = r.string(n);
    let idx: Vec<usize> = s.char_indices().map(|x| x.0).chain([s.len()]).collect();
    let a = *r.pick(&idx);
    let rest: Vec<usize> = idx.iter().copied().filter(|x| *x >= a).collect();
    let b = *r.pick(&rest);
    let t = &s[a..b];
    let f: str::Ref<'_> = t.into();
    let w: [usize; 2] = words(&f);
    ck!(f.as_str() == t && f.as_str().as_ptr() == t.as_ptr() && w == [t.as_ptr() as usize, t.len()], "str_ref of {t:?} shows {:?} ({w:x?})", f.as_str());
    let g = f;
    ck!(&*g == t && AsRef::<str>::as_ref(&g) == t && g.len() == t.len() && g.chars().eq(t.chars()), "a copied str_ref shows {g:?}");
    ck!(format!("{f:?}|{f:#?}") == format!("{t:?}|{t:#?}"), "a str_ref is formatted {f:?}");
    let o: String = f.into();
    ck!(o == t, "text copied from a str_ref is {o:?}");
    unsafe {
        let c = safer_ffi::layout::into_raw(f);
        let back: str::Ref<'_> = safer_ffi::layout::from_raw_unchecked(c);
        ck!(back.as_str() == t && back.as_ptr() == t.as_ptr(), "a str_ref through C shows {back:?}");
    }
    ev("text_view");
    report::sample(|| format!("text {s:?}, view of bytes {a}..{b}: {f:?} at {:#x}, data at {:p}", w[0], t.as_ptr()));
    seen_parts(&[7, a as u64, b as u64, s.len() as u64]);
}

/// Elements without a C representation, zero-sized ones, and the views of nothing.
fn plain<T: Clone + Debug + PartialEq + Default>(r: &mut Rng, name: u64, gen: impl Fn(&mut Rng) -> T) {
    let n = if r.big() { r.big_len() / 8 } else { r.below(9) };
    let mut v: Vec<T> = (0..n).map(|_| gen(r)).collect();
    let a = r.below(n + 1);
    let b = a + r.below(n - a + 1);
    let m = v.clone();
    { let f: slice_ref<'_, T> = (&v[a..b]).into(); let w: [usize; 2] = words(&f);
      ck!(w == [v[a..b].as_ptr() as usize, b - a] && f.as_slice() == &m[a..b] && f.iter().len() == b - a, "a slice_ref of {m:?}[{a}..{b}] shows {f:?} ({w:x?})"); }
    if b > a {
        let k = r.below(b - a);
        let x = gen(r);
        { let mut f: slice_mut<'_, T> = (&mut v[a..b]).into(); let y = x.clone(); f[k] = y; ck!(f.len() == b - a, "a slice_mut has {} elements", f.len()); }
        ck!(v[a + k] == x && (0..n).all(|i| i == a + k || v[i] == m[i]), "a write at {k} of {a}..{b} through a slice_mut gave {v:?} from {m:?}");
    }
    let mut e: slice_mut<'_, T> = Default::default();
    let w: [usize; 2] = words(&e);
    ck!(e.is_empty() && e.as_mut().as_slice().is_empty() && w[0] != 0 && w[0] % std::mem::align_of::<T>() == 0, "the default slice_mut is {w:x?}");
    drop(e);
    let e: slice_boxed<T> = Default::default();
    let w: [usize; 2] = words(&e);
    ck!(e.is_empty() && e.as_ref().is_empty() && w[0] != 0 && w[0] % std::mem::align_of::<T>() == 0, "the default slice_boxed is {w:x?}");
    let e: Box<[T]> = e.into();
    ck!(e.is_empty(), "the default slice_boxed becomes {e:?}");
    let want = v.clone();
    let c: slice_boxed<T> = v.into_boxed_slice().into();
    let d = c.clone();
    ck!(*c == want[..] && *d == want[..] && (want.is_empty() || std::mem::size_of::<T>() == 0 || c.as_ptr() != d.as_ptr()), "a cloned slice_boxed shows {:?}, not {want:?}", &*d);
    drop(c);
    let d: Vec<T> = Box::<[T]>::from(d).into_vec();
    ck!(d == want, "a slice_boxed became {d:?}, not {want:?}");
    ev("plain_view");
    seen_parts(&[name, 8, a as u64, b as u64, n as u64]);
}

fn all<T: El>(r: &mut Rng) { shared::<T>(r); exclusive::<T>(r); owned::<T>(r); partial_pair::<T>(r) }
pub fn run(o: &Opts) {
    o.histories(6, |mut r, i| {
        let r = &mut r;
        match i % 10 {
            0 => { all::<u8>(r); total_pair::<u8>(r) }
            1 => { all::<i32>(r); total_pair::<i32>(r) }
            2 => { all::<u64>(r); total_pair::<u64>(r) }
            3 => { all::<f64>(r) }
            4 => { all::<Pair>(r); total_pair::<Pair>(r) }
            5 => { raws::<u8>(r); raws::<Pair>(r) }
            6 => { plain::<String>(r, 20, |r| r.string(3)); plain::<()>(r, 21, |_| ()); plain::<[u64; 0]>(r, 22, |_| []); plain::<Option<Box<u8>>>(r, 23, |r| (r.below(2) == 0).then(|| Box::new(r.next() as u8))) }
            _ => text(r),
        }
        ev("history");
    });
}
