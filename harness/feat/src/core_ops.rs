use super::*;
use safer_ffi::bytes::Bytes;
use safer_ffi::layout::{from_raw, from_raw_unchecked, into_raw, CLayoutOf, ReprC};
use safer_ffi::option::TaggedOption;
use safer_ffi::tuple::*;

#[derive_ReprC]
#[repr(u8)]
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum E1 { A = 1, B = 7, C = 200 }
#[derive_ReprC]
#[repr(i16)]
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum E2 { A = -5, B, C = 300 }
#[derive_ReprC]
#[repr(C)]
#[derive(Debug, Clone, Copy)]
pub struct S1 { pub a: u8, pub b: bool, pub c: E1, pub d: u64, pub e: [u16; 3] }
#[derive_ReprC]
#[repr(C)]
#[derive(Debug, Clone, Copy)]
pub struct S2<'a> { pub p: &'a u32, pub o: Option<&'a u32>, pub s: S1, pub f: Option<extern "C" fn(u8) -> u8>, pub x: f32 }
#[derive_ReprC]
#[repr(transparent)]
#[derive(Debug, Clone, Copy)]
pub struct T1(pub E2);

fn valid<T: ReprC>(t: &mut Tr, r: &mut Rng, name: &str) {
    let n = std::mem::size_of::<CLayoutOf<T>>();
    t.ev("layout", &(name, n, std::mem::align_of::<CLayoutOf<T>>(), std::mem::size_of::<T>(), std::mem::align_of::<T>()));
    for _ in 0..3 {
        let mut c = std::mem::MaybeUninit::<CLayoutOf<T>>::zeroed();
        let b = unsafe { std::slice::from_raw_parts_mut(c.as_mut_ptr() as *mut u8, n) };
        for x in b.iter_mut() { *x = match r.below(6) { 0 => 0, 1 => 1, 2 => 7, 3 => 200, 4 => 0xff, _ => r.byte() } }
        let ok = T::is_valid(unsafe { c.assume_init_ref() });
        t.ev("is_valid", &(name, &*b, ok, unsafe { from_raw::<T>(c.assume_init()) }.map(std::mem::forget).is_some()));
    }
}
fn views(t: &mut Tr, r: &mut Rng) {
    let n = r.below(9);
    let mut v: Vec<u16> = (0..n).map(|_| r.next() as u16 % 300).collect();
    let w: Vec<u16> = (0..r.below(9)).map(|_| r.next() as u16 % 300).collect();
    let (a, b): (c_slice::Ref<'_, u16>, c_slice::Ref<'_, u16>) = (v[..].into(), w[..].into());
    t.ev("slices", &(a.len(), a.as_slice().to_vec(), a == b, a.cmp(&b), hash_of(&a), a.as_ptr() == v.as_ptr()));
    t.ev("slice debug", &a);
    let i = r.below(n + 1);
    t.ev("index", &(a.get(i), a.iter().rev().fold(0u32, |x, y| x.wrapping_mul(31).wrapping_add(*y as u32))));
    let c = t.op("to raw and back", || unsafe { from_raw_unchecked::<c_slice::Ref<'_, u16>>(into_raw(a)) });
    t.ev("same", &(c == a));
    let mut m: c_slice::Mut<'_, u16> = (&mut v[..]).into();
    for x in m.iter_mut() { *x ^= 0x55 }
    { let k: &mut [u16] = &mut *m; if let Some(x) = k.first_mut() { *x = 9 } }
    let raw: c_slice::Raw<u16> = m.into();
    t.ev("raw", &unsafe { raw.as_ref() }.as_slice().to_vec());
    t.ev("written", &v);
    let null = unsafe { from_raw::<Option<c_slice::Raw<u16>>>(std::mem::zeroed()) };
    t.ev("null", &null.map(|o| o.is_none()));
    let texts = ["", "a", "ab\0", "\0", "héllo\0", "x\0y", "x\0y\0", "日本"];
    let (p, q) = (*r.pick(&texts), *r.pick(&texts));
    let (sp, sq): (str::Ref<'_>, str::Ref<'_>) = (p.into(), q.into());
    t.ev("strs", &(sp.len(), *sp == *sq, (*sp).cmp(&*sq), hash_of(&*sp)));
    t.ev("str fmt", &format!("{sp:?}"));
    let cp: Result<char_p::Ref<'_>, _> = p.try_into();
    match cp { Ok(c) => t.ev("char_p", &(c.to_str(), c.to_bytes(), c.to_str_with_null(), format!("{c} {c:?}"))), Err(e) => t.ev("char_p refused", &format!("{e} {e:?}")) }
    t.ev("literal", &(c!("lit").to_str(), c!("").to_str()));
}
fn values(t: &mut Tr, r: &mut Rng) {
    let x = r.next() as u32;
    let mut o: TaggedOption<u32> = if r.chance(1, 2) { Some(x).into() } else { None.into() };
    t.ev("tagged", &(o, o.as_ref(), hash_of(&o), o.cmp(&TaggedOption::Some(3))));
    if let Some(m) = o.as_mut() { *m ^= 1 }
    t.ev("tagged raw", &(unsafe { from_raw::<TaggedOption<u32>>(into_raw(o)) }));
    t.ev("tagged fns", &(o.and_then(|x| if x % 3 == 0 { TaggedOption::None } else { TaggedOption::Some(x + 1u32.wrapping_mul(2) % 7) }), o.map_or_else(|| 1u64, |x| x as u64 * 2), o.take(), o, o.unwrap_or_else(|| 4)));
    let tup = Tuple3 { _0: r.byte(), _1: x, _2: E1::B };
    let c = unsafe { into_raw(tup) };
    t.ev("tuple", &unsafe { from_raw::<Tuple3<u8, u32, E1>>(c) });
    let k = 5u32;
    let s = S2 { p: &k, o: if r.chance(1, 2) { Some(&k) } else { None }, s: S1 { a: r.byte(), b: r.chance(1, 2), c: E1::C, d: r.next(), e: [1, 2, x as u16] }, f: None, x: 0.5 };
    t.ev("struct", &unsafe { from_raw::<S2<'_>>(into_raw(s)) });
    t.ev("transparent", &unsafe { from_raw::<T1>(into_raw(T1(E2::B))) });
    let total = std::sync::Arc::new(std::sync::atomic::AtomicU64::new(0)); let tot = total.clone();
    {
        let mut f = move |a: u32, b: u8| -> u64 { tot.fetch_add(a as u64 * b as u64, Relaxed) };
        let mut g: safer_ffi::closure::RefDynFnMut2<'_, u64, u32, u8> = (&mut f).into();
        let r1 = t.op("call", || g.call(x % 1000, 3));
        let r2 = g.call(7, 11);
        t.ev("called", &(r1, r2));
    }
    t.ev("captured", &total.load(Relaxed));
}
fn bytes(t: &mut Tr, r: &mut Rng) {
    static DATA: [u8; 100] = { let mut d = [0; 100]; let mut i = 0; while i < 100 { d[i] = (i * 37 % 251) as u8; i += 1 } d };
    let n = r.below(100);
    let local: Vec<u8> = (0..r.below(60)).map(|_| r.byte()).collect();
    let mut b = match r.below(4) { 0 => Bytes::from_static(&DATA[..n]), 1 => Bytes::from_slice(&local), 2 => Bytes::inline_slice(&DATA[..n]).unwrap_or_default(), _ => Bytes::empty() };
    t.ev("inline limit", &(0..40).filter(|n| Bytes::inline_slice(&DATA[..*n]).is_some()).count());
    for _ in 0..r.below(8) {
        let len = b.len();
        t.ev("bytes", &(len, b.as_slice(), hash_of(&b), format!("{b:?}"), b.upgrade_will_allocate(), b.clone_will_allocate()));
        match r.below(6) {
            0 => { let i = r.below(len + 1); let j = i + r.below(len - i + 1); t.op("shrink", || b.shrink_to(i..j)) }
            1 => { let i = r.below(len + 1); b = t.op("subslice", || b.subsliced(i..)) }
            2 => { if let Some(c) = t.op("noalloc_clone", || bb(b.noalloc_clone())) { t.ev("equal", &(c == b, c.cmp(&b), c.as_ptr() == b.as_ptr())); b = c } }
            3 => { b = match t.op("noalloc_upgrade", || b.noalloc_upgrade()) { Ok(c) => { t.ev("upgraded", &true); c } Err(c) => { t.ev("upgraded", &false); c } } }
            4 if !b.clone_will_allocate() => { let c = t.op("clone", || bb(b.noalloc_clone().unwrap_or_default())); t.ev("equal", &(c == b)); t.op("drop", || drop(std::mem::replace(&mut b, c))) }
            _ => t.ev("compare", &(b == &DATA[..n], b.partial_cmp(&local))),
        }
    }
    t.op("drop", || drop(b));
}
pub fn run(t: &mut Tr, r: &mut Rng) {
    match r.below(4) {
        0 => views(t, r),
        1 => values(t, r),
        2 => bytes(t, r),
        _ => {
            macro_rules! v { ($($T:ty),* $(,)?) => { $( valid::<$T>(t, r, stringify!($T)); )* } }
            v!(u8, bool, E1, E2, T1, S1, [bool; 3], [E1; 2], Tuple2<u8, bool>, Tuple3<E1, u64, bool>, TaggedOption<bool>, TaggedOption<E2>, Option<&'static u8>, &'static u8,
               c_slice::Ref<'static, u32>, Option<c_slice::Ref<'static, u32>>, str::Ref<'static>, char_p::Ref<'static>, Option<char_p::Ref<'static>>, Option<extern "C" fn(u8) -> u8>, extern "C" fn(u8) -> u8, f64, usize, *const u8, S2<'static>);
        }
    }
}
