use super::*;
use safer_ffi::bytes::Bytes;
use safer_ffi::layout::{from_raw, from_raw_unchecked, into_raw, CLayoutOf, ReprC};
use std::sync::Arc;

/// an element that owns heap memory and counts its drops
#[derive_ReprC]
#[repr(C)]
#[derive(Debug)]
pub struct P { x: u32, b: repr_c::Box<u32> }
impl P { fn new(x: u32) -> P { LIVE.fetch_add(1, Relaxed); P { x, b: Box::new(!x).into() } } }
impl Drop for P { fn drop(&mut self) { if *self.b != !self.x { report::violation("an element was corrupt when dropped") } LIVE.fetch_sub(1, Relaxed); } }
impl Clone for P { fn clone(&self) -> P { P::new(self.x) } }

fn owners(t: &mut Tr, r: &mut Rng) {
    let n = r.below(7);
    let mut v: repr_c::Vec<P> = t.op("vec", || (0..n).map(|i| P::new(i as u32 * 3)).collect::<Vec<_>>().into());
    for _ in 0..r.below(8) {
        t.ev("vec", &(v.len(), v.iter().map(|d| d.x).collect::<Vec<_>>(), LIVE.load(Relaxed)));
        match r.below(6) {
            0 => t.op("push", || v.with_rust_mut(|v| v.push(P::new(77)))),
            1 => { let d = t.op("pop", || v.with_rust_mut(|v| v.pop())); t.ev("popped", &d); t.op("drop", || drop(d)) }
            2 => { let c = t.op("clone", || bb(v.clone())); t.op("drop", || drop(std::mem::replace(&mut v, c))) }
            3 => { let x: Vec<P> = t.op("into rust", || v.into()); t.ev("cap", &(x.len(), x.capacity())); v = t.op("from rust", || x.into()) }
            4 => v = t.op("raw", || unsafe { from_raw_unchecked(into_raw(v)) }),
            _ => t.op("swap", || v.with_rust_mut(|v| v.reverse())),
        }
    }
    t.op("drop", || drop(v));
    let x = r.next() as u32;
    let b: repr_c::Box<P> = t.op("box", || Box::new(P::new(x)).into());
    t.ev("boxed", &(b.x, hash_of(&b.x)));
    let o: Option<repr_c::Box<P>> = if r.chance(1, 2) { Some(b) } else { t.op("drop", || drop(b)); None };
    let o = unsafe { from_raw::<Option<repr_c::Box<P>>>(into_raw(o)) };
    t.ev("optional", &o.as_ref().map(|o| o.as_ref().map(|b| b.x)));
    t.op("drop", || drop(o));
    let bs: c_slice::Box<u16> = t.op("boxed slice", || (0..n as u16).collect::<Vec<_>>().into_boxed_slice().into());
    t.ev("boxed slice", &(bs.len(), bs.as_slice().to_vec()));
    let c = t.op("clone", || bb(bs.clone()));
    t.ev("eq", &(c.as_slice() == bs.as_slice()));
    let back: Box<[u16]> = t.op("back", || bs.into());
    t.ev("back", &back);
    t.op("drop", || { drop(back); drop(c) });
}
fn texts(t: &mut Tr, r: &mut Rng) {
    let texts = ["", "a", "ab\0", "\0", "héllo\0", "héllo wörld", "x\0y", "x\0y\0", "日本"];
    let p = *r.pick(&texts);
    let mut s: repr_c::String = t.op("string", || p.to_string().into());
    let clean: Vec<usize> = p.char_indices().map(|x| x.0).collect();
    t.op("push", || s.with_rust_mut(|s| s.push_str("é!")));
    t.ev("string", &(s.len(), &*s, format!("{s} {s:?}"), hash_of(&*s)));
    let c = t.op("clone", || bb(s.clone()));
    t.ev("eq", &(*c == *s, (*c).cmp(&*s)));
    let back: String = t.op("back", || s.into());
    t.ev("back", &(&back, back.capacity() >= back.len()));
    t.op("drop", || { drop(back); drop(c) });
    let sb: str::Box = t.op("boxed str", || p.to_string().into_boxed_str().into());
    t.ev("boxed str", &(&*sb, format!("{sb:?}")));
    t.op("drop", || drop(sb));
    match t.op("char_p", || char_p::Box::try_from(p.to_string())) {
        Ok(c) => {
            t.ev("char_p", &(c.to_str(), c.to_string(), format!("{c} {c:?}"), c.as_ref().to_bytes()));
            let d = t.op("clone", || bb(c.clone()));
            t.ev("eq", &(c == d));
            let s = t.op("into string", || c.into_string());
            t.ev("text", &s);
            t.op("drop", || { drop(s); drop(d) });
        }
        Err(e) => { t.ev("refused", &format!("{e} {e:?}")); t.op("drop", || drop(e)) }
    }
}
fn closures(t: &mut Tr, r: &mut Rng) {
    let k = r.next() as u32 % 1000;
    let d = t.op("capture", || D::new(k));
    let mut count = 0u64;
    let f: repr_c::Box<dyn Send + FnMut(u32, u8) -> u64> = t.op("box", || Box::new(move |a: u32, b: u8| { count += d.0 as u64 + a as u64 * b as u64; count }).into());
    let mut f = f;
    for _ in 0..r.below(4) { let a = r.next() as u32 % 100; let x = t.op("call", || f.call(a, 3)); t.ev("called", &x) }
    t.op("drop", || drop(f));
    let d = t.op("capture", || D::new(k + 1));
    let f: repr_c::Arc<dyn Send + Sync + Fn(u8) -> u32> = t.op("arc", || Arc::new(move |a: u8| d.0 + a as u32).into());
    let g = t.op("clone", || f.clone());
    let x = t.op("call", || f.call(2));
    t.op("drop", || drop(f));
    let y = t.op("call", || g.call(2));
    t.ev("called", &(x, y, LIVE.load(Relaxed)));
    t.op("drop", || drop(g));
}
/// With `stabby`, the library documents that what it copies itself is shared by stabby's own counted slice.
enum Shared { Std(Arc<[u8]>), #[cfg(feature = "stb")] Stb(stabby::sync::ArcSlice<u8>) }
impl Shared { fn slice(&self) -> &[u8] { match self { Shared::Std(a) => a, #[cfg(feature = "stb")] Shared::Stb(a) => a.as_slice() } } }
fn downcast<'a>(b: Bytes<'a>) -> Result<Shared, Bytes<'a>> {
    match Arc::<[u8]>::try_from(b) {
        Ok(a) => Ok(Shared::Std(a)),
        #[cfg(feature = "stb")]
        Err(b) => stabby::sync::ArcSlice::<u8>::try_from(b).map(Shared::Stb),
        #[cfg(not(feature = "stb"))]
        Err(b) => Err(b),
    }
}
fn bytes(t: &mut Tr, r: &mut Rng) {
    let data: Vec<u8> = (0..r.below(80)).map(|_| r.byte()).collect();
    let mut owned: Vec<u8> = Vec::new();
    let mk = r.below(6);
    let ptr;
    let b = {
        let d = tracked(|| data.clone());
        ptr = d.as_ptr();
        t.op("make", || match mk { 0 => Bytes::from(d), 1 => Bytes::from(d.into_boxed_slice()), 2 => Bytes::from(Arc::<[u8]>::from(d)), 3 => Bytes::from(Arc::new(d)), 4 => { let b = Bytes::copied_from_slice(&d); drop(d); b } _ => { drop(d); Bytes::from_slice(&data) } })
    };
    let mut bs = vec![b];
    let mut whole = true; // nothing narrowed yet: what a narrowed value can be downcast to is not specified as equal for both kinds of counted slice
    for _ in 0..r.below(12) {
        if bs.is_empty() { break }
        let i = r.below(bs.len());
        let len = bs[i].len();
        t.ev("bytes", &(len, bs[i].as_slice(), hash_of(&bs[i]), bs[i].upgrade_will_allocate(), bs[i].clone_will_allocate()));
        let what = r.below(8);
        whole &= !matches!(what, 0 | 2);
        match what {
            5 if !whole => {}
            0 => { let k = r.below(len + 1); let j = k + r.below(len - k + 1); t.op("shrink", || bs[i].shrink_to(k..j)) }
            1 => { let c = t.op("clone", || bb(bs[i].clone())); t.ev("same", &(c == bs[i])); bs.push(c) }
            2 => { let b = bs.swap_remove(i); let k = r.below(len + 2); match t.op("split", || b.split_at(k)) { Ok((x, y)) => { t.ev("split", &(x.as_slice(), y.as_slice())); bs.push(x); bs.push(y) } Err(b) => { t.ev("not split", &b.len()); bs.push(b) } } }
            3 => { let b = bs.swap_remove(i); let b = t.op("upgrade", || b.upgrade()); bs.push(b) }
            4 => { let b = bs.swap_remove(i); let b = match t.op("noalloc_upgrade", || b.noalloc_upgrade()) { Ok(b) => { t.ev("ok", &true); b } Err(b) => { t.ev("ok", &false); b } }; bs.push(b) }
            5 => { let b = bs.swap_remove(i); match t.op("into arc", || downcast(b)) { Ok(a) => { t.ev("arc", &a.slice()); t.op("drop", || drop(a)) } Err(b) => { t.ev("no arc", &b.len()); bs.push(b) } } }
            6 => { if let Some(c) = t.op("noalloc_clone", || bb(bs[i].noalloc_clone())) { t.ev("cloned", &(c == bs[i])); bs.push(c) } }
            _ => { let b = bs.swap_remove(i); t.op("drop", || drop(b)) }
        }
    }
    t.op("drop", || drop(bs.drain(..).collect::<Vec<_>>()));
}
pub fn run(t: &mut Tr, r: &mut Rng) {
    match r.below(4) { 0 => owners(t, r), 1 => texts(t, r), 2 => closures(t, r), _ => bytes(t, r) }
}
