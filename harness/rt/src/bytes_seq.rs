//! C01, C02, C04: random histories over a pool of `Bytes`, next to a plain `Vec<u8>` model, an
//! ownership ledger per backing owner, and allocator counts around every operation.
use crate::ledger::{self, mark, tracked};
use crate::prng::Rng;
use crate::report::{self, ev, seen_parts};
use crate::{check, Opts};
use safer_ffi::bytes::{Bytes, BytesVt};
use std::collections::hash_map::DefaultHasher;
use std::convert::TryFrom;
use std::hash::{Hash, Hasher};
use std::io::Read;
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicIsize, AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;

const INL: usize = Bytes::<'static>::MAX_INLINE_SIZE;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode { Content, Owner, Alloc }

/// A foreign owner with a hand-written table. Never deallocated itself, so late calls are seen.
pub struct Foreign {
    id: usize,
    pub rc: AtomicIsize,
    pub released: AtomicUsize,
    pub retains: AtomicUsize,
    pub bad: AtomicUsize,
    token: usize,
    pub buf: *mut u8,
    pub len: usize,
    lo: usize,
    hi: usize,
}
unsafe impl Sync for Foreign {}
unsafe impl Send for Foreign {}

unsafe extern "C" fn f_retain(o: *const (), tok: usize) {
    let f = &*(o as *const Foreign);
    if tok != f.token { f.bad.store(1, SeqCst); }
    if f.rc.fetch_add(1, SeqCst) <= 0 { f.bad.store(2, SeqCst); }
    f.retains.fetch_add(1, SeqCst);
}
unsafe extern "C" fn f_release(o: *const (), tok: usize) {
    let f = &*(o as *const Foreign);
    if tok != f.token { f.bad.store(3, SeqCst); }
    match f.rc.fetch_sub(1, SeqCst) {
        1 => {
            f.released.fetch_add(1, SeqCst);
            // the storage really goes away: poison, then free
            std::ptr::write_bytes(f.buf, 0xDD, f.len);
            drop(Vec::from_raw_parts(f.buf, f.len, f.len));
        }
        n if n <= 0 => f.bad.store(4, SeqCst),
        _ => {}
    }
}
unsafe extern "C" fn f_retain_borrowed(o: *const (), tok: usize) {
    let f = &*(o as *const Foreign);
    if tok != f.token { f.bad.store(5, SeqCst); }
    f.retains.fetch_add(1, SeqCst);
}
static VT_SHARED: BytesVt = BytesVt { retain: Some(f_retain), release: Some(f_release) };
static VT_UNIQUE: BytesVt = BytesVt { retain: None, release: Some(f_release) };
static VT_BORROW_RETAIN: BytesVt = BytesVt { retain: Some(f_retain_borrowed), release: None };
static VT_BORROW: BytesVt = BytesVt { retain: None, release: None };

/// An owner held through `Arc<T>`.
pub struct Held { data: Vec<u8>, off: usize, drops: Arc<AtomicUsize> }
impl AsRef<[u8]> for Held { fn as_ref(&self) -> &[u8] { &self.data[self.off..] } }
impl Drop for Held {
    fn drop(&mut self) {
        self.drops.fetch_add(1, SeqCst);
        for b in self.data.iter_mut() { unsafe { std::ptr::write_volatile(b, 0xDD) } }
    }
}

enum Own {
    /// no shared owner the harness can watch (inline, static, borrowed, box, vec: the ledger / sanitizer watches)
    Foreign(&'static Foreign),
    ArcBytes(Arc<[u8]>),
    ArcT(Arc<Held>, Arc<AtomicUsize>),
    #[cfg(feature = "stb")]
    StbSlice(stabby::sync::ArcSlice<u8>),
    #[cfg(feature = "stb")]
    StbT(stabby::sync::Arc<StbHeld>, Arc<AtomicUsize>),
}
#[cfg(feature = "stb")]
pub struct StbHeld(Held);
#[cfg(feature = "stb")]
impl AsRef<[u8]> for StbHeld { fn as_ref(&self) -> &[u8] { self.0.as_ref() } }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(u8)]
enum Kind { Empty, Static, Inline, Borrowed, Box, Vec, ArcBytes, ArcT, FShared, FUnique, FBorrowR, FBorrow, Copied, Serde, StbSlice, StbT, StbVec, StbBox }

struct Ent {
    b: Bytes<'static>,
    m: Vec<u8>,
    kind: Kind,
    own: Option<usize>,
    /// lifetime bound to a borrowed source, unless proven 'static
    src: Option<usize>,
    /// `Some(true)`: certainly an unshrunk view of an `Arc<[u8]>`; `Some(false)`: certainly not
    full_arc: Option<bool>,
}

struct Src { buf: *mut [u8] }

pub struct World<'o> {
    o: &'o Opts,
    mode: Mode,
    r: Rng,
    pool: Vec<Ent>,
    owns: Vec<Option<Own>>,
    foreigns: Vec<*mut Foreign>,
    heldc: Vec<Arc<AtomicUsize>>,
    srcs: Vec<Option<Src>>,
    log: Vec<(u8, usize, usize, usize)>,
}

static STATIC_DATA: [u8; 150_000] = { let mut a = [0; 150_000]; let mut i = 0; while i < 150_000 { a[i] = ((i as u8).wrapping_mul(167).wrapping_add(13)) ^ (i >> 8) as u8; i += 1; } a };
const STATIC_STR: &str = "a static string that is long enough to be out of line, and then some more of it to be sure 0123456789";

fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 { let mut h = DefaultHasher::new(); t.hash(&mut h); h.finish() }
fn in_obj(b: &Bytes<'_>) -> bool {
    let p = b.as_slice().as_ptr() as usize;
    let o = b as *const _ as usize;
    p >= o && p < o + std::mem::size_of::<Bytes<'static>>()
}
fn lenc(n: usize) -> u64 { match n { 0 => 0, 1..=8 => 1, 9..=31 => 2, 32 => 3, 33..=39 => 4, 40 => 5, 41..=64 => 6, 65..=66 => 7, _ => 8 } }

impl<'o> World<'o> {
    fn new(o: &'o Opts, mode: Mode, r: Rng) -> Self {
        World { o, mode, r, pool: vec![], owns: vec![], foreigns: vec![], heldc: vec![], srcs: vec![], log: vec![] }
    }
    fn fail(&self, what: String) -> ! {
        let t: Vec<String> = self.log.iter().map(|l| format!("{}({},{},{})", OPS[l.0 as usize], l.1, l.2, l.3)).collect();
        report::violation(&format!("{what}; operations: {}", t.join(" ")))
    }
    fn content_ok(&self, e: &Ent, when: &str) {
        let s = e.b.as_slice();
        if s != &e.m[..] || e.b.len() != e.m.len() {
            self.fail(format!("{when}: a Bytes of kind {:?} exposes {:?} (len {}) where the model has {:?}", e.kind, s, e.b.len(), e.m));
        }
    }
    fn seen(&self, op: u8, e: &Ent) {
        seen_parts(&[op as u64, e.kind as u64, in_obj(&e.b) as u64, lenc(e.m.len()), e.src.is_some() as u64, e.b.clone_will_allocate() as u64, e.b.upgrade_will_allocate() as u64]);
    }
    fn foreign(&mut self, data: &[u8], lo: usize, hi: usize) -> (usize, &'static Foreign, &'static [u8]) {
        let id = self.owns.len();
        let mut v = tracked(|| { let mut v = Vec::with_capacity(data.len()); v.extend_from_slice(data); v });
        let (p, l) = (v.as_mut_ptr(), v.len());
        std::mem::forget(v);
        let fp: *mut Foreign = Box::into_raw(Box::new(Foreign {
            id, rc: AtomicIsize::new(1), released: AtomicUsize::new(0), retains: AtomicUsize::new(0), bad: AtomicUsize::new(0),
            token: self.r.next() as usize, buf: p, len: l, lo, hi,
        }));
        let f: &'static Foreign = unsafe { &*fp };
        self.owns.push(Some(Own::Foreign(f)));
        self.foreigns.push(fp);
        (id, f, unsafe { std::slice::from_raw_parts(p.add(lo), hi - lo) })
    }
    fn source(&mut self, n: usize) -> (usize, &'static [u8]) {
        let data = self.r.bytes(n);
        let buf = Box::into_raw(data.into_boxed_slice());
        self.srcs.push(Some(Src { buf }));
        (self.srcs.len() - 1, unsafe { &*(buf as *const [u8]) })
    }
    fn construct(&mut self) {
        let kinds = if cfg!(feature = "stb") { 18 } else { 14 };
        let k = self.r.below(kinds);
        let n = self.r.len();
        self.log.push((0, k, n, 0));
        let alloc_mode = self.mode == Mode::Alloc && ledger::ON;
        let mut own = None;
        let mut src = None;
        let mut full_arc = Some(false);
        let m0;
        // (expected address of the data, may the construction allocate)
        let mut addr: Option<*const u8> = None;
        let mut allocs_allowed = false;
        let mk;
        let (b, m, kind): (Bytes<'static>, Vec<u8>, Kind) = match k {
            0 => { mk = mark(); m0 = tracked(|| if n % 2 == 0 { Bytes::empty() } else { Bytes::default() }); (m0, vec![], Kind::Empty) }
            1 => {
                let lo = self.r.below(20);
                mk = mark();
                match self.r.below(4) {
                    0 => { let d: &'static [u8] = &STATIC_DATA[lo..(lo + n).min(150_000)]; addr = Some(d.as_ptr()); (tracked(|| Bytes::from_static(d)), d.to_vec(), Kind::Static) }
                    1 => { let d: &'static [u8] = &STATIC_DATA[lo..(lo + n).min(150_000)]; addr = Some(d.as_ptr()); (tracked(|| Bytes::from(d)), d.to_vec(), Kind::Static) }
                    2 => { let d: &'static str = &STATIC_STR[lo..(lo + n).min(STATIC_STR.len())]; addr = Some(d.as_ptr()); (tracked(|| Bytes::from(d)), d.as_bytes().to_vec(), Kind::Static) }
                    _ => { static A: [u8; 35] = *b"thirty-five bytes of static storage"; addr = Some(A.as_ptr()); (tracked(|| Bytes::from(&A)), A.to_vec(), Kind::Static) }
                }
            }
            2 => {
                let d = self.r.bytes(n);
                mk = mark();
                match tracked(|| Bytes::inline_slice(&d)) {
                    Some(b) => { if n > INL { self.fail(format!("inline_slice accepted {n} bytes")) } (b, d, Kind::Inline) }
                    None => {
                        if n <= INL { self.fail(format!("inline_slice refused {n} bytes, no more than MAX_INLINE_SIZE")) }
                        return;
                    }
                }
            }
            3 => {
                let (i, s) = self.source(n + 3);
                let lo = self.r.below(4);
                let d = &s[lo..lo + n];
                mk = mark();
                let b = tracked(|| Bytes::from_slice(d));
                if !in_obj(&b) || n > INL { src = Some(i); addr = Some(d.as_ptr()); }
                if n <= INL { src = None; addr = None; }
                // from_slice ties the lifetime to the source even when inlined; being inlined is documented
                if n <= INL && !in_obj(&b) { src = Some(i); }
                (b, d.to_vec(), Kind::Borrowed)
            }
            4 => {
                let d = self.r.bytes(n);
                let x = tracked(|| d.clone().into_boxed_slice());
                addr = Some(x.as_ptr());
                mk = mark();
                (tracked(|| Bytes::from(x)), d, Kind::Box)
            }
            5 => {
                let d = self.r.bytes(n);
                let extra = self.r.below(3) * 7;
                let x = tracked(|| { let mut v = Vec::with_capacity(n + extra); v.extend_from_slice(&d); v });
                if x.capacity() == n { addr = Some(x.as_ptr()) } else { allocs_allowed = true }
                mk = mark();
                (tracked(|| Bytes::from(x)), d, Kind::Vec)
            }
            6 => {
                let d = self.r.bytes(n);
                let a: Arc<[u8]> = tracked(|| Arc::from(&d[..]));
                addr = Some(a.as_ptr());
                own = Some(self.owns.len());
                self.owns.push(Some(Own::ArcBytes(a.clone())));
                full_arc = Some(true);
                mk = mark();
                (tracked(|| Bytes::from(a)), d, Kind::ArcBytes)
            }
            7 => {
                let d = self.r.bytes(n + 2);
                let off = self.r.below(3);
                let drops = Arc::new(AtomicUsize::new(0));
                let a = tracked(|| Arc::new(Held { data: d.clone(), off, drops: drops.clone() }));
                let m = a.as_ref().as_ref().to_vec();
                addr = Some(a.as_ref().as_ref().as_ptr());
                own = Some(self.owns.len());
                self.heldc.push(drops.clone());
                self.owns.push(Some(Own::ArcT(a.clone(), drops)));
                mk = mark();
                (tracked(|| Bytes::from(a)), m, Kind::ArcT)
            }
            8..=11 => {
                let d = self.r.bytes(n + 4);
                let lo = self.r.below(3);
                let (id, f, s) = self.foreign(&d, lo, lo + n);
                let (vt, kind) = match k { 8 => (&VT_SHARED, Kind::FShared), 9 => (&VT_UNIQUE, Kind::FUnique), 10 => (&VT_BORROW_RETAIN, Kind::FBorrowR), _ => (&VT_BORROW, Kind::FBorrow) };
                own = Some(id);
                if k >= 10 {
                    // borrowed: the storage is the harness's, valid until the "source" is destroyed
                    src = Some(self.srcs.len());
                    self.srcs.push(None);
                }
                addr = Some(s.as_ptr());
                mk = mark();
                (tracked(|| unsafe { Bytes::from_raw_parts(s, f as *const Foreign as *const (), f.token, vt) }), s.to_vec(), kind)
            }
            12 => {
                let d = self.r.bytes(n);
                allocs_allowed = n > INL;
                full_arc = if n > INL { Some(!cfg!(feature = "stb")) } else { Some(false) };
                mk = mark();
                (tracked(|| Bytes::copied_from_slice(&d)), d, Kind::Copied)
            }
            13 => {
                let d = self.r.bytes(n);
                mk = mark();
                allocs_allowed = true;
                let which = self.r.below(4);
                full_arc = None;
                let (i, s) = self.source(n);
                let d2;
                #[cfg(feature = "w_bytes")]
                {
                    let (b, m, borrowed) = serde_de(which, &d, s);
                    d2 = m;
                    if borrowed { src = Some(i) }
                    (b, d2, Kind::Serde)
                }
                #[cfg(not(feature = "w_bytes"))]
                { let _ = (which, i, s); d2 = d; (Bytes::from(d2.clone()), d2, Kind::Vec) }
            }
            #[cfg(feature = "stb")]
            14 => {
                let d = self.r.bytes(n);
                let a: stabby::sync::ArcSlice<u8> = tracked(|| stabby::sync::ArcSlice::from(&d[..]));
                addr = Some(a.as_slice().as_ptr());
                own = Some(self.owns.len());
                self.owns.push(Some(Own::StbSlice(a.clone())));
                mk = mark();
                (tracked(|| Bytes::from(a)), d, Kind::StbSlice)
            }
            #[cfg(feature = "stb")]
            15 => {
                let d = self.r.bytes(n + 2);
                let off = self.r.below(3);
                let drops = Arc::new(AtomicUsize::new(0));
                let a = tracked(|| stabby::sync::Arc::new(StbHeld(Held { data: d.clone(), off, drops: drops.clone() })));
                let m = a.0.as_ref().to_vec();
                addr = Some(a.0.as_ref().as_ptr());
                own = Some(self.owns.len());
                self.heldc.push(drops.clone());
                self.owns.push(Some(Own::StbT(a.clone(), drops)));
                mk = mark();
                (tracked(|| Bytes::from(a)), m, Kind::StbT)
            }
            #[cfg(feature = "stb")]
            16 => {
                let d = self.r.bytes(n);
                let x: stabby::vec::Vec<u8> = tracked(|| d.iter().copied().collect());
                allocs_allowed = true;
                mk = mark();
                (tracked(|| Bytes::from(x)), d, Kind::StbVec)
            }
            #[cfg(feature = "stb")]
            17 => {
                let d = self.r.bytes(n);
                let x: stabby::boxed::BoxedSlice<u8> = tracked(|| d.iter().copied().collect::<stabby::vec::Vec<u8>>().into());
                allocs_allowed = true;
                mk = mark();
                (tracked(|| Bytes::from(x)), d, Kind::StbBox)
            }
            _ => unreachable!(),
        };
        if alloc_mode {
            if !allocs_allowed && mk.allocs() != 0 { self.fail(format!("constructing a Bytes of kind {kind:?} with {n} bytes allocated {} times", mk.allocs())) }
            if let Some(a) = addr {
                if b.as_slice().as_ptr() != a && n > INL { self.fail(format!("constructing a Bytes of kind {kind:?} copied the {n} bytes it was given")) }
            }
        }
        let e = Ent { b, m, kind, own, src, full_arc };
        self.content_ok(&e, "after construction");
        self.seen(0, &e);
        ev("construct");
        self.pool.push(e);
    }

    fn random_range(&mut self, n: usize) -> (Bound<usize>, Bound<usize>) {
        let wild = self.r.chance(1, 8);
        let mut end = |r: &mut Rng, n: usize| -> usize {
            if wild { match r.below(5) { 0 => n + 1, 1 => usize::MAX, 2 => usize::MAX - 1, 3 => n + r.below(50), _ => r.below(n + 1) } } else { r.below(n + 1) }
        };
        let a = end(&mut self.r, n);
        let b = end(&mut self.r, n);
        let (a, b) = if wild && self.r.chance(1, 2) || a <= b { (a, b) } else { (b, a) };
        let s = match self.r.below(4) { 0 => Bound::Unbounded, 1 if a > 0 || wild => Bound::Excluded(if wild { a } else { a - 1 }), _ => Bound::Included(a) };
        let e = match self.r.below(4) { 0 => Bound::Unbounded, 1 if b > 0 || wild => Bound::Included(if wild { b } else { b - 1 }), _ => Bound::Excluded(b) };
        (s, e)
    }
    /// what a range selects out of n bytes, `None` if out of range
    fn resolve(r: (Bound<usize>, Bound<usize>), n: usize) -> Option<(usize, usize)> {
        let s = match r.0 { Bound::Included(i) => i as u128, Bound::Excluded(i) => i as u128 + 1, Bound::Unbounded => 0 };
        let e = match r.1 { Bound::Included(i) => i as u128 + 1, Bound::Excluded(i) => i as u128, Bound::Unbounded => n as u128 };
        if s <= e && e <= n as u128 { Some((s as usize, e as usize)) } else { None }
    }

    fn step(&mut self) {
        if self.pool.is_empty() || (self.pool.len() < 24 && self.r.chance(1, 5)) { return self.construct(); }
        let op = 1 + self.r.below(18) as u8;
        let i = self.r.below(self.pool.len());
        let n = self.pool[i].m.len();
        let acc = self.mode == Mode::Alloc && ledger::ON;
        let base = self.pool[i].b.as_slice().as_ptr();
        let was_in = in_obj(&self.pool[i].b);
        match op {
            // clone / noalloc_clone
            1 | 2 => {
                self.log.push((1, i, n, 0));
                let e = &self.pool[i];
                let predicted = e.b.clone_will_allocate();
                let mk = mark();
                let c = tracked(|| e.b.clone());
                let a = mk.allocs();
                if acc && predicted != (a > 0) { self.fail(format!("clone_will_allocate() said {predicted} for kind {:?} of length {n}, and clone() allocated {a} times", e.kind)) }
                if acc && !predicted && !was_in && n > INL && c.as_slice().as_ptr() != base { self.fail(format!("clone of kind {:?} (len {n}) does not share the storage", e.kind)) }
                let full_arc = if a > 0 && ledger::ON { Some(!cfg!(feature = "stb")) } else if ledger::ON { e.full_arc } else { if e.full_arc == Some(true) { Some(true) } else { None } };
                let copied = predicted || in_obj(&c);
                // a clone that shares carries the owner; one that copied does not need it
                let own = if !in_obj(&c) && c.as_slice().as_ptr() == base || n == 0 { e.own } else { None };
                let src = if copied && !(c.as_slice().as_ptr() == base && !was_in) { None } else { e.src };
                let ne = Ent { b: c, m: e.m.clone(), kind: e.kind, own, src, full_arc };
                self.content_ok(&ne, "after clone");
                self.seen(1, &ne);
                self.pool.push(ne);
                self.trim();
                ev("clone");
            }
            3 => {
                self.log.push((2, i, n, 0));
                let e = &self.pool[i];
                let predicted = e.b.clone_will_allocate();
                let mk = mark();
                let c = tracked(|| e.b.noalloc_clone());
                if acc && mk.allocs() > 0 { self.fail(format!("noalloc_clone of kind {:?} allocated", e.kind)) }
                match c {
                    Some(c) => {
                        if predicted { self.fail(format!("noalloc_clone of kind {:?} (len {n}) returned a value although cloning must allocate", e.kind)) }
                        let own = if was_in { None } else { e.own };
                        let ne = Ent { b: c, m: e.m.clone(), kind: e.kind, own, src: if was_in { None } else { e.src }, full_arc: e.full_arc };
                        self.content_ok(&ne, "after noalloc_clone");
                        self.pool.push(ne);
                        self.trim();
                    }
                    None => {
                        // allowed when a clone needs to copy, i.e. never for shared, static, borrowed or inline data
                        if was_in || matches!(e.kind, Kind::Empty | Kind::Static | Kind::Inline | Kind::ArcBytes | Kind::ArcT | Kind::FShared | Kind::FBorrowR | Kind::Copied | Kind::StbSlice | Kind::StbT) {
                            self.fail(format!("noalloc_clone of kind {:?} (len {n}) refused although cloning it never copies out of line", e.kind))
                        }
                    }
                }
                ev("noalloc_clone");
            }
            // narrowing
            4..=7 => {
                let mut rg = self.random_range(n);
                let style = self.r.below(6);
                rg = match (style, rg) {
                    (1, (_, Bound::Included(e) | Bound::Excluded(e))) => (Bound::Unbounded, Bound::Excluded(e)),
                    (2, (Bound::Included(s) | Bound::Excluded(s), _)) => (Bound::Included(s), Bound::Unbounded),
                    (_, r) => r,
                };
                let want = Self::resolve(rg, n);
                let enc = |b: Bound<usize>| match b { Bound::Unbounded => 0, Bound::Included(i) => i.wrapping_mul(4) + 1, Bound::Excluded(i) => i.wrapping_mul(4) + 2 };
                self.log.push((3, i, enc(rg.0), enc(rg.1)));
                let by_value = op == 4 && want.is_some();
                let mk = mark();
                let e = &mut self.pool[i];
                let res = if by_value {
                    let b = std::mem::take(&mut e.b);
                    let r = catch_unwind(AssertUnwindSafe(|| tracked(|| b.subsliced(rg))));
                    r.map(|b| e.b = b)
                } else {
                    catch_unwind(AssertUnwindSafe(|| tracked(|| match (style, rg) {
                        (1, (_, Bound::Excluded(e_))) => e.b.shrink_to(..e_),
                        (2, (Bound::Included(s), _)) => e.b.shrink_to(s..),
                        (3, (Bound::Included(s), Bound::Excluded(e_))) => e.b.shrink_to(s..e_),
                        (4, (Bound::Included(s), Bound::Included(e_))) => e.b.shrink_to(s..=e_),
                        (_, r) => e.b.shrink_to(r),
                    })))
                };
                let allocs = mk.allocs();
                let e = &mut self.pool[i];
                match (want, res.is_ok()) {
                    (Some((s, t)), true) => {
                        e.m = e.m[s..t].to_vec();
                        let small = t - s <= INL;
                        e.full_arc = if s == 0 && t == n { if small && !was_in { None } else { e.full_arc } } else { Some(false) };
                        if in_obj(&e.b) { e.src = None; }
                        let e = &self.pool[i];
                        self.content_ok(e, "after narrowing");
                        if acc && allocs > 0 { self.fail(format!("narrowing kind {:?} allocated", e.kind)) }
                        if acc && t - s > INL && e.b.as_slice().as_ptr() != unsafe { base.add(s) } { self.fail(format!("narrowing kind {:?} from {n} to {s}..{t} moved the data", e.kind)) }
                        self.seen(3, e);
                        ev("narrow");
                    }
                    (None, false) => { self.content_ok(&self.pool[i], "after a refused narrowing"); ev("narrow_refused"); }
                    (Some((s, t)), false) => { let k = e.kind; self.fail(format!("narrowing kind {k:?} (inlined: {was_in}) of length {n} to the in-range {s}..{t} panicked")) }
                    (None, true) => { let k = e.kind; self.fail(format!("narrowing kind {k:?} of length {n} to the out-of-range {rg:?} succeeded")) }
                }
            }
            // split
            8 | 9 => {
                let at = if self.r.chance(1, 10) { n + 1 + self.r.below(3) } else if self.r.chance(1, 20) { usize::MAX } else { self.r.below(n + 1) };
                self.log.push((4, i, at, n));
                let mut e = self.pool.swap_remove(i);
                let predicted = e.b.clone_will_allocate();
                let mk = mark();
                let b = std::mem::take(&mut e.b);
                let res = catch_unwind(AssertUnwindSafe(|| tracked(|| b.split_at(at))));
                let allocs = mk.allocs();
                let res = match res { Ok(r) => r, Err(_) => self.fail(format!("split_at({at}) of kind {:?} (inlined: {was_in}) of length {n} panicked", e.kind)) };
                match res {
                    Ok((l, r)) => {
                        if at > n { self.fail(format!("split_at({at}) of {n} bytes succeeded")) }
                        let both = at > INL && n - at > INL;
                        if acc && allocs > 0 && !(both && predicted) { self.fail(format!("split_at({at}) of kind {:?} of length {n} allocated {allocs} times", e.kind)) }
                        if acc && both {
                            if unsafe { l.as_slice().as_ptr().add(at) } != r.as_slice().as_ptr() { self.fail(format!("split_at({at}) of kind {:?}: the halves do not share one buffer", e.kind)) }
                            if !predicted && l.as_slice().as_ptr() != base { self.fail(format!("split_at({at}) of kind {:?} copied", e.kind)) }
                        }
                        let whole = |part: usize| if part == n { None } else { Some(false) };
                        let shared = |b: &Bytes<'static>| { let p = b.as_slice().as_ptr() as usize; p >= base as usize && p <= base as usize + n && !in_obj(b) };
                        let (lsrc, rsrc) = (if shared(&l) { e.src } else { None }, if shared(&r) { e.src } else { None });
                        let le = Ent { b: l, m: e.m[..at].to_vec(), kind: e.kind, own: e.own, src: lsrc, full_arc: whole(at) };
                        let re = Ent { b: r, m: e.m[at..].to_vec(), kind: e.kind, own: e.own, src: rsrc, full_arc: whole(n - at) };
                        self.content_ok(&le, "left half of a split");
                        self.content_ok(&re, "right half of a split");
                        self.seen(4, &le);
                        self.seen(4, &re);
                        self.pool.push(le);
                        self.pool.push(re);
                        self.trim();
                        ev("split");
                    }
                    Err(b) => {
                        if at <= n { self.fail(format!("split_at({at}) of {n} bytes was refused")) }
                        e.b = b;
                        self.content_ok(&e, "after a refused split");
                        self.pool.push(e);
                        ev("split_refused");
                    }
                }
            }
            // upgrade
            10 | 11 => {
                self.log.push((5, i, n, 0));
                let mut e = self.pool.swap_remove(i);
                let predicted = e.b.upgrade_will_allocate();
                let b = std::mem::take(&mut e.b);
                let mk = mark();
                let b = tracked(|| b.upgrade());
                let a = mk.allocs();
                if acc && predicted != (a > 0) { self.fail(format!("upgrade_will_allocate() said {predicted} for kind {:?} of length {n}, and upgrade() allocated {a} times", e.kind)) }
                if acc && !predicted && n > INL && b.as_slice().as_ptr() != base { self.fail(format!("upgrade of kind {:?} copied without saying so", e.kind)) }
                if b.upgrade_will_allocate() { self.fail(format!("an upgraded Bytes of kind {:?} still needs upgrading", e.kind)) }
                if e.src.is_some() && n > 0 && b.as_slice().as_ptr() == base { self.fail(format!("upgrade of kind {:?} (len {n}) still refers to the borrowed data", e.kind)) }
                if e.src.is_some() { e.own = None; }
                e.full_arc = if e.src.is_some() { if n > INL { Some(!cfg!(feature = "stb")) } else { None } } else { e.full_arc };
                e.src = None;
                e.b = b;
                self.content_ok(&e, "after upgrade");
                self.seen(5, &e);
                self.pool.push(e);
                ev("upgrade");
            }
            12 => {
                self.log.push((6, i, n, 0));
                let mut e = self.pool.swap_remove(i);
                let b = std::mem::take(&mut e.b);
                let mk = mark();
                let res = tracked(|| b.noalloc_upgrade());
                if acc && mk.allocs() > 0 { self.fail(format!("noalloc_upgrade of kind {:?} allocated", e.kind)) }
                match res {
                    Ok(b) => {
                        if e.src.is_some() && n > 0 && b.as_slice().as_ptr() == base { self.fail(format!("noalloc_upgrade of kind {:?} (len {n}) claims 'static for borrowed data", e.kind)) }
                        if b.upgrade_will_allocate() { self.fail(format!("noalloc_upgrade succeeded for kind {:?} (len {n}), yet upgrading the result would still allocate", e.kind)) }
                        if e.src.is_some() { e.own = None; }
                        e.src = None;
                        if n <= INL { e.full_arc = None; }
                        e.b = b;
                        ev("noalloc_upgrade");
                    }
                    Err(b) => {
                        e.b = b;
                        if e.src.is_none() { self.fail(format!("noalloc_upgrade of kind {:?} (len {n}) refused although the data needs no borrow", e.kind)) }
                        if n <= INL { self.fail(format!("noalloc_upgrade of kind {:?} (len {n}) refused although it can be inlined", e.kind)) }
                        ev("noalloc_upgrade_refused");
                    }
                }
                self.content_ok(&e, "after noalloc_upgrade");
                self.pool.push(e);
            }
            // io::Read
            13 | 14 => {
                let k = match self.r.below(3) { 0 => self.r.below(8), 1 => self.r.below(n + 1), _ => self.r.below(80) };
                self.log.push((7, i, k, n));
                let e = &mut self.pool[i];
                let mut buf = vec![0xEEu8; k];
                let style = self.r.below(4);
                let mk = mark();
                let res = catch_unwind(AssertUnwindSafe(|| match style {
                    0 | 1 => tracked(|| e.b.read(&mut buf).unwrap()),
                    2 => { let m = k.min(n); tracked(|| e.b.read_exact(&mut buf[..m]).unwrap()); m }
                    _ => { let mut v = Vec::new(); let m = e.b.read_to_end(&mut v).unwrap(); buf = v; m }
                }));
                let allocs = mk.allocs();
                let e = &self.pool[i];
                let got = match res { Ok(g) => g, Err(_) => self.fail(format!("reading {k} bytes from kind {:?} (inlined: {was_in}) of length {n} panicked", e.kind)) };
                let want = if style == 3 { n } else { k.min(n) };
                if got != want || buf[..got] != e.m[..got] || (style < 2 && buf[got..].iter().any(|&b| b != 0xEE)) { self.fail(format!("read({k}) from kind {:?} of length {n} gave {got} bytes {:?} instead of {:?}", e.kind, buf, &e.m[..want])) }
                if acc && allocs > 0 && style < 3 { self.fail(format!("reading from kind {:?} allocated", e.kind)) }
                let e = &mut self.pool[i];
                e.m = e.m[got..].to_vec();
                e.full_arc = if got == 0 && n > INL { e.full_arc } else { None };
                if in_obj(&e.b) { e.src = None; }
                let e = &self.pool[i];
                self.content_ok(e, "after reading");
                self.seen(7, e);
                ev("read");
            }
            // comparisons, hashing, formatting, serialising
            15 => {
                let j = self.r.below(self.pool.len());
                self.log.push((8, i, j, 0));
                let (a, b) = (&self.pool[i], &self.pool[j]);
                let ok = (a.b == b.b) == (a.m == b.m)
                    && (a.b != b.b) == (a.m != b.m)
                    && a.b.partial_cmp(&b.b) == a.m.partial_cmp(&b.m)
                    && Ord::cmp(&a.b, &b.b) == a.m.cmp(&b.m)
                    && (a.b < b.b) == (a.m < b.m)
                    && (a.b == a.m) && (a.b == &a.m[..]) && a.b.partial_cmp(&b.m) == a.m.partial_cmp(&b.m)
                    && hash_of(&a.b) == hash_of(&a.m[..])
                    && format!("{:?}", a.b) == format!("{:?}", a.m)
                    && AsRef::<[u8]>::as_ref(&a.b) == &a.m[..] && std::borrow::Borrow::<[u8]>::borrow(&a.b) == &a.m[..] && &*a.b == &a.m[..]
                    && std::cmp::max(&a.b, &b.b) == std::cmp::max(&a.m, &b.m);
                if !ok { self.fail(format!("comparison, hash or formatting of {:?}/{:?} disagrees with the bytes {:?} / {:?}", a.kind, b.kind, a.m, b.m)) }
                #[cfg(feature = "w_bytes")]
                {
                    let s = serde_ser(&a.b);
                    if s != a.m { self.fail(format!("serialising kind {:?} gave {s:?} instead of {:?}", a.kind, a.m)) }
                }
                ev("compare");
            }
            // back to an owner
            16 => {
                self.log.push((9, i, n, 0));
                let mut e = self.pool.swap_remove(i);
                let b = std::mem::take(&mut e.b);
                #[cfg(feature = "stb")]
                if self.r.chance(1, 2) {
                    match tracked(|| stabby::sync::ArcSlice::<u8>::try_from(b)) {
                        Ok(a) => {
                            if a.as_slice() != &e.m[..] { self.fail(format!("conversion of kind {:?} to a stabby slice gave {:?} instead of {:?}", e.kind, a.as_slice(), e.m)) }
                            if matches!(e.kind, Kind::ArcBytes | Kind::ArcT | Kind::Static | Kind::Empty | Kind::FShared | Kind::StbT | Kind::Box | Kind::Vec) && a.as_slice().as_ptr() == base && e.kind != Kind::StbSlice && !matches!(e.kind, Kind::Box|Kind::Vec) { self.fail(format!("kind {:?} was reinterpreted as a stabby slice", e.kind)) }
                            e.b = tracked(|| Bytes::from(a));
                            ev("to_stabby");
                        }
                        Err(b) => { e.b = b; ev("to_stabby_refused"); }
                    }
                    self.content_ok(&e, "after conversion to a stabby slice");
                    e.full_arc = None;
                    self.pool.push(e);
                    return;
                }
                let mk = mark();
                let res = tracked(|| Arc::<[u8]>::try_from(b));
                if acc && mk.allocs() > 0 { self.fail(format!("conversion of kind {:?} to Arc<[u8]> allocated", e.kind)) }
                match res {
                    Ok(a) => {
                        if e.full_arc == Some(false) { self.fail(format!("kind {:?} of length {n} converted to Arc<[u8]> although it is not a whole one", e.kind)) }
                        if &a[..] != &e.m[..] { self.fail(format!("kind {:?} converted to an Arc<[u8]> with {:?} instead of {:?}", e.kind, a, e.m)) }
                        if a.as_ptr() != base { self.fail(format!("kind {:?} converted to an Arc<[u8]> elsewhere", e.kind)) }
                        if Arc::strong_count(&a) > 100_000 { self.fail("absurd strong count".into()) }
                        e.b = tracked(|| Bytes::from(a));
                        e.full_arc = Some(true);
                        ev("to_arc");
                    }
                    Err(b) => {
                        if e.full_arc == Some(true) { self.fail(format!("kind {:?} of length {n}: conversion to Arc<[u8]> refused although it is a whole one", e.kind)) }
                        e.b = b;
                        ev("to_arc_refused");
                    }
                }
                self.content_ok(&e, "after conversion to Arc<[u8]>");
                self.seen(9, &e);
                self.pool.push(e);
            }
            // drop
            17 => {
                self.log.push((10, i, n, 0));
                let e = self.pool.swap_remove(i);
                tracked(|| drop(e.b));
                ev("drop");
            }
            // end of life of a borrowed source
            _ => {
                if self.srcs.is_empty() { return; }
                let s = self.r.below(self.srcs.len());
                self.log.push((11, s, 0, 0));
                self.kill_source(s);
                ev("source_destroyed");
            }
        }
    }
    fn kill_source(&mut self, s: usize) {
        let mut j = 0;
        while j < self.pool.len() {
            if self.pool[j].src == Some(s) { let e = self.pool.swap_remove(j); tracked(|| drop(e.b)); } else { j += 1; }
        }
        if let Some(src) = self.srcs[s].take() {
            unsafe {
                std::ptr::write_bytes(src.buf as *mut u8, 0xDD, (&(*src.buf)).len());
                drop(Box::from_raw(src.buf));
            }
        }
    }
    fn trim(&mut self) {
        while self.pool.len() > 30 {
            let i = self.r.below(self.pool.len());
            let e = self.pool.swap_remove(i);
            tracked(|| drop(e.b));
        }
    }
    /// ownership accounting after every step
    fn owners_ok(&self) {
        let derived = |id: usize| self.pool.iter().filter(|e| e.own == Some(id)).count();
        let pointing = |id: usize, p: usize, l: usize| self.pool.iter().filter(|e| { let a = e.b.as_slice().as_ptr() as usize; e.own == Some(id) && !in_obj(&e.b) && e.b.len() > 0 && a >= p && a < p + l }).count();
        for (id, o) in self.owns.iter().enumerate() {
            match o {
                Some(Own::Foreign(f)) => {
                    let bad = f.bad.load(SeqCst);
                    if bad != 0 { self.fail(format!("foreign owner {}: {}", f.id, ["", "retain called with another capacity word", "retained after its release", "release called with another capacity word", "released more often than retained", "retain called with another capacity word"][bad])) }
                    if f.lo > f.hi { continue; }
                    let borrowed = self.foreign_borrowed(id);
                    if borrowed {
                        if f.released.load(SeqCst) != 0 { self.fail(format!("borrowed storage of foreign owner {} was released", f.id)) }
                        continue;
                    }
                    let (rc, pt, dv) = (f.rc.load(SeqCst), pointing(id, f.buf as usize, f.len.max(1)), derived(id));
                    if pt as isize > rc { self.fail(format!("foreign owner {}: {pt} live views but {rc} references", f.id)) }
                    if rc > dv as isize { self.fail(format!("foreign owner {}: {rc} references held by only {dv} views", f.id)) }
                    if pt > 0 && f.released.load(SeqCst) != 0 { self.fail(format!("foreign owner {} released while {pt} views are alive", f.id)) }
                }
                Some(Own::ArcBytes(a)) => self.count_ok("Arc<[u8]>", Arc::strong_count(a) as isize - 1, pointing(id, a.as_ptr() as usize, a.len().max(1)), derived(id)),
                Some(Own::ArcT(a, d)) => {
                    self.count_ok("Arc<T>", Arc::strong_count(a) as isize - 1, pointing(id, a.data.as_ptr() as usize, a.data.len().max(1)), derived(id));
                    if d.load(SeqCst) != 0 { self.fail("the value in Arc<T> was dropped early".into()) }
                }
                #[cfg(feature = "stb")]
                Some(Own::StbSlice(a)) => self.count_ok("stabby ArcSlice", stabby::sync::ArcSlice::strong_count(a) as isize - 1, pointing(id, a.as_slice().as_ptr() as usize, a.len().max(1)), derived(id)),
                #[cfg(feature = "stb")]
                Some(Own::StbT(a, d)) => {
                    self.count_ok("stabby Arc<T>", stabby::sync::Arc::strong_count(a) as isize - 1, pointing(id, a.0.data.as_ptr() as usize, a.0.data.len().max(1)), derived(id));
                    if d.load(SeqCst) != 0 { self.fail("the value in stabby Arc<T> was dropped early".into()) }
                }
                None => {}
            }
        }
    }
    fn foreign_borrowed(&self, id: usize) -> bool {
        // a borrowed table's owner never reaches the release function
        self.borrowed_ids().contains(&id)
    }
    fn borrowed_ids(&self) -> Vec<usize> {
        let mut v = vec![];
        let mut own = 0;
        for l in &self.log {
            if l.0 == 0 {
                let has = matches!(l.1, 6 | 7 | 8..=11 | 14 | 15);
                if l.1 == 10 || l.1 == 11 { v.push(own) }
                if has { own += 1 }
            }
        }
        v
    }
    fn count_ok(&self, what: &str, rc: isize, pt: usize, dv: usize) {
        if pt as isize > rc { self.fail(format!("{what}: {pt} live views but only {rc} references are held for them")) }
        if rc > dv as isize { self.fail(format!("{what}: {rc} references are held by only {dv} views")) }
    }
    fn drop_some_externals(&mut self) {
        if self.owns.is_empty() { return; }
        let k = self.r.below(self.owns.len());
        let fb = matches!(&self.owns[k], Some(Own::Foreign(_)));
        if fb { return; }
        if self.r.chance(1, 6) {
            if let Some(o) = self.owns[k].take() { self.log.push((12, k, 0, 0)); tracked(|| drop(o)); ev("external_handle_dropped"); }
        }
    }
    fn drain(&mut self) {
        // forward, backward or random order
        let how = self.r.below(3);
        while !self.pool.is_empty() {
            let i = match how { 0 => 0, 1 => self.pool.len() - 1, _ => self.r.below(self.pool.len()) };
            let e = self.pool.swap_remove(i);
            let e = match self.r.below(10) { 0 => { self.content_ok(&e, "before its drop"); e } _ => e };
            tracked(|| drop(e.b));
        }
        let borrowed = self.borrowed_ids();
        for (id, o) in self.owns.iter_mut().enumerate() {
            match o.take() {
                Some(Own::Foreign(f)) => {
                    let (rel, rc) = (f.released.load(SeqCst), f.rc.load(SeqCst));
                    if borrowed.contains(&id) {
                        check!(rel == 0 && rc == 1, "borrowed storage of foreign owner {id} was released {rel} times");
                        tracked(|| unsafe { drop(Vec::from_raw_parts(f.buf, f.len, f.len)) });
                    } else {
                        check!(rel == 1 && rc == 0, "foreign owner {id}: released {rel} times with {rc} references left after the last view was dropped (table: {})", if f.retains.load(SeqCst) > 0 { "shared" } else { "?" });
                        ev("owner_released_once");
                    }
                    check!(f.bad.load(SeqCst) == 0, "foreign owner {id}: misuse {} of its table", f.bad.load(SeqCst));
                }
                Some(Own::ArcBytes(a)) => { check!(Arc::strong_count(&a) == 1, "Arc<[u8]> still has {} references after the last view was dropped", Arc::strong_count(&a) - 1); ev("owner_released_once"); tracked(|| drop(a)) }
                Some(Own::ArcT(a, _)) => { check!(Arc::strong_count(&a) == 1, "Arc<T> still has {} references after the last view was dropped", Arc::strong_count(&a) - 1); tracked(|| drop(a)) }
                #[cfg(feature = "stb")]
                Some(Own::StbSlice(a)) => { let n = stabby::sync::ArcSlice::strong_count(&a); check!(n == 1, "stabby ArcSlice still has {} references", n - 1); tracked(|| drop(a)) }
                #[cfg(feature = "stb")]
                Some(Own::StbT(a, _)) => { let n = stabby::sync::Arc::strong_count(&a); check!(n == 1, "stabby Arc<T> still has {} references", n - 1); tracked(|| drop(a)) }
                None => {}
            }
        }
        for d in &self.heldc { let n = d.load(SeqCst); check!(n == 1, "a value owned through Arc<T> was dropped {n} times"); ev("owner_released_once"); }
        for s in 0..self.srcs.len() { self.kill_source(s); }
        // the leaked bookkeeping records are given back
        for f in self.foreigns.drain(..) { unsafe { drop(Box::from_raw(f)) } }
    }
}

const OPS: [&str; 13] = ["construct", "clone", "noalloc_clone", "narrow", "split_at", "upgrade", "noalloc_upgrade", "read", "compare", "to_arc", "drop", "destroy_source", "drop_external"];

pub fn run(o: &Opts, mode: Mode) {
    std::panic::set_hook(Box::new(|_| {}));
    let stream = match mode { Mode::Content => 1, Mode::Owner => 2, Mode::Alloc => 4 };
    o.histories(stream, |r, i| {
        let before = ledger::live();
        let mut w = World::new(o, mode, r);
        let steps = w.r.range(5, o.steps.max(6));
        for _ in 0..steps {
            w.step();
            if mode == Mode::Owner { if !cfg!(miri) || w.r.chance(1, 6) { w.owners_ok(); } w.drop_some_externals(); }
            if w.r.chance(1, 8) { for e in &w.pool { w.content_ok(e, "later") } }
        }
        for e in &w.pool { w.content_ok(e, "at the end") }
        if w.o.verbose { eprintln!("{i}: {:?}", w.log) }
        w.drain();
        let log = std::mem::take(&mut w.log);
        report::sample(|| log.iter().take(12).map(|l| format!("{}({},{},{})", OPS[l.0 as usize], l.1, l.2, l.3)).collect::<Vec<_>>().join(" "));
        drop(w);
        if mode != Mode::Content {
            if let Some(e) = ledger::error() { report::violation(&format!("allocator ledger: {e}; history of {} steps", log.len())) }
            if ledger::ON && ledger::live() != before { report::violation(&format!("{} blocks allocated for Bytes are still live after every value was dropped; operations {:?}", ledger::live() - before, log)) }
        }
        ev("history");
    });
}

#[cfg(feature = "w_bytes")]
mod ser {
    use serde::ser::{Impossible, Serializer};
    #[derive(Debug)]
    pub struct E(String);
    impl std::fmt::Display for E { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
    impl std::error::Error for E {}
    impl serde::ser::Error for E { fn custom<T: std::fmt::Display>(m: T) -> Self { E(m.to_string()) } }
    pub struct S;
    macro_rules! no { ($($f:ident: $t:ty),*) => { $(fn $f(self, _: $t) -> Result<Vec<u8>, E> { Err(E(stringify!($f).into())) })* } }
    impl Serializer for S {
        type Ok = Vec<u8>; type Error = E;
        type SerializeSeq = Q; type SerializeTuple = Impossible<Vec<u8>, E>; type SerializeTupleStruct = Impossible<Vec<u8>, E>;
        type SerializeTupleVariant = Impossible<Vec<u8>, E>; type SerializeMap = Impossible<Vec<u8>, E>; type SerializeStruct = Impossible<Vec<u8>, E>; type SerializeStructVariant = Impossible<Vec<u8>, E>;
        no!(serialize_bool: bool, serialize_i8: i8, serialize_i16: i16, serialize_i32: i32, serialize_i64: i64, serialize_u16: u16, serialize_u32: u32, serialize_u64: u64, serialize_f32: f32, serialize_f64: f64, serialize_char: char, serialize_str: &str, serialize_unit_struct: &'static str);
        fn serialize_u8(self, v: u8) -> Result<Vec<u8>, E> { Ok(vec![v]) }
        fn serialize_bytes(self, v: &[u8]) -> Result<Vec<u8>, E> { Ok(v.to_vec()) }
        fn serialize_none(self) -> Result<Vec<u8>, E> { Err(E("none".into())) }
        fn serialize_unit(self) -> Result<Vec<u8>, E> { Err(E("unit".into())) }
        fn serialize_some<T: ?Sized + serde::Serialize>(self, _: &T) -> Result<Vec<u8>, E> { Err(E("some".into())) }
        fn serialize_newtype_struct<T: ?Sized + serde::Serialize>(self, _: &'static str, v: &T) -> Result<Vec<u8>, E> { v.serialize(S) }
        fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<Vec<u8>, E> { Err(E("uv".into())) }
        fn serialize_newtype_variant<T: ?Sized + serde::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Vec<u8>, E> { Err(E("nv".into())) }
        fn serialize_seq(self, _: Option<usize>) -> Result<Q, E> { Ok(Q(vec![])) }
        fn serialize_tuple(self, _: usize) -> Result<Self::SerializeTuple, E> { Err(E("tuple".into())) }
        fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, E> { Err(E("ts".into())) }
        fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, E> { Err(E("tv".into())) }
        fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, E> { Err(E("map".into())) }
        fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, E> { Err(E("struct".into())) }
        fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, E> { Err(E("sv".into())) }
    }
    pub struct Q(Vec<u8>);
    impl serde::ser::SerializeSeq for Q {
        type Ok = Vec<u8>; type Error = E;
        fn serialize_element<T: ?Sized + serde::Serialize>(&mut self, v: &T) -> Result<(), E> { self.0.extend(v.serialize(S)?); Ok(()) }
        fn end(self) -> Result<Vec<u8>, E> { Ok(self.0) }
    }
    /// A deserializer that hands the bytes over in a chosen way.
    pub struct D<'de> { pub how: usize, pub borrowed: &'de [u8], pub owned: Vec<u8> }
    impl<'de> serde::Deserializer<'de> for D<'de> {
        type Error = E;
        fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
            match self.how {
                0 => v.visit_borrowed_bytes(self.borrowed),
                1 => { let t = self.owned.clone(); let r = v.visit_bytes(&t); let mut t = t; t.iter_mut().for_each(|b| *b = 0xDD); r }
                2 => v.visit_byte_buf(self.owned),
                _ => v.visit_seq(serde::de::value::SeqDeserializer::<_, E>::new(self.owned.into_iter())),
            }
        }
        serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
    }
    impl serde::de::Error for E { fn custom<T: std::fmt::Display>(m: T) -> Self { E(m.to_string()) } }
}
#[cfg(feature = "w_bytes")]
fn serde_ser(b: &Bytes<'_>) -> Vec<u8> { use serde::Serialize; b.serialize(ser::S).unwrap_or_else(|e| report::violation(&format!("serialising failed: {e}"))) }
/// (value, its model, does it borrow)
#[cfg(feature = "w_bytes")]
fn serde_de(how: usize, owned: &[u8], borrowed: &'static [u8]) -> (Bytes<'static>, Vec<u8>, bool) {
    use serde::Deserialize;
    let d = ser::D { how, borrowed, owned: owned.to_vec() };
    let b = tracked(|| Bytes::<'static>::deserialize(d)).unwrap_or_else(|e| report::violation(&format!("deserialising failed: {e}")));
    let m = if how == 0 { borrowed.to_vec() } else { owned.to_vec() };
    let br = how == 0 && !in_obj(&b);
    (b, m, br)
}
